// StableVector against std::vector: contents, iteration, stable references,
// no use of freed or unconstructed slots.
#include "symrt.h"
#include "phasar/Utils/StableVector.h"
#include <memory>
#include <new>
#include <vector>
using namespace psr;

static const unsigned Fill[] = {0, 1, 31, 32, 33, 63, 64, 65};
static int Live = 0;
struct Elem {
  int V;
  Elem *Self; // detects objects that were moved in memory or never constructed
  Elem(int V) : V(V), Self(this) { ++Live; }
  Elem(const Elem &O) : V(O.V), Self(this) {
    symrt_check(O.Self == &O, "copied from a live element");
    ++Live;
  }
  Elem(Elem &&O) noexcept : V(O.V), Self(this) {
    symrt_check(O.Self == &O, "moved from a live element");
    ++Live;
  }
  ~Elem() {
    symrt_check(Self == this, "only live elements are destroyed, once");
    Self = nullptr;
    --Live;
  }
  bool operator==(const Elem &O) const { return V == O.V; }
};
using SV = StableVector<Elem>;
using Ref = std::vector<int>;

static bool same(const SV &A, const Ref &R) {
  bool Ok = A.size() == R.size() && A.empty() == R.empty();
  if (!Ok)
    return false;
  for (unsigned I = 0; I < R.size(); ++I)
    Ok &= (A[I].V == R[I]) & (A[I].Self == &A[I]);
  unsigned N = 0;
  for (const auto &E : A) {
    if (N >= R.size())
      return false;
    Ok &= (E.V == R[N]) & (&E == &A[N]);
    ++N;
  }
  Ok &= N == R.size();
  if (!R.empty())
    Ok &= (A.front().V == R.front()) & (A.back().V == R.back()) & (&A.back() == &A[R.size() - 1]);
  return Ok;
}
static void push(SV &A, Ref &R, int V) {
  std::vector<const Elem *> Addr;
  for (unsigned I = 0; I < R.size(); ++I)
    Addr.push_back(&A[I]);
  auto &X = A.emplace_back(V);
  R.push_back(V);
  symrt_check(X.V == V && &X == &A[R.size() - 1], "emplace_back returns the new element");
  for (unsigned I = 0; I < Addr.size(); ++I)
    symrt_check(Addr[I] == &A[I], "references stay valid on insertion");
}
static void prefill(SV &A, Ref &R, unsigned N) {
  for (unsigned I = 0; I < N; ++I)
    A.push_back(Elem(100 + I)), R.push_back(100 + I);
}
static void op(SV &A, Ref &R) {
  switch (sym_pick<unsigned>("op", 0, 8)) {
  case 0:
    push(A, R, sym_any<int>("v"));
    break;
  case 1:
    if (!R.empty())
      A.pop_back(), R.pop_back();
    break;
  case 2: {
    if (!R.empty()) {
      Elem E = A.pop_back_val();
      symrt_check(E.V == R.back(), "pop_back_val returns the last element");
      R.pop_back();
    }
    break;
  }
  case 3: {
    unsigned K[] = {2, 31, 32, 33, 64};
    unsigned N = K[sym_pick<unsigned>("n", 0, 4)];
    if (N > R.size())
      N = R.size();
    A.pop_back_n(N);
    R.resize(R.size() - N);
    break;
  }
  case 4:
    A.clear(), R.clear();
    break;
  case 5:
    A.shrink_to_fit();
    break;
  case 6: {
    SV B = A.clone();
    symrt_check(same(B, R) && B == A, "a copy equals its source");
    push(B, R, 7);
    symrt_check(A != B, "a copy is independent");
    A = std::move(B);
    break;
  }
  case 7: {
    SV B(std::move(A));
    symrt_check(same(B, R), "a moved-to vector has the contents");
    symrt_check(A.empty() && A.size() == 0, "a moved-from vector is empty");
    push(B, R, 8);
    swap(A, B);
    symrt_check(B.empty(), "swap exchanges the contents");
    break;
  }
  case 8: {
    for (int I = 0; I < 33; ++I)
      A.emplace_back(I), R.push_back(I);
    break;
  }
  }
}
static void history(unsigned Steps) {
  uint64_t L0 = symrt_live();
  {
    SV A;
    Ref R;
    prefill(A, R, Fill[sym_pick<unsigned>("fill", 0, 7)]);
    for (unsigned I = 0; I < Steps; ++I) {
      op(A, R);
      symrt_check(same(A, R), "contents");
    }
    push(A, R, 1);
    symrt_check(same(A, R), "contents after a further insertion");
    symrt_check((unsigned)Live == R.size(), "each element is constructed and destroyed once");
    symrt_cover("history");
  }
  symrt_check(Live == 0 && symrt_live() == L0, "no element and no block leaks");
}
SYM_GOAL(history2) { history(2); }
SYM_GOAL(history3) { history(3); }
SYM_GOAL(equality) {
  StableVector<int> A, B;
  unsigned N = Fill[sym_pick<unsigned>("fill", 0, 7)];
  for (unsigned I = 0; I < N; ++I)
    A.push_back(I), B.push_back(I);
  // B may have been longer before
  unsigned X = sym_pick<unsigned>("extra", 0, 2) * 17;
  for (unsigned I = 0; I < X; ++I)
    B.push_back(5);
  B.pop_back_n(X);
  symrt_check(A == B && B == A && !(A != B), "equal contents compare equal");
  if (N) {
    unsigned P = sym_pick<unsigned>("pos", 0, N - 1);
    int V = sym_any<int>("v");
    B[P] = V;
    bool Eq = V == (int)P;
    symrt_check((A == B) == Eq, "equality looks at every element");
    symrt_check((A != B) == !Eq, "inequality is the negation");
  }
  B.push_back(1);
  symrt_check(A != B, "different sizes differ");
}
SYM_GOAL(index) {
  StableVector<int> A;
  static const unsigned Sizes[] = {1, 31, 32, 33, 64, 65, 129, 140};
  unsigned N = Sizes[sym_pick<unsigned>("n", 0, 7)];
  for (unsigned I = 0; I < N; ++I)
    A.push_back(3 * I);
  unsigned K = sym_range<unsigned>("k", 0, N - 1);
  symrt_check(A[K] == (int)(3 * K), "subscript");
  auto It = A.begin();
  for (unsigned I = 0; I < N; ++I, ++It)
    symrt_check(It != A.end() && &*It == &A[I], "iteration order");
  symrt_check(It == A.end(), "iteration ends");
}
