// BitVectorSet against the mathematical set (membership predicates).
#include "symrt.h"
#include "phasar/Utils/BitVectorSet.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
using psr::BitVectorSet;

// universe: 70 elements so that sets span two machine words; the candidates lie
// at the word boundaries
static constexpr unsigned N = 70;
static constexpr int Cand[] = {0, 1, 63, 64, 69};
static constexpr unsigned NC = 5;

static void registerUniverse() {
  static bool Done = false;
  if (Done)
    return;
  Done = true;
  BitVectorSet<int> U;
  for (unsigned I = 0; I < N; ++I)
    U.insert((int)I * 3 + 7);
}
static int elem(unsigned C) { return Cand[C] * 3 + 7; }

struct Sym {
  BitVectorSet<int> S;
  bool In[NC];
};
// arbitrary set built through a history of inserts, optional erase
static void build(Sym &X, const char *Nm, bool WithErase) {
  for (unsigned I = 0; I < NC; ++I) {
    X.In[I] = sym_bool(Nm);
    if (X.In[I])
      X.S.insert(elem(I));
  }
  if (WithErase) {
    unsigned E = sym_pick<unsigned>("erase", 0, NC);
    if (E < NC) {
      X.S.erase(elem(E));
      X.In[E] = false;
    }
  }
}
static bool sameMembers(const BitVectorSet<int> &S, const bool *In) {
  bool R = true;
  for (unsigned I = 0; I < NC; ++I)
    R &= (S.count(elem(I)) == (size_t)In[I]) & (S.find(elem(I)) == In[I]);
  return R;
}
static void checkAgainst(const BitVectorSet<int> &S, const bool *In,
                         const char *Id) {
  symrt_check(sameMembers(S, In), Id);
  size_t Cnt = 0;
  for (unsigned I = 0; I < NC; ++I)
    Cnt += In[I];
  symrt_check(S.size() == Cnt, "size = number of members");
  symrt_check(S.empty() == (Cnt == 0), "empty iff no member");
  // no element outside the candidates
  symrt_check(S.count(2 * 3 + 7) == 0, "no foreign member");
  symrt_check(S.count(65 * 3 + 7) == 0, "no foreign member");
  symrt_check(S.count(-1) == 0, "unknown element is no member");
}

SYM_GOAL(member_history) {
  registerUniverse();
  Sym A;
  build(A, "a", true);
  checkAgainst(A.S, A.In, "membership after insert/erase");
  // erase is idempotent, insert is idempotent
  unsigned K = sym_pick<unsigned>("k", 0, NC - 1);
  A.S.insert(elem(K));
  A.In[K] = true;
  checkAgainst(A.S, A.In, "membership after re-insert");
  A.S.erase(elem(K));
  A.S.erase(elem(K));
  A.In[K] = false;
  checkAgainst(A.S, A.In, "membership after double erase");
  A.S.clear();
  for (auto &B : A.In)
    B = false;
  checkAgainst(A.S, A.In, "clear empties");
}
SYM_GOAL(union_intersect) {
  registerUniverse();
  Sym A, B;
  build(A, "a", false);
  build(B, "b", false);
  bool U[NC], X[NC], D[NC];
  for (unsigned I = 0; I < NC; ++I) {
    U[I] = A.In[I] | B.In[I];
    X[I] = A.In[I] & B.In[I];
    D[I] = A.In[I] & !B.In[I];
  }
  checkAgainst(A.S.setUnion(B.S), U, "setUnion");
  checkAgainst(A.S.setIntersect(B.S), X, "setIntersect");
  auto C = A.S;
  C.setUnionWith(B.S);
  checkAgainst(C, U, "setUnionWith");
  C = A.S;
  C.setIntersectWith(B.S);
  checkAgainst(C, X, "setIntersectWith");
  C = A.S;
  C.insert(B.S);
  checkAgainst(C, U, "insert(set)");
  C = A.S;
  C.erase(B.S);
  checkAgainst(C, D, "erase(set)");
  // operands untouched
  checkAgainst(A.S, A.In, "operand unchanged");
  checkAgainst(B.S, B.In, "operand unchanged");
  symrt_check(A.S.setUnion(B.S) == B.S.setUnion(A.S), "union commutes");
  symrt_check(A.S.setIntersect(B.S) == B.S.setIntersect(A.S),
              "intersection commutes");
}
SYM_GOAL(relations) {
  registerUniverse();
  Sym A, B;
  build(A, "a", false);
  build(B, "b", false);
  // give one side a history that leaves trailing zero words behind
  bool Tail = sym_bool("tail");
  if (Tail) {
    if (!A.In[4]) {
      A.S.insert(elem(4));
      A.S.erase(elem(4));
    }
  }
  bool Sub = true, Eq = true;
  for (unsigned I = 0; I < NC; ++I) {
    Sub &= !B.In[I] | A.In[I];
    Eq &= A.In[I] == B.In[I];
  }
  symrt_check(A.S.includes(B.S) == Sub, "includes = superset");
  symrt_check((A.S == B.S) == Eq, "== is set equality");
  symrt_check((A.S != B.S) == !Eq, "!= is its negation");
  bool LT = A.S < B.S, GT = B.S < A.S;
  symrt_check(!(LT & GT), "< is asymmetric");
  symrt_check((LT | GT) == !Eq, "< is total up to equality");
  if (Eq)
    symrt_check(hash_value(A.S) == hash_value(B.S), "equal sets, equal hash");
}
SYM_GOAL(order_transitive) {
  registerUniverse();
  static constexpr unsigned K = 4;
  static constexpr int Cd[] = {0, 1, 64, 69};
  BitVectorSet<int> S[3];
  for (auto &X : S)
    for (unsigned I = 0; I < K; ++I)
      if (sym_bool("m"))
        X.insert(Cd[I] * 3 + 7);
  if (S[0] < S[1] && S[1] < S[2])
    symrt_check(S[0] < S[2], "< is transitive");
}
SYM_GOAL(iteration) {
  registerUniverse();
  Sym A;
  build(A, "a", true);
  bool Seen[NC] = {};
  unsigned Cnt = 0;
  for (int E : A.S) {
    ++Cnt;
    bool Found = false;
    for (unsigned I = 0; I < NC; ++I)
      if (E == elem(I)) {
        symrt_check(!Seen[I], "each member visited once");
        Seen[I] = true;
        Found = true;
      }
    symrt_check(Found, "only members visited");
    symrt_check(Cnt <= NC, "iteration ends");
  }
  for (unsigned I = 0; I < NC; ++I)
    symrt_check(Seen[I] == A.In[I], "exactly the members are visited");
  // range construction and initialiser list
  std::set<int> Ref;
  for (unsigned I = 0; I < NC; ++I)
    if (A.In[I])
      Ref.insert(elem(I));
  BitVectorSet<int> R(Ref.begin(), Ref.end());
  symrt_check(R == A.S, "range construction");
}
