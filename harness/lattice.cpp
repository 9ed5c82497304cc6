// Value lattices: laws of join/top/bottom/equality/order/hash.
#include "symrt.h"
#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Domain/LatticeDomain.h"
#include "phasar/Utils/JoinLattice.h"
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/StringRef.h"
#include <utility>
using namespace psr;

using V = int64_t;
using L = LatticeDomain<V>;
using JL = JoinLatticeTraits<L>;
struct Abs { // abstract view: 0 top, 1 value, 2 bottom
  unsigned K;
  V X;
};
static L make(Abs A) {
  if (A.K == 0)
    return Top{};
  if (A.K == 2)
    return Bottom{};
  return A.X;
}
static Abs any(const char *Nm) {
  unsigned K = sym_pick<unsigned>("kind", 0, 2);
  return {K, sym_any<V>(Nm)};
}
static Abs join(Abs A, Abs B) {
  if (A.K == 0)
    return B;
  if (B.K == 0)
    return A;
  if (A.K == 1 && B.K == 1 && A.X == B.X)
    return A;
  return {2, 0};
}
static bool same(const L &X, Abs A) {
  if (X.isTop() != (A.K == 0) || X.isBottom() != (A.K == 2))
    return false;
  const V *P = X.getValueOrNull();
  if (A.K != 1)
    return !P;
  return P && *P == A.X;
}
static bool absEq(Abs A, Abs B) {
  if (A.K != B.K)
    return false;
  return A.K != 1 || A.X == B.X;
}
static bool absLt(Abs A, Abs B) {
  if (A.K != B.K)
    return A.K < B.K;
  return A.K == 1 && A.X < B.X;
}
SYM_GOAL(join2) {
  Abs A = any("a"), B = any("b");
  L X = make(A), Y = make(B);
  symrt_check(same(JL::join(X, Y), join(A, B)), "join");
  symrt_check(same(JL::join(Y, X), join(A, B)), "join commutes");
  symrt_check(same(JL::join(X, X), A), "join idempotent");
  symrt_check(same(JL::join(X, L(JL::top())), A), "top neutral");
  symrt_check(same(JL::join(L(JL::top()), X), A), "top neutral");
  symrt_check(same(JL::join(X, L(JL::bottom())), {2, 0}), "bottom absorbs");
  symrt_check(same(JL::join(L(JL::bottom()), X), {2, 0}), "bottom absorbs");
  symrt_check((X == Y) == absEq(A, B), "equality");
  symrt_check((X != Y) == !absEq(A, B), "inequality");
  symrt_check((X < Y) == absLt(A, B), "order");
  symrt_check((X == Top{}) == (A.K == 0) && (Top{} == X) == (A.K == 0),
              "compare with top");
  symrt_check((X == Bottom{}) == (A.K == 2) && (Bottom{} == X) == (A.K == 2),
              "compare with bottom");
  symrt_check((X != Top{}) == (A.K != 0) && (Bottom{} != X) == (A.K != 2),
              "differs from top/bottom");
  symrt_check((X == B.X) == (A.K == 1 && A.X == B.X), "compare with value");
  symrt_check((B.X == X) == (A.K == 1 && A.X == B.X), "compare with value");
  symrt_check((X != B.X) == !(A.K == 1 && A.X == B.X), "differs from value");
  symrt_check((B.X != X) == !(A.K == 1 && A.X == B.X), "differs from value");
}
SYM_GOAL(join3) {
  Abs A = any("a"), B = any("b"), C = any("c");
  L X = make(A), Y = make(B), Z = make(C);
  symrt_check(JL::join(JL::join(X, Y), Z) == JL::join(X, JL::join(Y, Z)),
              "join associative");
  L J = JL::join(X, Y);
  // least upper bound: any common upper bound Z is above J
  bool UB = JL::join(X, Z) == Z && JL::join(Y, Z) == Z;
  symrt_check(!UB || JL::join(J, Z) == Z, "join is the least upper bound");
  // strict weak order
  bool XY = X < Y, YZ = Y < Z;
  symrt_check(!(XY && YZ) || X < Z, "order transitive");
}
namespace psr {
struct Boxed {
  V X;
  bool operator==(const Boxed &O) const { return X == O.X; }
  friend llvm::hash_code hash_value(const Boxed &B) {
    return llvm::hash_code(B.X * 3 + 1);
  }
};
} // namespace psr
SYM_GOAL(hash) {
  Abs A = any("a"), B = any("b");
  // hash_value(int64) of libLLVM is called on enumerated values only
  symrt_assume((A.X >= 0) & (A.X <= 1) & (B.X >= 0) & (B.X <= 1));
  A.X = symrt_conc(A.X), B.X = symrt_conc(B.X);
  using LB = LatticeDomain<Boxed>;
  auto Mk = [](Abs A) -> LB {
    if (A.K == 0)
      return Top{};
    if (A.K == 2)
      return Bottom{};
    return Boxed{A.X};
  };
  LB X = Mk(A), Y = Mk(B);
  symrt_check(!(X == Y) || hash_value(X) == hash_value(Y),
              "equal values hash alike");
}
SYM_GOAL(nontopbot) {
  V X = sym_any<V>("x");
  symrt_check(NonTopBotValue<L>::unwrap(L(X)) == X, "unwrap inverts wrapping");
  L Y = X;
  symrt_check(Y.assertGetValue() == X, "value");
}
SYM_GOAL(binary) {
  using BJ = JoinLatticeTraits<BinaryDomain>;
  auto Any = [](const char *N) {
    return sym_bool(N) ? BinaryDomain::TOP : BinaryDomain::BOTTOM;
  };
  BinaryDomain A = Any("a"), B = Any("b"), C = Any("c");
  symrt_check(BJ::join(A, B) == BJ::join(B, A), "join commutes");
  symrt_check(BJ::join(A, BJ::join(B, C)) == BJ::join(BJ::join(A, B), C),
              "join associative");
  symrt_check(BJ::join(A, A) == A, "join idempotent");
  symrt_check(BJ::join(A, BJ::top()) == A, "top neutral");
  symrt_check(BJ::join(BJ::top(), A) == A, "top neutral");
  symrt_check(BJ::join(A, BJ::bottom()) == BJ::bottom(), "bottom absorbs");
  symrt_check(BJ::join(BJ::bottom(), A) == BJ::bottom(), "bottom absorbs");
  symrt_check(BJ::top() != BJ::bottom(), "top differs from bottom");
}
struct Dom {
  using l_t = L;
};
SYM_GOAL(virtual_lattice) {
  struct JLat : JoinLattice<Dom> {
  } J;
  Abs A = any("a"), B = any("b");
  symrt_check(same(J.join(make(A), make(B)), join(A, B)), "join");
  symrt_check(J.topElement() == Top{} && J.bottomElement() == Bottom{},
              "extrema");
}
