// Edge-function algebra: composition, join, equality, lifetime, caching.
#include "symrt.h"
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Domain/LatticeDomain.h"
#include "llvm/ADT/Hashing.h"
using namespace psr;

using V = int8_t;
using L = LatticeDomain<V>;
using EF = EdgeFunction<L>;
using JL = JoinLatticeTraits<L>;

static int Destroyed = 0, Created = 0;

// x -> x + C ; fits into a pointer
struct AddEF {
  using l_t = L;
  V C{};
  [[nodiscard]] l_t computeTarget(const l_t &S) const {
    if (const V *P = S.getValueOrNull())
      return static_cast<V>(*P + C);
    return S;
  }
  static EF compose(EdgeFunctionRef<AddEF> This, const EF &Second) {
    if (auto D = defaultComposeOrNull(This, Second))
      return D;
    if (const auto *A = llvm::dyn_cast<AddEF>(Second))
      return AddEF{static_cast<V>(This->C + A->C)};
    struct Comp : EdgeFunctionComposer<L> {
      static EF join(EdgeFunctionRef<Comp> This, const EF &Other) {
        if (auto D = defaultJoinOrNull<L, 2>(This, Other))
          return D;
        return JoinEdgeFunction<L, 2>::create(This, Other);
      }
    };
    return Comp{{This, Second}};
  }
  static EF join(EdgeFunctionRef<AddEF> This, const EF &Other) {
    if (auto D = defaultJoinOrNull<L, 2>(This, Other))
      return D;
    return JoinEdgeFunction<L, 2>::create(This, Other);
  }
  bool operator==(AddEF O) const noexcept { return C == O.C; }
};
static_assert(EdgeFunctionBase::IsSOOCandidate<AddEF>);

// x -> (x ^ A) + B, not trivially copyable, allocated on the heap
struct LinEF {
  using l_t = L;
  V A{}, B{};
  unsigned Magic = 0x5a5a5a5a;
  LinEF(V A, V B) : A(A), B(B) { ++Created; }
  LinEF(const LinEF &O) : A(O.A), B(O.B), Magic(O.Magic) { ++Created; }
  ~LinEF() {
    Magic = 0;
    ++Destroyed;
  }
  [[nodiscard]] l_t computeTarget(const l_t &S) const {
    symrt_check(Magic == 0x5a5a5a5a, "edge function alive when used");
    if (const V *P = S.getValueOrNull())
      return static_cast<V>((*P ^ A) + B);
    return S;
  }
  static EF compose(EdgeFunctionRef<LinEF> This, const EF &Second) {
    if (auto D = defaultComposeOrNull(This, Second))
      return D;
    struct Comp : EdgeFunctionComposer<L> {
      static EF join(EdgeFunctionRef<Comp> This, const EF &Other) {
        if (auto D = defaultJoinOrNull<L, 2>(This, Other))
          return D;
        return JoinEdgeFunction<L, 2>::create(This, Other);
      }
    };
    return Comp{{This, Second}};
  }
  static EF join(EdgeFunctionRef<LinEF> This, const EF &Other) {
    if (auto D = defaultJoinOrNull<L, 2>(This, Other))
      return D;
    return JoinEdgeFunction<L, 2>::create(This, Other);
  }
  bool operator==(const LinEF &O) const noexcept {
    return (A == O.A) & (B == O.B);
  }
  friend llvm::hash_code hash_value(const LinEF &E) noexcept {
    return llvm::hash_code(size_t(uint8_t(E.A)) * 37 + uint8_t(E.B));
  }
};
static_assert(!EdgeFunctionBase::IsSOOCandidate<LinEF>);

static bool eq(const L &X, const L &Y) {
  if (X.index() != Y.index())
    return false;
  if (X.index() == 1)
    return *X.getValueOrNull() == *Y.getValueOrNull();
  return true;
}
static L elem(const char *Nm) {
  unsigned K = sym_pick<unsigned>("kind", 0, 2);
  V X = sym_any<V>(Nm);
  if (K == 0)
    return Top{};
  if (K == 1)
    return Bottom{};
  return X;
}
enum Kind { KId, KTop, KBot, KConst, KAdd, KLin, KLinCached, NKind };
static DefaultEdgeFunctionSingletonCache<LinEF> *TheCache;
static EF make(unsigned K, V A, V B) {
  switch (K) {
  case KId:
    return EdgeIdentity<L>{};
  case KTop:
    return AllTop<L>{};
  case KBot:
    return AllBottom<L>{};
  case KConst:
    return ConstantEdgeFunction<L>{A};
  case KAdd:
    return AddEF{A};
  case KLin:
    return LinEF{A, B};
  default:
    return TheCache->createEdgeFunction(A, B);
  }
}
static EF any(const char *Nm, unsigned *KOut = nullptr) {
  unsigned K = sym_pick<unsigned>(Nm, 0, NKind - 1);
  if (KOut)
    *KOut = K;
  V A = sym_any<V>("a"), B = sym_any<V>("b");
  if (K >= KLinCached) { // cached: hashing needs the values
    symrt_assume((A >= 1) & (A <= 2) & (B >= 0) & (B <= 1));
    A = (V)symrt_conc(A), B = (V)symrt_conc(B);
  }
  return make(K, A, B);
}
struct Scope {
  DefaultEdgeFunctionSingletonCache<LinEF> C;
  Scope() { TheCache = &C; }
};

SYM_GOAL(compose) {
  Scope Sc;
  unsigned KF;
  EF F = any("f", &KF), G = any("g");
  L X = elem("x");
  EF H = F.composeWith(G);
  L Want = G.computeTarget(F.computeTarget(X));
  if (KF != KTop) { // the all-top function is the neutral "no path" element
    symrt_check(eq(H.computeTarget(X), Want), "(f;g)(x) = g(f(x))");
    symrt_check(!H.isConstant() ||
                    eq(H.computeTarget(Top{}), H.computeTarget(X)),
                "isConstant is truthful after composition");
  } else {
    symrt_check(eq(H.computeTarget(Top{}), G.computeTarget(Top{})),
                "(alltop;g)(top) = g(top)");
  }
  symrt_check(eq(EF::compose(F, G).computeTarget(X), H.computeTarget(X)),
              "compose = composeWith");
}
SYM_GOAL(compose3) {
  Scope Sc;
  unsigned K1 = sym_pick<unsigned>("k1", KConst, KLin),
           K2 = sym_pick<unsigned>("k2", KConst, KLin),
           K3 = sym_pick<unsigned>("k3", KConst, KLin);
  EF F = make(K1, sym_any<V>("a"), sym_any<V>("b")),
     G = make(K2, sym_any<V>("c"), sym_any<V>("d")),
     H = make(K3, sym_any<V>("e"), sym_any<V>("f"));
  L X = elem("x");
  L Want = H.computeTarget(G.computeTarget(F.computeTarget(X)));
  symrt_check(eq(F.composeWith(G).composeWith(H).computeTarget(X), Want),
              "(f;g);h");
  symrt_check(eq(F.composeWith(G.composeWith(H)).computeTarget(X), Want),
              "f;(g;h)");
}
SYM_GOAL(join) {
  Scope Sc;
  EF F = any("f"), G = any("g");
  L X = elem("x");
  EF J = F.joinWith(G);
  L JV = J.computeTarget(X);
  L Lo = JL::join(F.computeTarget(X), G.computeTarget(X));
  symrt_check(eq(JL::join(JV, Lo), JV), "join is an upper bound");
  symrt_check(eq(G.joinWith(F).computeTarget(X), JV), "join commutes");
  EF Id = F.joinWith(F);
  symrt_check(eq(Id.computeTarget(X), F.computeTarget(X)), "f join f = f");
  EF Tp = AllTop<L>{}, Bt = AllBottom<L>{};
  symrt_check(F.joinWith(Tp) == F, "f join alltop = f");
  symrt_check(Tp.joinWith(F) == F, "alltop join f = f");
  symrt_check(eq(F.joinWith(Bt).computeTarget(X), Bottom{}),
              "f join allbottom = allbottom");
  symrt_check(eq(Bt.joinWith(F).computeTarget(X), Bottom{}),
              "allbottom join f = allbottom");
  symrt_check(!J.isConstant() || eq(J.computeTarget(Top{}), JV),
              "isConstant is truthful after join");
  symrt_check(eq(JL::join(J.joinWith(F).computeTarget(X), JV),
                 J.joinWith(F).computeTarget(X)),
              "joining again only ascends");
}
SYM_GOAL(join3) {
  Scope Sc;
  unsigned K1 = sym_pick<unsigned>("k1", KConst, KLin),
           K2 = sym_pick<unsigned>("k2", KConst, KLin),
           K3 = sym_pick<unsigned>("k3", KConst, KLin);
  EF F = make(K1, sym_any<V>("a"), sym_any<V>("b")),
     G = make(K2, sym_any<V>("c"), sym_any<V>("d")),
     H = make(K3, sym_any<V>("e"), sym_any<V>("f"));
  unsigned Sh = sym_pick<unsigned>("shape", 0, 2);
  EF J = Sh == 0   ? F.joinWith(G).joinWith(H)
         : Sh == 1 ? F.joinWith(G.joinWith(H))
                   : F.composeWith(G).joinWith(H);
  L X = elem("x");
  L Want =
      Sh == 2 ? JL::join(G.computeTarget(F.computeTarget(X)), H.computeTarget(X))
              : JL::join(JL::join(F.computeTarget(X), G.computeTarget(X)),
                         H.computeTarget(X));
  L JV = J.computeTarget(X);
  symrt_check(eq(JL::join(JV, Want), JV), "join of three is an upper bound");
  // joining in an operand that is already below must not move the result
  EF Back = Sh == 2 ? J.joinWith(H) : J.joinWith(G);
  L BV = Back.computeTarget(X);
  symrt_check(eq(JL::join(BV, Want), BV), "re-join stays an upper bound");
}
SYM_GOAL(equality) {
  Scope Sc;
  EF F = any("f"), G = any("g");
  L X = elem("x");
  bool E = F == G;
  symrt_check(!E || eq(F.computeTarget(X), G.computeTarget(X)),
              "equal functions agree");
  symrt_check(E == (G == F), "equality is symmetric");
  symrt_check((F != G) == !E, "!= is the negation of ==");
  EF F2 = F;
  symrt_check(F2 == F, "a copy is equal");
  symrt_check(F.isConstant() == F2.isConstant(), "a copy is alike");
  symrt_check(!(F == nullptr) & F.isValid() & bool(F), "not null");
  symrt_check(!(F < F), "order irreflexive");
  symrt_check(!((F < G) & (G < F)), "order asymmetric");
  symrt_check(!E || (!(F < G) & !(G < F)), "equal functions are unordered");
}
SYM_GOAL(equality_params) {
  // same class: equality is equality of the parameters
  Scope Sc;
  unsigned K = sym_pick<unsigned>("k", KConst, KLin);
  V A = sym_any<V>("a"), B = sym_any<V>("b"), C = sym_any<V>("c"),
    D = sym_any<V>("d");
  EF F = make(K, A, B), G = make(K, C, D);
  bool Want = K == KLin ? (A == C) & (B == D) : A == C;
  symrt_check((F == G) == Want, "equality of parameters decides");
  if (K != KLin)
    symrt_check(!Want || hash_value(F) == hash_value(G),
                "equal inline functions hash alike");
}
// composed and joined functions, however they came about
static EF composite() {
  unsigned K = sym_pick<unsigned>("composite", 0, 4);
  EF A = sym_pickbool("inline") ? make(KAdd, sym_any<V>("a"), 0)
                                : make(KLin, sym_any<V>("a"), 1);
  if (K == 0)
    return A;
  if (K == 1) { // explicit join with a seed value
    L Seed = sym_any<V>("seed");
    if (sym_pickbool("topseed"))
      Seed = Top{};
    using JEF = JoinEdgeFunction<L, 2>;
    if (sym_pickbool("two"))
      return JEF{Seed, {A, make(KConst, sym_any<V>("c"), 0)}};
    return JEF{Seed, {A}};
  }
  EF B = sym_pickbool("const") ? make(KConst, sym_any<V>("b"), 0)
                               : make(KLin, sym_any<V>("b"), 2);
  if (K == 2)
    return A.joinWith(B);
  if (K == 3)
    return A.composeWith(B);
  return A.composeWith(B).joinWith(A);
}
SYM_GOAL(composite_equality) {
  EF F = composite(), G = composite();
  L X = elem("x");
  L FX = F.computeTarget(X), GX = G.computeTarget(X);
  bool E = F == G;
  symrt_check(!E || eq(FX, GX), "equal composite functions agree");
  symrt_check(E == (G == F), "equality of composites is symmetric");
  EF C = F;
  symrt_check(C == F, "a copy of a composite is equal");
  L JV = F.joinWith(G).computeTarget(X);
  symrt_check(eq(JL::join(JV, JL::join(FX, GX)), JV), "join of composites is an upper bound");
  symrt_check(eq(F.composeWith(G).computeTarget(X), G.computeTarget(FX)),
              "composition of composites");
}
// copies, moves, assignments in every order keep each function alive exactly
// as long as someone holds it
static void lifetime(int Steps) {
  {
    Scope Sc;
    { // warm up
      EF F = TheCache->createEdgeFunction(V(3), V(4));
    }
  }
  int D0 = Destroyed, C0 = Created;
  uint64_t L0 = symrt_live();
  {
    Scope Sc;
    EF S[3];
    V Val[3] = {0, 0, 0};
    bool Null[3] = {true, true, true};
    bool Ident[3] = {false, false, false};
    V Ctr = 1;
    S[0] = LinEF{1, Ctr};
    Val[0] = Ctr++, Null[0] = false;
    S[1] = TheCache->createEdgeFunction(V(1), V(7));
    Val[1] = 7, Null[1] = false;
    for (int Step = 0; Step < Steps; ++Step) {
      unsigned Op = sym_pick<unsigned>("op", 0, 6);
      unsigned I = sym_pick<unsigned>("i", 0, 2), J = I;
      if (Op >= 2 && Op <= 4)
        J = sym_pick<unsigned>("j", 0, 2);
      switch (Op) {
      case 0:
        S[I] = LinEF{1, Ctr};
        Val[I] = Ctr++, Null[I] = false, Ident[I] = false;
        break;
      case 1:
        S[I] = TheCache->createEdgeFunction(V(1), V(7));
        Val[I] = 7, Null[I] = false, Ident[I] = false;
        break;
      case 2:
        S[I] = S[J];
        Val[I] = Val[J], Null[I] = Null[J], Ident[I] = Ident[J];
        break;
      case 3:
        if (I != J) {
          S[I] = std::move(S[J]);
          Val[I] = Val[J], Null[I] = Null[J], Ident[I] = Ident[J];
          Null[J] = true;
        }
        break;
      case 4:
        swap(S[I], S[J]);
        std::swap(Val[I], Val[J]), std::swap(Null[I], Null[J]),
            std::swap(Ident[I], Ident[J]);
        break;
      case 5:
        S[I] = nullptr;
        Null[I] = true;
        break;
      default:
        S[I] = EdgeIdentity<L>{};
        Null[I] = false, Ident[I] = true;
      }
      for (int K = 0; K < 3; ++K) {
        symrt_check((S[K] == nullptr) == Null[K], "null state");
        if (!Null[K])
          symrt_check(eq(S[K].computeTarget(L(V(10))),
                         L(V(Ident[K] ? 10 : 11 + Val[K]))),
                      "holds the right function");
        // cached functions are shared
        for (int M = 0; M < K; ++M)
          if (!Null[K] && !Null[M] && S[K].isCached() && S[M].isCached())
            symrt_check(S[K].referenceEquals(S[M]), "cached once");
      }
    }
    for (auto &X : S)
      X = nullptr;
    symrt_check(TheCache->lookup(LinEF{1, 7}) == nullptr,
                "the cache forgets dead functions");
  }
  symrt_check(Created - C0 == Destroyed - D0, "every function destroyed once");
  symrt_check(symrt_live() == L0, "no leak");
}
SYM_GOAL(lifetime2) { lifetime(2); }
SYM_GOAL(lifetime3) { lifetime(3); }
SYM_GOAL(cache) {
  Scope Sc;
  V A = sym_pick<V>("a", 0, 2), B = sym_pick<V>("b", 0, 2);
  V C = sym_pick<V>("c", 0, 2), D = sym_pick<V>("d", 0, 2);
  EF F = TheCache->createEdgeFunction(A, B);
  EF G = TheCache->createEdgeFunction(C, D);
  bool Same = (A == C) & (B == D);
  symrt_check(F.isCached() & G.isCached(), "cached");
  symrt_check(F.referenceEquals(G) == Same, "one object per function");
  symrt_check((F == G) == Same, "equal iff same parameters");
  symrt_check(hash_value(F) == hash_value(EF(G)) || !Same, "hash");
  symrt_check(F.getCacheOrNull<LinEF>() == TheCache, "knows its cache");
  F = nullptr;
  symrt_check((TheCache->lookup(LinEF{A, B}) != nullptr) == Same,
              "stays cached exactly while referenced");
  F = TheCache->createEdgeFunction(A, B);
  L X = elem("x");
  symrt_check(eq(F.computeTarget(X), LinEF(A, B).computeTarget(X)),
              "re-created function is right");
}
// a user domain without a generic join lattice: all-bottom carries its value
SYM_GOAL(binary_domain) {
  using BE = EdgeFunction<BinaryDomain>;
  auto Mk = [](unsigned K) -> BE {
    if (K == 0)
      return EdgeIdentity<BinaryDomain>{};
    if (K == 1)
      return AllTop<BinaryDomain>{};
    return AllBottom<BinaryDomain>{};
  };
  unsigned K = sym_pick<unsigned>("f", 0, 2), M = sym_pick<unsigned>("g", 0, 2);
  BE F = Mk(K), G = Mk(M);
  BinaryDomain X = sym_bool("x") ? BinaryDomain::TOP : BinaryDomain::BOTTOM;
  auto J = [](BinaryDomain A, BinaryDomain B) {
    return (int)A & (int)B ? BinaryDomain::TOP : BinaryDomain::BOTTOM;
  };
  symrt_check(F.joinWith(G).computeTarget(X) ==
                  J(F.computeTarget(X), G.computeTarget(X)),
              "join is pointwise");
  if (K != 1)
    symrt_check(F.composeWith(G).computeTarget(X) ==
                    G.computeTarget(F.computeTarget(X)),
                "composition is pointwise");
  symrt_check((F == G) == (K == M), "equality of the basic functions");
}
