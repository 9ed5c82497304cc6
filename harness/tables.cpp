// The tables the IDE solver keeps: jump functions, flow/edge-function cache,
// initial seeds, path edges. Statements, functions and facts are arbitrary
// 32-bit ids (all coincidence patterns), edge functions carry symbolic values.
#include "minilattice.h"
#include "phasar/DataFlow/IfdsIde/InitialSeeds.h"
#include "phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h"
#include "phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h"
#include "phasar/DataFlow/IfdsIde/Solver/PathEdge.h"
#include "llvm/IR/Instruction.h"
using namespace psr;

namespace psr { // only used when logging
__attribute__((weak)) std::string NToString(const llvm::Instruction *) { return ""; }
__attribute__((weak)) std::string DToString(const llvm::Value *) { return ""; }
} // namespace psr

// ---------------------------------------------------------------- jump fns
using JF = JumpFunctions<IdeDom, std::set<D>>;
struct JRef {
  bool Has[2][2][2] = {};
  uint8_t Val[2][2][2] = {};
};
static uint8_t bOf(const MEF &E) {
  const auto *M = llvm::dyn_cast<MaskEF>(E);
  symrt_check(M != nullptr, "stored jump function keeps its type");
  return M->B;
}
static void jcheck(JF &T, const JRef &R) {
  unsigned Total = 0;
  for (unsigned n = 0; n < 2; ++n) {
    N Nn(n + 1);
    for (unsigned s = 0; s < 2; ++s) {
      unsigned Cnt = 0;
      for (unsigned t = 0; t < 2; ++t)
        Cnt += R.Has[s][n][t];
      Total += Cnt;
      auto L = T.forwardLookup(s, Nn);
      symrt_check((L ? L->get().size() : 0) == Cnt, "forward lookup: number of targets");
      if (L)
        for (auto &[Fact, EF] : L->get())
          symrt_check(Fact < 2 && R.Has[s][n][Fact] && bOf(EF) == R.Val[s][n][Fact], "forward lookup entry");
    }
    for (unsigned t = 0; t < 2; ++t) {
      unsigned Cnt = 0;
      for (unsigned s = 0; s < 2; ++s)
        Cnt += R.Has[s][n][t];
      auto L = T.reverseLookup(Nn, t);
      symrt_check((L ? L->get().size() : 0) == Cnt, "reverse lookup: number of sources");
      if (L)
        for (auto &[Fact, EF] : L->get())
          symrt_check(Fact < 2 && R.Has[Fact][n][t] && bOf(EF) == R.Val[Fact][n][t], "reverse lookup entry");
    }
    auto &Tab = T.lookupByTarget(Nn);
    unsigned Cnt = 0;
    for (unsigned s = 0; s < 2; ++s)
      for (unsigned t = 0; t < 2; ++t) {
        Cnt += R.Has[s][n][t];
        symrt_check(Tab.contains(s, t) == R.Has[s][n][t], "lookup by target: membership");
      }
    unsigned Got = 0;
    Tab.foreachCell([&](D S, D X, const MEF &EF) {
      ++Got;
      symrt_check(S < 2 && X < 2 && R.Has[S][n][X] && bOf(EF) == R.Val[S][n][X], "lookup by target entry");
    });
    symrt_check(Got == Cnt, "lookup by target: number of entries");
  }
  unsigned Each = 0;
  T.foreachEdgeFunction([&](const MEF &) { ++Each; });
  symrt_check(Each == Total, "every stored function is visited once");
}
static void jhistory(unsigned Len) {
  JF T;
  JRef R;
  for (unsigned I = 0; I < Len; ++I) {
    unsigned Op = I == 0 ? 0 : sym_pick<unsigned>("op", 0, 5);
    if (Op == 3) {
      T.clear();
      R = {};
    } else if (Op == 4) {
      JF C(T);
      C.addFunction(0, N(1), 0, MaskEF::make(0x80, 0x81)); // a copy is independent
      jcheck(T, R);
    } else if (Op == 5) {
      JF C(std::move(T));
      jcheck(C, R);
      T = std::move(C);
    } else {
      unsigned S = I == 0 ? 0 : sym_pick<unsigned>("src", 0, 1), n = I == 0 ? 0 : sym_pick<unsigned>("node", 0, 1),
               X = sym_pick<unsigned>("dst", 0, 1);
      if (Op == 0) {
        uint8_t V = sym_any<uint8_t>("ef");
        T.addFunction(S, N(n + 1), X, MaskEF::make(0x80, V));
        R.Has[S][n][X] = true;
        R.Val[S][n][X] = V;
      } else if (Op == 1) {
        bool Was = R.Has[S][n][X];
        symrt_check(T.removeFunction(S, N(n + 1), X) == Was, "removal reports whether there was an entry");
        R.Has[S][n][X] = false;
      } else
        T.addFunction(S, N(n + 1), X, AllTop<Mask>{}); // the default: not stored
    }
    jcheck(T, R);
  }
}
SYM_GOAL(jump_functions3) { jhistory(3); }
SYM_GOAL(jump_functions4) { jhistory(4); }

// ------------------------------------------------------------------- cache
// An edge function that remembers which query made it.
struct TagEF {
  using l_t = Mask;
  uint32_t Kind, A, B, C, X, Y, Fun;
  Mask computeTarget(Mask S) const { return S; }
  static MEF compose(EdgeFunctionRef<TagEF>, const MEF &S) { return S; }
  static MEF join(EdgeFunctionRef<TagEF>, const MEF &) { return AllBottom<Mask>{}; }
  bool operator==(const TagEF &O) const noexcept {
    return (Kind == O.Kind) & (A == O.A) & (B == O.B) & (C == O.C) & (X == O.X) & (Y == O.Y) & (Fun == O.Fun);
  }
};
// maps fact d to { hash-like code of (query, d) }: distinguishes all queries
struct TagFF : FlowFunction<D, std::set<D>> {
  uint32_t Code;
  bool KeepZero;
  TagFF(uint32_t Code, bool KeepZero) : Code(Code), KeepZero(KeepZero) {}
  std::set<D> computeTargets(D Src) override {
    std::set<D> R;
    if (KeepZero || Src != 0)
      R.insert(Src + Code);
    return R;
  }
};
struct Query {
  uint32_t Kind, A, B, C, X, Y, Fun;
};
// one concrete code per query of the history
struct CacheProblem : MiniIDE {
  using MiniIDE::MiniIDE;
  std::vector<TagEF> Made;
  std::vector<Query> MadeFF;
  MEF mk(uint32_t K, N A, N B, N C, D X, D Y, F Fun) {
    TagEF T{K, A, B, C, X, Y, uint32_t(reinterpret_cast<uintptr_t>(Fun))};
    Made.push_back(T);
    return T;
  }
  FFP mf(uint32_t K, N A, N B, N C, F Fun) {
    MadeFF.push_back({K, A, B, C, 0, 0, uint32_t(reinterpret_cast<uintptr_t>(Fun))});
    return std::make_shared<TagFF>(16 * MadeFF.size(), true);
  }
  FFP getNormalFlowFunction(N A, N B) override { return mf(0, A, B, 0, nullptr); }
  FFP getCallFlowFunction(N C, F Fun) override { return mf(1, C, 0, 0, Fun); }
  FFP getRetFlowFunction(N C, F Fun, N E, N R) override { return mf(2, C, E, R, Fun); }
  FFP getCallToRetFlowFunction(N C, N R, llvm::ArrayRef<F>) override { return mf(3, C, R, 0, nullptr); }
  FFP getSummaryFlowFunction(N C, F Fun) override { return mf(4, C, 0, 0, Fun); }
  MEF getNormalEdgeFunction(N A, D X, N B, D Y) override { return mk(0, A, B, 0, X, Y, nullptr); }
  MEF getCallEdgeFunction(N C, D X, F Fun, D Y) override { return mk(1, C, 0, 0, X, Y, Fun); }
  MEF getReturnEdgeFunction(N C, F Fun, N E, D X, N R, D Y) override { return mk(2, C, E, R, X, Y, Fun); }
  MEF getCallToRetEdgeFunction(N C, D X, N R, D Y, llvm::ArrayRef<F>) override { return mk(3, C, R, 0, X, Y, nullptr); }
  MEF getSummaryEdgeFunction(N C, D X, N R, D Y) override { return mk(4, C, R, 0, X, Y, nullptr); }
};
using FE = FlowEdgeFunctionCache<IdeDom, std::set<D>>;
static Fn TheFns[2];
static uint32_t fid(F Fun) { return uint32_t(reinterpret_cast<uintptr_t>(Fun)); }

static bool sameQ(const Query &P, const Query &Q) {
  return (P.Kind == Q.Kind) & (P.A == Q.A) & (P.B == Q.B) & (P.C == Q.C) & (P.X == Q.X) & (P.Y == Q.Y) & (P.Fun == Q.Fun);
}
// a statement: any non-zero number
static N anyN(const char *Nm) {
  uint32_t V = sym_any<uint32_t>(Nm);
  symrt_assume(V != 0);
  return N(V);
}
static MEF askEdge(FE &Cache, unsigned Kind, N A, N B, N C, D X, D Y, F Fun) {
  switch (Kind) {
  case 0: return Cache.getNormalEdgeFunction(A, X, B, Y);
  case 1: return Cache.getCallEdgeFunction(A, X, Fun, Y);
  case 2: return Cache.getReturnEdgeFunction(A, Fun, B, X, C, Y);
  case 3: return Cache.getCallToRetEdgeFunction(A, X, B, Y, {});
  default: return Cache.getSummaryEdgeFunction(A, X, B, Y);
  }
}
static void edges(unsigned Kind, unsigned Len, bool Other) {
  MiniCFG G;
  Flows Fl;
  EdgeFns EFs;
  CacheProblem P(&G, &Fl, &EFs);
  FE Cache(P);
  unsigned Distinct = 0;
  std::vector<Query> Hist;
  for (unsigned I = 0; I < Len; ++I) {
    unsigned K = Kind;
    if (Other && I == 1)
      K = sym_pick<unsigned>("kind", 0, 4);
    N A = anyN("A"), B = K == 1 ? N(0) : anyN("B"), C = K == 2 ? anyN("C") : N(0);
    D X = sym_any<uint32_t>("X"), Y = sym_any<uint32_t>("Y");
    F Fun = K == 1 || K == 2 ? &TheFns[sym_pick<unsigned>("fun", 0, I ? 1 : 0)] : nullptr;
    size_t Before = P.Made.size();
    MEF E = askEdge(Cache, K, A, B, C, X, Y, Fun);
    const auto *T = llvm::dyn_cast<TagEF>(E);
    symrt_check(T && *T == (TagEF{K, A, B, C, X, Y, fid(Fun)}), "cached edge function is the one of this query");
    Query Q{K, A, B, C, X, Y, fid(Fun)};
    bool Seen = false;
    for (auto &H : Hist)
      Seen |= sameQ(H, Q);
    symrt_check(P.Made.size() - Before == !Seen, "each edge function is constructed once");
    Distinct += !Seen;
    Hist.push_back(Q);
  }
  unsigned Visited = 0;
  Cache.foreachCachedEdgeFunction([&](const MEF &E, EdgeFunctionKind EK) {
    ++Visited;
    const auto *T = llvm::dyn_cast<TagEF>(E);
    static const EdgeFunctionKind Kinds[] = {EdgeFunctionKind::Normal, EdgeFunctionKind::Call, EdgeFunctionKind::Return,
                                             EdgeFunctionKind::CallToReturn, EdgeFunctionKind::Summary};
    symrt_check(T && EK == Kinds[T->Kind], "visited with its kind");
  });
  symrt_check(Visited == Distinct, "every cached edge function is visited once");
}
SYM_GOAL(edge_normal) { edges(0, 3, false); }
SYM_GOAL(edge_call) { edges(1, 2, false); }
SYM_GOAL(edge_return) { edges(2, 2, false); }
SYM_GOAL(edge_call_to_return) { edges(3, 3, false); }
SYM_GOAL(edge_summary) { edges(4, 2, false); }
SYM_GOAL(edge_mixed) { edges(sym_pick<unsigned>("kind0", 0, 4), 2, true); }

// flow functions, interleaved with edge functions of the same statement pair
SYM_GOAL(flow_functions) {
  MiniCFG G;
  Flows Fl;
  EdgeFns EFs;
  CacheProblem P(&G, &Fl, &EFs);
  bool Auto = sym_pickbool("autoAddZero");
  P.getIFDSIDESolverConfig().setAutoAddZero(Auto);
  FE Cache(P);
  std::vector<Query> Hist;
  unsigned K0 = sym_pick<unsigned>("kind", 0, 3);
  for (unsigned I = 0; I < 2; ++I) {
    unsigned K = I ? sym_pick<unsigned>("kind", 0, 3) : K0;
    N A = anyN("A"), B = K == 1 ? N(0) : anyN("B"), C = K == 2 ? anyN("C") : N(0);
    F Fun = K == 1 || K == 2 ? &TheFns[sym_pick<unsigned>("fun", 0, I)] : nullptr;
    if ((K == 0 || K == 3) && sym_pickbool("edge first"))
      (void)askEdge(Cache, K, A, B, C, 1, 2, Fun);
    auto FF = K == 0   ? Cache.getNormalFlowFunction(A, B)
              : K == 1 ? Cache.getCallFlowFunction(A, Fun)
              : K == 2 ? Cache.getRetFlowFunction(A, Fun, B, C)
                       : Cache.getCallToRetFlowFunction(A, B, {});
    Query Q{K, A, B, C, 0, 0, fid(Fun)};
    unsigned Code = 0;
    for (unsigned J = 0; J < P.MadeFF.size(); ++J)
      if (sameQ(P.MadeFF[J], Q)) {
        symrt_check(Code == 0, "each flow function is constructed once");
        Code = 16 * (J + 1);
      }
    symrt_check(Code != 0 && FF, "the flow function asked for was constructed");
    D S = sym_pick<unsigned>("src", 0, 1);
    std::set<D> R = FF->computeTargets(S), Want{S + Code};
    if (Auto && S == 0)
      Want.insert(0);
    symrt_check(R == Want, "cached flow function is the one of this query, plus zero if configured");
    if (K == 0 || K == 3) {
      MEF E = askEdge(Cache, K, A, B, C, 1, 2, Fun);
      const auto *T = llvm::dyn_cast<TagEF>(E);
      symrt_check(T && *T == (TagEF{K, A, B, C, 1, 2, fid(Fun)}), "edge function next to a cached flow function");
    }
    Hist.push_back(Q);
  }
}
// LLVM-typed statements and facts: keys are compressed to 32 bits
struct LDom : AnalysisDomain {
  using d_t = const llvm::Value *;
  using n_t = const llvm::Instruction *;
  using f_t = F;
  using t_t = F;
  using v_t = const llvm::Value *;
  using c_t = MiniCFG;
  using i_t = MiniCFG;
  using db_t = MiniDB;
  using l_t = Mask;
};
struct LTag {
  using l_t = Mask;
  const void *A, *B, *X, *Y;
  Mask computeTarget(Mask S) const { return S; }
  static MEF compose(EdgeFunctionRef<LTag>, const MEF &S) { return S; }
  static MEF join(EdgeFunctionRef<LTag>, const MEF &) { return AllBottom<Mask>{}; }
  bool operator==(const LTag &O) const noexcept { return A == O.A && B == O.B && X == O.X && Y == O.Y; }
};
struct LProblem : IDETabulationProblem<LDom> {
  using V = const llvm::Value *;
  using I = const llvm::Instruction *;
  LProblem() : IDETabulationProblem<LDom>(MiniIDE::db(), {"main"}, nullptr) {}
  struct FFn : FlowFunction<V> {
    V To;
    FFn(V To) : To(To) {}
    std::set<V> computeTargets(V) override { return {To}; }
  };
  FlowFunctionPtrType getNormalFlowFunction(I A, I B) override {
    return std::make_shared<FFn>(reinterpret_cast<V>(reinterpret_cast<uintptr_t>(A) * 64 + reinterpret_cast<uintptr_t>(B)));
  }
  FlowFunctionPtrType getCallFlowFunction(I, F) override { return nullptr; }
  FlowFunctionPtrType getRetFlowFunction(I, F, I, I) override { return nullptr; }
  FlowFunctionPtrType getCallToRetFlowFunction(I, I, llvm::ArrayRef<F>) override { return nullptr; }
  InitialSeeds<I, V, Mask> initialSeeds() override { return {}; }
  MEF getNormalEdgeFunction(I A, V X, I B, V Y) override { return LTag{A, B, X, Y}; }
  MEF getCallEdgeFunction(I, V, F, V) override { return EdgeIdentity<Mask>{}; }
  MEF getReturnEdgeFunction(I, F, I, V, I, V) override { return EdgeIdentity<Mask>{}; }
  MEF getCallToRetEdgeFunction(I A, V X, I B, V Y, llvm::ArrayRef<F>) override { return LTag{B, A, Y, X}; }
  bool isZeroValue(V X) const noexcept override { return X == nullptr; }
};
SYM_GOAL(llvm_keys) {
  LProblem P;
  P.getIFDSIDESolverConfig().setAutoAddZero(false);
  FlowEdgeFunctionCache<LDom> Cache(P);
  auto pk = [&](const char *Nm) { // an object address; statements may be facts too
    return reinterpret_cast<const llvm::Instruction *>(uintptr_t(64) * (1 + sym_pick<unsigned>(Nm, 0, 2)));
  };
  for (unsigned J = 0; J < 2; ++J) {
    auto A = J ? pk("A") : reinterpret_cast<const llvm::Instruction *>(uintptr_t(64)), B = pk("B"), X = pk("X"), Y = pk("Y");
    // Instruction is-a Value at offset 0
    auto VX = reinterpret_cast<const llvm::Value *>(X), VY = reinterpret_cast<const llvm::Value *>(Y);
    MEF E = Cache.getNormalEdgeFunction(A, VX, B, VY);
    const auto *T = llvm::dyn_cast<LTag>(E);
    symrt_check(T && *T == (LTag{A, B, X, Y}), "edge function of this query (LLVM keys)");
    E = Cache.getCallToRetEdgeFunction(A, VX, B, VY, {});
    T = llvm::dyn_cast<LTag>(E);
    symrt_check(T && *T == (LTag{B, A, Y, X}), "call-to-return edge function of this query (LLVM keys)");
    auto FF = Cache.getNormalFlowFunction(A, B);
    symrt_check(FF->computeTargets(VX) == std::set<const llvm::Value *>{reinterpret_cast<const llvm::Value *>(
                    reinterpret_cast<uintptr_t>(A) * 64 + reinterpret_cast<uintptr_t>(B))},
                "flow function of this query (LLVM keys)");
  }
}
SYM_GOAL(compressor) {
  LLVMMapKeyCompressor C;
  uint32_t Id[5];
  bool Has[5] = {};
  for (unsigned J = 0; J < 4; ++J) {
    unsigned V = sym_pick<unsigned>("v", 0, 4);
    uint32_t I = C.getCompressedID(reinterpret_cast<const llvm::Value *>(uintptr_t(V) * 64));
    symrt_check(I != 0, "an id is never zero");
    if (Has[V])
      symrt_check(I == Id[V], "an id is stable");
    for (unsigned K = 0; K < 5; ++K)
      if (Has[K] && K != V)
        symrt_check(Id[K] != I, "ids are distinct");
    Has[V] = true;
    Id[V] = I;
  }
}

// -------------------------------------------------------------- seeds etc.
SYM_GOAL(initial_seeds) {
  using S = InitialSeeds<uint32_t, uint32_t, Mask>;
  uint32_t n[3], d[3];
  uint8_t v[3];
  S Seeds;
  symrt_check(Seeds.empty() && Seeds.countInitialSeeds() == 0, "no seeds at first");
  for (unsigned I = 0; I < 3; ++I) {
    n[I] = sym_any<uint32_t>("n");
    d[I] = sym_any<uint32_t>("d");
    v[I] = sym_any<uint8_t>("v");
    Seeds.addSeed(n[I], d[I], v[I]);
  }
  uint32_t PN = sym_any<uint32_t>("probe n"), PD = sym_any<uint32_t>("probe d");
  bool HasN = false, Has = false;
  uint8_t Val = 0;
  size_t Tot = 0, AtN = 0;
  for (unsigned I = 0; I < 3; ++I) {
    bool Later = false;
    for (unsigned J = I + 1; J < 3; ++J)
      Later |= (n[J] == n[I]) & (d[J] == d[I]);
    Tot += !Later;
    AtN += !Later & (n[I] == PN);
    HasN |= n[I] == PN;
    bool H = (n[I] == PN) & (d[I] == PD);
    Has |= H;
    Val = H ? v[I] : Val;
  }
  auto Check = [&](const S &Sd) {
    symrt_check(!Sd.empty() && Sd.countInitialSeeds() == Tot, "number of seeds");
    symrt_check(Sd.countInitialSeeds(PN) == AtN, "number of seeds at a statement");
    symrt_check(Sd.containsInitialSeedsFor(PN) == HasN, "statements with seeds");
    auto It = Sd.getSeeds().find(PN);
    symrt_check((It != Sd.getSeeds().end()) == HasN, "seed map");
    if (It != Sd.getSeeds().end()) {
      auto Jt = It->second.find(PD);
      symrt_check((Jt != It->second.end()) == Has, "seed fact");
      if (Jt != It->second.end())
        symrt_check(Jt->second.V == Val, "the last value given to a seed counts");
    }
  };
  Check(Seeds);
  S Copy(Seeds.getSeeds());
  Check(Copy);
}
SYM_GOAL(binary_seeds) {
  using S = InitialSeeds<uint32_t, uint32_t, BinaryDomain>;
  uint32_t n[2] = {sym_any<uint32_t>("n"), sym_any<uint32_t>("n")}, d[2] = {sym_any<uint32_t>("d"), sym_any<uint32_t>("d")};
  S A, B;
  std::map<uint32_t, std::set<uint32_t>> M;
  for (unsigned I = 0; I < 2; ++I) {
    A.addSeed(n[I], d[I]);
    M[n[I]].insert(d[I]);
  }
  B = S(M);
  symrt_check(A.getSeeds() == B.getSeeds(), "seeds built from a map equal seeds added one by one");
  size_t Cnt = 0;
  for (auto &[Nn, Fs] : A.getSeeds())
    for (auto &[X, V] : Fs) {
      ++Cnt;
      symrt_check(V == BinaryDomain::BOTTOM && M.at(Nn).count(X), "binary seeds hold");
    }
  size_t Want = 1 + !((n[0] == n[1]) & (d[0] == d[1]));
  symrt_check(Cnt == Want && A.countInitialSeeds() == Want, "number of binary seeds");
  auto Moved = std::move(A).getSeeds();
  symrt_check(Moved == B.getSeeds(), "seeds moved out");
}
SYM_GOAL(path_edge) {
  uint32_t a = sym_any<uint32_t>("a"), b = sym_any<uint32_t>("b"), c = sym_any<uint32_t>("c");
  PathEdge<N, D> E(a, N(b), c);
  auto [x, y, z] = E.get();
  symrt_check(E.factAtSource() == a && E.getTarget() == N(b) && E.factAtTarget() == c && x == a && uint32_t(y) == b && z == c,
              "a path edge keeps source fact, target and target fact");
  auto [p, q, r] = E.consume();
  symrt_check(p == a && uint32_t(q) == b && r == c, "consumed in the same order");
}
