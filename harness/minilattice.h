// A bit-mask value lattice (join = or) with distributive transfer functions
// v -> (v & A) | B whose parameters are symbolic. Bit 7 says "reached", so
// top (0) means no path.
#pragma once
#include "minisolver.h"

struct Mask {
  uint8_t V = 0;
  constexpr Mask(uint8_t V = 0) : V(V) {}
  bool operator==(Mask O) const { return V == O.V; }
  bool operator!=(Mask O) const { return V != O.V; }
};
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Mask M) { return OS << unsigned(M.V); }
namespace psr {
template <> struct JoinLatticeTraits<Mask> {
  static constexpr Mask top() { return 0; }
  static constexpr Mask bottom() { return 0xff; }
  static Mask join(Mask L, Mask R) { return uint8_t(L.V | R.V); }
};
} // namespace psr
using MEF = psr::EdgeFunction<Mask>;
struct MaskEF {
  using l_t = Mask;
  uint8_t A, B; // A and B disjoint: equal parameters <=> equal functions
  static MaskEF make(uint8_t A, uint8_t B) { return {uint8_t(A & ~B), B}; }
  Mask computeTarget(Mask S) const { return uint8_t((S.V & A) | B); }
  static MEF compose(psr::EdgeFunctionRef<MaskEF> This, const MEF &Second) {
    if (const auto *O = llvm::dyn_cast<MaskEF>(Second))
      return make(This->A & (O->A | O->B), (This->B & O->A) | O->B);
    return psr::defaultComposeOrNull(This, Second);
  }
  static MEF join(psr::EdgeFunctionRef<MaskEF> This, const MEF &Other) {
    if (const auto *O = llvm::dyn_cast<MaskEF>(Other))
      return make(This->A | O->A, This->B | O->B);
    if (llvm::isa<psr::EdgeIdentity<Mask>>(Other))
      return make(0xff, This->B);
    return psr::defaultJoinOrNull<Mask>(This, Other);
  }
  bool operator==(MaskEF O) const noexcept { return (A == O.A) & (B == O.B); }
};

struct EdgeKey {
  FlowKey K;
  D Src, Dst;
  bool operator<(const EdgeKey &O) const {
    return std::tie(K, Src, Dst) < std::tie(O.K, O.Src, O.Dst);
  }
};
struct EdgeFns {
  unsigned Bits = 2;                  // free value bits
  std::set<FlowKey> Free;             // flow edges with symbolic functions
  std::map<EdgeKey, std::pair<uint8_t, uint8_t>> Known;
  std::pair<uint8_t, uint8_t> get(FlowKey K, D Src, D Dst) {
    if (Dst == 0 || !Free.count(K))
      return {0xff, 0};
    EdgeKey E{K, Src, Dst};
    if (auto It = Known.find(E); It != Known.end())
      return It->second;
    uint8_t M = (1u << Bits) - 1;
    uint8_t A = sym_any<uint8_t>("A"), B = sym_any<uint8_t>("B");
    auto P = std::make_pair(uint8_t((A & M) | 0x80), uint8_t((B & M) | 0x80));
    Known.emplace(E, P);
    return P;
  }
};
using IdeDom = MiniDomain<Mask>;
struct MiniIDE : MiniFlows<psr::IDETabulationProblem<IdeDom>> {
  using ProblemAnalysisDomain = IdeDom;
  using Base = MiniFlows<psr::IDETabulationProblem<IdeDom>>;
  EdgeFns *EFs;
  bool UseIdentity = true;
  MiniIDE(const MiniCFG *G, Flows *Fl, EdgeFns *EFs) : Base(G, Fl), EFs(EFs) {}
  MEF mk(FlowKey K, D Src, D Dst) {
    auto [A, B] = EFs->get(K, Src, Dst);
    if (UseIdentity && (Dst == 0 || !EFs->Free.count(K)))
      return psr::EdgeIdentity<Mask>{};
    return MaskEF::make(A, B);
  }
  MEF getNormalEdgeFunction(N A, D X, N B, D Y) override {
    return mk({Normal, A, B, nullptr, 0}, X, Y);
  }
  MEF getCallEdgeFunction(N C, D X, F Fun, D Y) override { return mk({Call, C, 0, Fun, 0}, X, Y); }
  MEF getReturnEdgeFunction(N C, F Fun, N E, D X, N R, D Y) override {
    return mk({Ret, E, R, Fun, C}, X, Y);
  }
  MEF getCallToRetEdgeFunction(N C, D X, N R, D Y, llvm::ArrayRef<F>) override {
    return mk({CallToRet, C, R, nullptr, 0}, X, Y);
  }
  // per call and return site; the callee does not matter
  MEF getSummaryEdgeFunction(N C, D X, N R, D Y) override {
    return mk({Summary, C, R, nullptr, 0}, X, Y);
  }
};

// join over all valid paths: value iteration over (call string, stmt, fact)
struct RefIDE {
  const MiniCFG &G;
  Flows &Fl;
  EdgeFns &EFs;
  std::set<F> Summarised;
  size_t MaxDepth = 4;
  using Cfg = std::tuple<std::vector<N>, N, D>;
  std::map<Cfg, unsigned> Ids;
  std::vector<Cfg> Cfgs;
  struct Edge {
    unsigned From, To;
    uint8_t A, B;
  };
  std::vector<Edge> Edges;
  std::vector<uint8_t> Val;
  std::vector<unsigned> WL;
  RefIDE(const MiniCFG &G, Flows &Fl, EdgeFns &EFs) : G(G), Fl(Fl), EFs(EFs) {}
  unsigned id(std::vector<N> St, N I, D X) {
    Cfg C(std::move(St), I, X);
    auto [It, New] = Ids.emplace(C, Cfgs.size());
    if (New) {
      Cfgs.push_back(C);
      Val.push_back(0);
      WL.push_back(It->second);
    }
    return It->second;
  }
  void run(const std::map<N, std::map<D, uint8_t>> &Seeds, unsigned Rounds = 5) {
    for (auto &[I, Xs] : Seeds) {
      if (!Xs.count(0))
        Val[id({}, I, 0)] |= 0xff;
      for (auto &[X, V] : Xs) {
        unsigned K = id({}, I, X);
        Val[K] |= V;
      }
    }
    for (size_t P = 0; P < WL.size(); ++P) {
      unsigned Id = WL[P];
      const Cfg Cur = Cfgs[Id];
      const std::vector<N> &St = std::get<0>(Cur);
      const N I = std::get<1>(Cur);
      const D X = std::get<2>(Cur);
      const Stmt &S = G.S[I];
      auto Step = [&](FlowKey K, FlowKey EK, const std::vector<N> &NSt, N To) {
        for (D T = 0; T < Fl.NF; ++T)
          if (Fl.has(K, X, T)) {
            auto [A, B] = EFs.get(EK, X, T);
            Edges.push_back({Id, id(NSt, To, T), A, B});
          }
      };
      if (S.Call) {
        for (F C : S.Callees) {
          if (Summarised.count(C)) {
            for (N R : S.Succs)
              Step({Summary, I, 0, C, 0}, {Summary, I, R, nullptr, 0}, St, R);
            continue;
          }
          if (St.size() < MaxDepth) {
            auto NSt = St;
            NSt.push_back(I);
            for (N P2 : C->Starts)
              Step({Call, I, 0, C, 0}, {Call, I, 0, C, 0}, NSt, P2);
          }
        }
        for (N R : S.Succs)
          Step({CallToRet, I, R, nullptr, 0}, {CallToRet, I, R, nullptr, 0}, St, R);
        continue;
      }
      if (S.Exit && !St.empty()) {
        auto NSt = St;
        N C = NSt.back();
        NSt.pop_back();
        for (N R : G.S[C].Succs)
          Step({Ret, I, R, S.Fun, C}, {Ret, I, R, S.Fun, C}, NSt, R);
      }
      for (N J : S.Succs)
        Step({Normal, I, J, nullptr, 0}, {Normal, I, J, nullptr, 0}, St, J);
    }
    for (unsigned R = 0; R < Rounds; ++R)
      for (auto &E : Edges)
        Val[E.To] |= (Val[E.From] & E.A) | E.B;
    for (auto &E : Edges) {
      uint8_t V = Val[E.To] | (Val[E.From] & E.A) | E.B;
      symrt_check(V == Val[E.To], "the reference solution is a fixpoint");
    }
  }
  bool reached(N I, D X) const {
    for (auto &C : Cfgs)
      if (std::get<1>(C) == I && std::get<2>(C) == X)
        return true;
    return false;
  }
  uint8_t value(N I, D X) const {
    uint8_t R = 0;
    for (unsigned K = 0; K < Cfgs.size(); ++K)
      if (std::get<1>(Cfgs[K]) == I && std::get<2>(Cfgs[K]) == X)
        R |= Val[K];
    return R;
  }
};
