// A tiny analysis domain for the generic IFDS/IDE solver: statements are
// numbers, functions are names, the exploded graph is chosen by the solver
// (Z3) bit by bit on demand.
#pragma once
#include "symrt.h"
#include "llvm/ADT/DenseMapInfo.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdint>
#include <functional>
#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/ControlFlow/CallGraph.h"
#include "phasar/ControlFlow/ICFGBase.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/Domain/AnalysisDomain.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Fn;
struct NLink;
// a statement: a number that knows its function
struct N {
  uint32_t Id = 0;
  constexpr N(uint32_t Id = 0) : Id(Id) {}
  constexpr operator uint32_t() const { return Id; }
  N &operator++() {
    ++Id;
    return *this;
  }
  const N *operator->() const { return this; }
  const Fn *getFunction() const;
};
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const N &I) { return OS << I.Id; }
namespace std {
template <> struct hash<N> {
  size_t operator()(N I) const noexcept { return I.Id; }
};
} // namespace std
namespace llvm {
template <> struct DenseMapInfo<N> {
  static N getEmptyKey() { return N(~0u); }
  static N getTombstoneKey() { return N(~0u - 1); }
  static unsigned getHashValue(N I) { return I.Id * 37u; }
  static bool isEqual(N A, N B) { return A.Id == B.Id; }
};
} // namespace llvm
using D = uint32_t;
struct Fn {
  std::string Name;
  std::vector<N> Stmts;
  std::vector<N> Starts, Exits;
  llvm::StringRef getName() const { return Name; }
};
using F = const Fn *;
inline const Fn *N::getFunction() const {
  static Fn Dummy;
  return &Dummy;
}

struct MiniDB;
struct MiniCFG;
namespace psr {
template <> struct ProjectIRDBTraits<MiniDB> {
  using n_t = N;
  using f_t = F;
  using m_t = F;
  using g_t = F;
};
template <> struct CFGTraits<MiniCFG> {
  using n_t = N;
  using f_t = F;
};
} // namespace psr
struct MiniDB : psr::ProjectIRDBBase<MiniDB> {
  bool isValidImpl() const noexcept { return true; }
  void dumpImpl() const {}
};

struct Stmt {
  F Fun = nullptr;
  std::vector<N> Succs, Preds;
  std::vector<F> Callees;
  bool Call = false, Exit = false;
};

// numbered from 1
struct MiniCFG : psr::CFGBase<MiniCFG>, psr::ICFGBase<MiniCFG> {
  using n_t = N;
  using f_t = F;
  std::vector<Stmt> S{1};
  std::vector<std::unique_ptr<Fn>> Funs;
  psr::CallGraph<N, F> CG;

  Fn *fn(const char *Name) {
    Funs.push_back(std::make_unique<Fn>());
    Funs.back()->Name = Name;
    return Funs.back().get();
  }
  N add(Fn *Fun) {
    S.emplace_back();
    N Id(S.size() - 1);
    S[Id].Fun = Fun;
    if (Fun->Stmts.empty())
      Fun->Starts.push_back(Id);
    Fun->Stmts.push_back(Id);
    return Id;
  }
  void edge(N A, N B) {
    S[A].Succs.push_back(B);
    S[B].Preds.push_back(A);
  }
  void call(N C, std::vector<F> Callees) {
    S[C].Call = true;
    S[C].Callees = std::move(Callees);
  }
  void exit(N E) {
    S[E].Exit = true;
    const_cast<Fn *>(S[E].Fun)->Exits.push_back(E);
  }
  void finish() {
    psr::CallGraphBuilder<N, F> B;
    B.reserve(Funs.size());
    for (auto &Fun : Funs)
      (void)B.addFunctionVertex(Fun.get());
    for (N I = 1; I < S.size(); ++I)
      if (S[I].Call)
        for (F C : S[I].Callees)
          B.addCallEdge(I, C);
    CG = B.consumeCallGraph();
  }

  F getFunctionOfImpl(N I) const noexcept { return S[I].Fun; }
  const std::vector<N> &getPredsOfImpl(N I) const { return S[I].Preds; }
  const std::vector<N> &getSuccsOfImpl(N I) const { return S[I].Succs; }
  std::vector<std::pair<N, N>> getAllControlFlowEdgesImpl(F Fun) const {
    std::vector<std::pair<N, N>> R;
    for (N I : Fun->Stmts)
      for (N J : S[I].Succs)
        R.emplace_back(I, J);
    return R;
  }
  const std::vector<N> &getAllInstructionsOfImpl(F Fun) const { return Fun->Stmts; }
  const std::vector<N> &getStartPointsOfImpl(F Fun) const { return Fun->Starts; }
  const std::vector<N> &getExitPointsOfImpl(F Fun) const { return Fun->Exits; }
  bool isCallSiteImpl(N I) const noexcept { return S[I].Call; }
  bool isExitInstImpl(N I) const noexcept { return S[I].Exit; }
  bool isStartPointImpl(N I) const noexcept {
    for (N P : S[I].Fun->Starts)
      if (P == I)
        return true;
    return false;
  }
  bool isFieldLoadImpl(N) const noexcept { return false; }
  bool isFieldStoreImpl(N) const noexcept { return false; }
  bool isFallThroughSuccessorImpl(N, N) const noexcept { return false; }
  bool isBranchTargetImpl(N, N) const noexcept { return false; }
  bool isHeapAllocatingFunctionImpl(F) const { return false; }
  bool isSpecialMemberFunctionImpl(F) const { return false; }
  psr::SpecialMemberFunctionType getSpecialMemberFunctionTypeImpl(F) const {
    return psr::SpecialMemberFunctionType::None;
  }
  std::string getStatementIdImpl(N I) const { return std::to_string(I); }
  std::string getFunctionNameImpl(F Fun) const { return Fun->Name; }
  std::string getDemangledFunctionNameImpl(F Fun) const { return Fun->Name; }
  std::vector<F> getAllFunctionsImpl() const {
    std::vector<F> R;
    for (auto &Fun : Funs)
      R.push_back(Fun.get());
    return R;
  }
  F getFunctionImpl(llvm::StringRef Name) const {
    for (auto &Fun : Funs)
      if (Fun->Name == Name)
        return Fun.get();
    return nullptr;
  }
  bool isIndirectFunctionCallImpl(N) const { return false; }
  bool isVirtualFunctionCallImpl(N) const { return false; }
  std::vector<N> allNonCallStartNodesImpl() const {
    std::vector<N> R;
    for (N I = 1; I < S.size(); ++I)
      if (!S[I].Call && !isStartPointImpl(I))
        R.push_back(I);
    return R;
  }
  const psr::CallGraph<N, F> &getCallGraphImpl() const noexcept { return CG; }
  std::vector<N> getCallsFromWithinImpl(F Fun) const {
    std::vector<N> R;
    for (N I : Fun->Stmts)
      if (S[I].Call)
        R.push_back(I);
    return R;
  }
  const std::vector<N> &getReturnSitesOfCallAtImpl(N I) const { return S[I].Succs; }
};

// ---- flows ---------------------------------------------------------------
enum FlowKind : unsigned { Normal, Call, Ret, CallToRet, Summary };
struct FlowKey {
  unsigned Kind;
  N A, B;  // Normal/CallToRet/Summary: from, to; Call: call site; Ret: exit, return site
  F Fun;   // Call, Ret, Summary
  N C;     // Ret: call site
  bool operator<(const FlowKey &O) const {
    return std::tie(Kind, A, B, Fun, C) < std::tie(O.Kind, O.A, O.B, O.Fun, O.C);
  }
};

// Exploded-graph edges between facts 0..NF-1 (0 is the zero fact): free ones
// are decided by forking when first asked for.
struct Flows {
  unsigned NF = 2;
  bool Zero = true; // zero is always kept
  bool ZeroGen = true; // may zero generate facts where flows are free?
  std::map<FlowKey, int> Free;              // flows whose bits are free
  std::map<FlowKey, std::vector<std::vector<D>>> Fixed; // explicit ones
  std::map<std::tuple<FlowKey, D, D>, bool> Known;
  bool DefaultKill = false;

  bool has(const FlowKey &K, D Src, D Dst) {
    if (Dst == 0)
      return Src == 0 && Zero;
    if (auto It = Fixed.find(K); It != Fixed.end()) {
      for (D T : It->second[Src])
        if (T == Dst)
          return true;
      return false;
    }
    if (!Free.count(K))
      return DefaultKill ? false : Src == Dst;
    if (Src == 0 && !ZeroGen)
      return false;
    auto Key = std::make_tuple(K, Src, Dst);
    if (auto It = Known.find(Key); It != Known.end())
      return It->second;
    static const char *Names[] = {"normal", "call", "ret", "ctr", "sum"};
    bool B = sym_pickbool(Names[K.Kind]);
    Known.emplace(Key, B);
    return B;
  }
};

template <class L> struct MiniDomain : psr::AnalysisDomain {
  using d_t = D;
  using n_t = N;
  using f_t = F;
  using t_t = F;
  using v_t = F;
  using c_t = MiniCFG;
  using i_t = MiniCFG;
  using db_t = MiniDB;
  using l_t = L;
};

template <class Container> struct MiniFF : psr::FlowFunction<D, Container> {
  Flows *Fl;
  FlowKey K;
  MiniFF(Flows *Fl, FlowKey K) : Fl(Fl), K(K) {}
  Container computeTargets(D Src) override {
    Container R;
    for (D T = 0; T < Fl->NF; ++T)
      if (Fl->has(K, Src, T))
        R.insert(T);
    return R;
  }
};

// the flow-function half of a problem; Base is an IFDS or IDE problem class
template <class Base> struct MiniFlows : Base {
  using FFP = typename Base::FlowFunctionPtrType;
  using Cont = typename Base::container_type;
  const MiniCFG *G;
  Flows *Fl;
  std::set<F> Summarised;
  std::vector<std::pair<F, D>> SideEffects;
  std::map<N, std::map<D, typename Base::l_t>> SeedMap;
  static MiniDB *db() {
    static MiniDB DB;
    return &DB;
  }
  MiniFlows(const MiniCFG *G, Flows *Fl) : Base(db(), {"main"}, D(0)), G(G), Fl(Fl) {}
  FFP mk(FlowKey K) { return std::make_shared<MiniFF<Cont>>(Fl, K); }
  FFP getNormalFlowFunction(N A, N B) override { return mk({Normal, A, B, nullptr, 0}); }
  FFP getCallFlowFunction(N C, F Fun) override { return mk({Call, C, 0, Fun, 0}); }
  FFP getRetFlowFunction(N C, F Fun, N E, N R) override { return mk({Ret, E, R, Fun, C}); }
  FFP getCallToRetFlowFunction(N C, N R, llvm::ArrayRef<F>) override {
    return mk({CallToRet, C, R, nullptr, 0});
  }
  FFP getSummaryFlowFunction(N C, F Fun) override {
    if (Summarised.count(Fun))
      return mk({Summary, C, 0, Fun, 0});
    return nullptr;
  }
  void applyUnbalancedRetFlowFunctionSideEffects(F Fun, N, D Src) override {
    SideEffects.emplace_back(Fun, Src);
  }
  psr::InitialSeeds<N, D, typename Base::l_t> initialSeeds() override {
    return psr::InitialSeeds<N, D, typename Base::l_t>(SeedMap);
  }
};

using IfdsDom = MiniDomain<psr::BinaryDomain>;
struct MiniIFDS : MiniFlows<psr::IFDSTabulationProblem<IfdsDom>> {
  using ProblemAnalysisDomain = IfdsDom;
  using MiniFlows::MiniFlows;
  bool isZeroValue(D X) const noexcept override { return X == 0; }
};

// ---- reference: explore configurations (call string, statement, fact) -----
struct RefIFDS {
  const MiniCFG &G;
  Flows &Fl;
  std::set<F> Summarised;
  size_t MaxDepth;
  bool Unbalanced = false;
  using Cfg = std::tuple<std::vector<N>, N, D>;
  std::set<Cfg> Seen;
  std::vector<Cfg> WL;
  std::set<std::pair<N, D>> Holds;
  RefIFDS(const MiniCFG &G, Flows &Fl, size_t MaxDepth) : G(G), Fl(Fl), MaxDepth(MaxDepth) {}
  void push(std::vector<N> St, N I, D X) {
    Holds.emplace(I, X);
    Cfg C(std::move(St), I, X);
    if (Seen.insert(C).second)
      WL.push_back(std::move(C));
  }
  void run(const std::map<N, std::set<D>> &Seeds) {
    for (auto &[I, Xs] : Seeds) {
      push({}, I, 0);
      for (D X : Xs)
        push({}, I, X);
    }
    while (!WL.empty()) {
      std::vector<N> St;
      N I;
      D X;
      std::tie(St, I, X) = WL.back();
      WL.pop_back();
      const Stmt &S = G.S[I];
      auto Step = [&](FlowKey K, const std::vector<N> &NSt, N To) {
        for (D T = 0; T < Fl.NF; ++T)
          if (Fl.has(K, X, T))
            push(NSt, To, T);
      };
      if (S.Call) {
        for (F C : S.Callees) {
          if (Summarised.count(C)) {
            for (N R : S.Succs)
              Step({Summary, I, 0, C, 0}, St, R);
            continue;
          }
          if (St.size() < MaxDepth) {
            auto NSt = St;
            NSt.push_back(I);
            for (N P : C->Starts)
              Step({Call, I, 0, C, 0}, NSt, P);
          }
        }
        for (N R : S.Succs)
          Step({CallToRet, I, R, nullptr, 0}, St, R);
        continue;
      }
      if (S.Exit) {
        if (!St.empty()) {
          auto NSt = St;
          N C = NSt.back();
          NSt.pop_back();
          for (N R : G.S[C].Succs)
            Step({Ret, I, R, S.Fun, C}, NSt, R);
        } else if (Unbalanced) {
          for (N C = 1; C < G.S.size(); ++C)
            for (F Callee : G.S[C].Callees)
              if (Callee == S.Fun)
                for (N R : G.S[C].Succs)
                  Step({Ret, I, R, S.Fun, C}, {}, R);
        }
      }
      for (N J : S.Succs)
        Step({Normal, I, J, nullptr, 0}, St, J);
    }
  }
};
