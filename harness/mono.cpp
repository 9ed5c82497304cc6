// The monotone framework: intra-procedural solver against chaotic iteration,
// call-string contexts, and the call-string solver. Facts are 8-bit masks,
// every statement's transfer function v -> (v & A) | B is symbolic.
#include "symrt.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
struct MStmt;
struct MFn;
using NP = const MStmt *;
using FP = const MFn *;
namespace psr {
std::string NToString(NP);
} // namespace psr
std::string to_string(NP); // for is_somehow_printable
#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/ControlFlow/ICFGBase.h"
#include "phasar/ControlFlow/CallGraph.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"
#include "phasar/DataFlow/Mono/InterMonoProblem.h"
#include "phasar/DataFlow/Mono/IntraMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/InterMonoSolver.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/Domain/AnalysisDomain.h"
#include "phasar/Pointer/AliasInfo.h"
#include <fcntl.h>
#include <memory>
#include <unistd.h>
using namespace psr;

struct MStmt {
  unsigned Id;
  FP Fun;
  std::vector<NP> Succs, Preds;
  std::vector<FP> Callees;
  bool Call = false, Exit = false;
};
struct MFn {
  std::string Name;
  std::vector<NP> Stmts;
};
namespace psr {
std::string NToString(NP I) { return std::to_string(I->Id); }
} // namespace psr
// a set of facts as a bit mask; iterates over its single mask
struct Facts {
  uint8_t V = 0;
  bool empty() const { return V == 0; }
  const uint8_t *begin() const { return &V; }
  const uint8_t *end() const { return &V + 1; }
  template <class It> void insert(It A, It B) {
    for (; A != B; ++A)
      V |= *A;
  }
};
struct MDB;
struct MCFG;
namespace psr {
template <> struct ProjectIRDBTraits<MDB> {
  using n_t = NP;
  using f_t = FP;
  using m_t = FP;
  using g_t = FP;
};
template <> struct CFGTraits<MCFG> {
  using n_t = NP;
  using f_t = FP;
};
} // namespace psr
struct MDB : ProjectIRDBBase<MDB> {
  std::vector<std::unique_ptr<MFn>> *Funs = nullptr;
  bool isValidImpl() const noexcept { return true; }
  void dumpImpl() const {}
  FP getFunctionDefinitionImpl(llvm::StringRef Nm) const {
    for (auto &Fn : *Funs)
      if (Fn->Name == Nm)
        return Fn.get();
    return nullptr;
  }
};
struct MCFG : CFGBase<MCFG>, ICFGBase<MCFG> {
  using n_t = NP;
  using f_t = FP;
  std::vector<std::unique_ptr<MStmt>> S;
  std::vector<std::unique_ptr<MFn>> Funs;
  MDB DB;
  CallGraph<NP, FP> CG;
  MFn *fn(const char *Nm) {
    Funs.push_back(std::make_unique<MFn>());
    Funs.back()->Name = Nm;
    DB.Funs = &Funs;
    return Funs.back().get();
  }
  MStmt *add(MFn *Fn) {
    S.push_back(std::make_unique<MStmt>());
    S.back()->Id = S.size() - 1;
    S.back()->Fun = Fn;
    Fn->Stmts.push_back(S.back().get());
    return S.back().get();
  }
  static void edge(MStmt *A, MStmt *B) {
    A->Succs.push_back(B);
    B->Preds.push_back(A);
  }
  void finish() {
    CallGraphBuilder<NP, FP> B;
    B.reserve(Funs.size());
    for (auto &Fn : Funs)
      (void)B.addFunctionVertex(Fn.get());
    for (auto &I : S)
      for (FP C : I->Callees)
        B.addCallEdge(I.get(), C);
    CG = B.consumeCallGraph();
  }
  FP getFunctionOfImpl(NP I) const noexcept { return I->Fun; }
  const std::vector<NP> &getPredsOfImpl(NP I) const { return I->Preds; }
  const std::vector<NP> &getSuccsOfImpl(NP I) const { return I->Succs; }
  std::vector<std::pair<NP, NP>> getAllControlFlowEdgesImpl(FP Fn) const {
    std::vector<std::pair<NP, NP>> R;
    for (NP I : Fn->Stmts)
      for (NP J : I->Succs)
        R.emplace_back(I, J);
    return R;
  }
  const std::vector<NP> &getAllInstructionsOfImpl(FP Fn) const { return Fn->Stmts; }
  std::vector<NP> getStartPointsOfImpl(FP Fn) const { return {Fn->Stmts.front()}; }
  std::vector<NP> getExitPointsOfImpl(FP Fn) const {
    std::vector<NP> R;
    for (NP I : Fn->Stmts)
      if (I->Exit)
        R.push_back(I);
    return R;
  }
  bool isCallSiteImpl(NP I) const noexcept { return I->Call; }
  bool isExitInstImpl(NP I) const noexcept { return I->Exit; }
  bool isStartPointImpl(NP I) const noexcept { return I == I->Fun->Stmts.front(); }
  bool isFieldLoadImpl(NP) const noexcept { return false; }
  bool isFieldStoreImpl(NP) const noexcept { return false; }
  bool isFallThroughSuccessorImpl(NP, NP) const noexcept { return false; }
  // as for LLVM: the target of a jump between basic blocks
  bool isBranchTargetImpl(NP A, NP B) const noexcept { return A->Succs.size() > 1 || B->Preds.size() > 1; }
  bool isHeapAllocatingFunctionImpl(FP) const { return false; }
  bool isSpecialMemberFunctionImpl(FP) const { return false; }
  SpecialMemberFunctionType getSpecialMemberFunctionTypeImpl(FP) const { return SpecialMemberFunctionType::None; }
  std::string getStatementIdImpl(NP I) const { return std::to_string(I->Id); }
  std::string getFunctionNameImpl(FP Fn) const { return Fn->Name; }
  std::string getDemangledFunctionNameImpl(FP Fn) const { return Fn->Name; }
  std::vector<FP> getAllFunctionsImpl() const {
    std::vector<FP> R;
    for (auto &Fn : Funs)
      R.push_back(Fn.get());
    return R;
  }
  FP getFunctionImpl(llvm::StringRef Nm) const { return DB.getFunctionDefinitionImpl(Nm); }
  bool isIndirectFunctionCallImpl(NP) const { return false; }
  bool isVirtualFunctionCallImpl(NP) const { return false; }
  std::vector<NP> allNonCallStartNodesImpl() const { return {}; }
  const CallGraph<NP, FP> &getCallGraphImpl() const noexcept { return CG; }
  std::vector<NP> getCallsFromWithinImpl(FP) const { return {}; }
  const std::vector<NP> &getReturnSitesOfCallAtImpl(NP I) const { return I->Succs; }
};
struct MDom : AnalysisDomain {
  using d_t = uint8_t;
  using n_t = NP;
  using f_t = FP;
  using t_t = FP;
  using v_t = FP;
  using c_t = MCFG;
  using i_t = MCFG;
  using db_t = MDB;
  using mono_container_t = Facts;
};
// v -> (v & A) | B
struct Tf {
  uint8_t A = 0xff, B = 0;
  Facts operator()(const Facts &F) const { return Facts{uint8_t((F.V & A) | B)}; }
};
static Tf anyTf(const char *Nm) {
  Tf T;
  T.A = sym_any<uint8_t>(Nm);
  T.B = sym_any<uint8_t>(Nm);
  return T;
}
struct Key {
  int Kind; // 0 normal 1 call 2 return 3 call-to-return
  NP A;
  FP F;
  NP B;
  bool operator<(const Key &O) const { return std::tie(Kind, A, F, B) < std::tie(O.Kind, O.A, O.F, O.B); }
};
struct MProblem : InterMonoProblem<MDom> {
  std::map<Key, Tf> T;
  std::unordered_map<NP, Facts> SeedMap;
  bool Must = false;
  uint8_t Bits = 0xff;
  MProblem(MCFG &G, std::vector<std::string> EPs)
      : InterMonoProblem<MDom>(&G.DB, nullptr, &G, AliasInfoRef<FP, NP>(), std::move(EPs)) {}
  Facts get(Key K, const Facts &In) {
    auto It = T.find(K);
    if (It == T.end()) {
      static const char *Nm[] = {"normal", "call", "ret", "ctr"};
      It = T.emplace(K, anyTf(Nm[K.Kind])).first;
      It->second.A |= ~Bits; // outside Bits: identity
      It->second.B &= Bits;
    }
    return It->second(In);
  }
  Facts normalFlow(NP I, const Facts &In) override { return get({0, I, nullptr, nullptr}, In); }
  Facts callFlow(NP C, FP F, const Facts &In) override { return get({1, C, F, nullptr}, In); }
  Facts returnFlow(NP C, FP F, NP E, NP R, const Facts &In) override { return get({2, C, F, E}, In); }
  Facts callToRetFlow(NP C, NP R, llvm::ArrayRef<FP>, const Facts &In) override { return get({3, C, nullptr, R}, In); }
  Facts merge(const Facts &L, const Facts &R) override {
    return Facts{Must ? uint8_t(L.V & R.V) : uint8_t(L.V | R.V)};
  }
  bool equal_to(const Facts &L, const Facts &R) override { return L.V == R.V; }
  Facts allTop() override { return Facts{uint8_t(Must ? Bits : 0)}; }
  std::unordered_map<NP, Facts> initialSeeds() override { return SeedMap; }
};
static void quiet() {
  int D = open("/dev/null", O_WRONLY);
  dup2(D, 1);
  close(D);
}

// reference: round-robin iteration; gen/kill functions over a union or
// intersection lattice are at their fixpoint after one round per statement
static void checkIntra(MCFG &G, MProblem &P) {
  std::map<NP, uint8_t> In;
  for (auto &S : G.S)
    In[S.get()] = P.allTop().V;
  auto Seed = [&](NP I) {
    auto It = P.SeedMap.find(I);
    return It == P.SeedMap.end() ? uint8_t(0) : It->second.V;
  };
  for (auto &S : G.S)
    In[S.get()] |= Seed(S.get());
  for (unsigned Rnd = 0; Rnd <= G.S.size(); ++Rnd)
    for (auto &S : G.S) {
      if (S->Preds.empty())
        continue;
      uint8_t V = P.allTop().V;
      for (NP Q : S->Preds) {
        uint8_t O = P.normalFlow(Q, Facts{In[Q]}).V;
        V = P.Must ? V & O : V | O;
      }
      In[S.get()] = V;
    }
  IntraMonoSolver<MDom> Solver(P);
  Solver.solve();
  for (auto &S : G.S) {
    symrt_note("stmt", S->Id);
    symrt_check(Solver.getResultsAt(S.get()).V == P.normalFlow(S.get(), Facts{In[S.get()]}).V,
                "result after every statement is the maximal fixed point");
  }
}
static void intra(unsigned Shape, bool Must, uint8_t Bits) {
  quiet();
  MCFG G;
  MFn *Main = G.fn("main");
  std::vector<MStmt *> s;
  auto mk = [&](unsigned n) {
    for (unsigned I = 0; I < n; ++I)
      s.push_back(G.add(Main));
  };
  switch (Shape) {
  case 0: // straight line
    mk(4);
    for (int I = 0; I < 3; ++I)
      G.edge(s[I], s[I + 1]);
    break;
  case 1: // diamond with one long arm
    mk(5);
    G.edge(s[0], s[1]);
    G.edge(s[0], s[2]);
    G.edge(s[1], s[3]);
    G.edge(s[3], s[4]);
    G.edge(s[2], s[4]);
    break;
  case 2: // loop
    mk(4);
    G.edge(s[0], s[1]);
    G.edge(s[1], s[2]);
    G.edge(s[2], s[1]);
    G.edge(s[1], s[3]);
    break;
  case 3: // nested loops
    mk(5);
    G.edge(s[0], s[1]);
    G.edge(s[1], s[2]);
    G.edge(s[2], s[2]);
    G.edge(s[2], s[3]);
    G.edge(s[3], s[1]);
    G.edge(s[1], s[4]);
    break;
  case 4: // irreducible
    mk(4);
    G.edge(s[0], s[1]);
    G.edge(s[0], s[2]);
    G.edge(s[1], s[2]);
    G.edge(s[2], s[1]);
    G.edge(s[2], s[3]);
    break;
  case 5: // two arms of a switch, one falling through, early exit
    mk(5);
    G.edge(s[0], s[1]);
    G.edge(s[0], s[2]);
    G.edge(s[0], s[3]);
    G.edge(s[1], s[2]);
    G.edge(s[2], s[4]);
    G.edge(s[3], s[4]);
    break;
  case 6: // a single statement
    mk(1);
    break;
  }
  MFn *Other = G.fn("other"); // a second entry point
  MStmt *O1 = G.add(Other), *O2 = G.add(Other);
  G.edge(O1, O2);
  G.finish();
  MProblem P(G, {"main", "other"});
  P.Must = Must;
  P.Bits = Bits;
  if (!Must) {
    P.SeedMap[s[0]] = Facts{uint8_t(sym_any<uint8_t>("seed") & Bits)};
    P.SeedMap[O1] = Facts{uint8_t(sym_any<uint8_t>("seed") & Bits)};
  }
  checkIntra(G, P);
}
SYM_GOAL(intra_line) { intra(0, sym_pickbool("must"), 0x07); }
SYM_GOAL(intra_diamond) { intra(1, sym_pickbool("must"), 0x03); }
SYM_GOAL(intra_loop) { intra(2, sym_pickbool("must"), 0x03); }
SYM_GOAL(intra_nested) { intra(3, sym_pickbool("must"), 0x03); }
SYM_GOAL(intra_irreducible) { intra(4, sym_pickbool("must"), 0x03); }
SYM_GOAL(intra_switch) { intra(5, sym_pickbool("must"), 0x03); }
SYM_GOAL(intra_single) { intra(6, sym_pickbool("must"), 0xff); }

// ------------------------------------------------------------ call strings
template <unsigned K> static void ctx(unsigned Ops, bool Small = false) {
  using C = CallStringCTX<unsigned, K>;
  C X, Y;
  std::vector<unsigned> RX, RY; // the last K call sites
  for (unsigned I = 0; I < Ops; ++I) {
    bool Second = I ? sym_pickbool("which") : false;
    C &Z = Second ? Y : X;
    auto &R = Second ? RY : RX;
    if (sym_pickbool("push")) {
      unsigned V = Small ? sym_pick<unsigned>("site", 1, 2) : sym_any<uint32_t>("site");
      Z.push_back(V);
      R.push_back(V);
      if (R.size() > K)
        R.erase(R.begin());
    } else {
      unsigned Got = Z.pop_back();
      symrt_check(Got == (R.empty() ? 0 : R.back()), "pop yields the most recent call site");
      if (!R.empty())
        R.pop_back();
    }
  }
  symrt_check(X.size() == RX.size() && Y.size() == RY.size() && X.empty() == RX.empty(), "length is bounded by k");
  bool Eq = RX == RY;
  symrt_check((X == Y) == Eq && (X != Y) == !Eq && X.isEqual(Y) == Eq && X.isDifferent(Y) == !Eq, "equality");
  if (Small && Eq)
    symrt_check(std::hash<C>()(X) == std::hash<C>()(Y), "equal contexts have equal hashes");
  C Z(X);
  for (size_t I = RX.size(); I-- > 0;)
    symrt_check(Z.pop_back() == RX[I], "contents, most recent last");
  symrt_check(Z.empty() && X.size() == RX.size(), "copies are independent");
}
SYM_GOAL(ctx1) { ctx<1>(4); }
SYM_GOAL(ctx2) { ctx<2>(5); }
SYM_GOAL(ctx3) { ctx<3>(5); }
SYM_GOAL(ctx_hash) { ctx<2>(5, true); }

// -------------------------------------------------- call-string solver (may)
// the k-limited meet over valid paths, by iteration over (statement, context)
template <unsigned K> struct InterRef {
  MCFG &G;
  MProblem &P;
  using Ctx = std::vector<NP>;
  std::map<std::pair<NP, Ctx>, uint8_t> In;
  bool Grew = true;
  void put(NP I, const Ctx &C, uint8_t V) {
    auto [It, New] = In.emplace(std::make_pair(I, C), 0);
    Grew |= New;
    It->second |= V;
  }
  void run(unsigned Rounds) {
    for (auto &[I, Fs] : P.SeedMap)
      put(I, {}, Fs.V);
    for (unsigned Rnd = 0; Rnd < Rounds; ++Rnd) {
      auto Cur = In;
      for (auto &[Key, V] : Cur) {
        NP I = Key.first;
        const Ctx &C = Key.second;
        if (I->Call) {
          for (FP F : I->Callees) {
            Ctx D = C;
            D.push_back(I);
            if (D.size() > K)
              D.erase(D.begin());
            put(F->Stmts.front(), D, P.callFlow(I, F, Facts{V}).V);
          }
          for (NP R : I->Succs)
            put(R, C, P.callToRetFlow(I, R, {}, Facts{V}).V);
        } else if (I->Exit) {
          if (!C.empty()) {
            Ctx D = C;
            NP Call = D.back();
            D.pop_back();
            for (NP R : Call->Succs)
              put(R, D, P.returnFlow(Call, I->Fun, I, R, Facts{V}).V);
          }
        } else
          for (NP J : I->Succs)
            put(J, C, P.normalFlow(I, Facts{V}).V);
      }
    }
  }
  uint8_t at(NP I) {
    uint8_t R = 0;
    for (auto &[Key, V] : In)
      if (Key.first == I)
        R |= V;
    return R;
  }
};
template <unsigned K> static void inter(unsigned Shape) {
  quiet();
  MCFG G;
  MFn *Main = G.fn("main"), *Foo = G.fn("foo"), *Bar = Shape == 1 ? G.fn("bar") : nullptr;
  MStmt *a = G.add(Main), *c = G.add(Main), *r = G.add(Main), *f = G.add(Foo), *g = G.add(Foo);
  r->Exit = g->Exit = true;
  c->Call = true;
  c->Callees = {Foo};
  G.edge(a, c);
  G.edge(c, r);
  if (Shape == 1) { // foo calls bar
    MStmt *b = G.add(Bar), *x = G.add(Bar);
    x->Exit = true;
    G.edge(b, x);
    f->Call = true;
    f->Callees = {Bar};
  }
  G.edge(f, g);
  G.finish();
  MProblem P(G, {"main"});
  P.Bits = 0x03;
  P.SeedMap[a] = Facts{uint8_t(sym_any<uint8_t>("seed") & 3)};
  InterRef<K> Ref{G, P};
  Ref.run(8);
  InterMonoSolver<MDom, K> Solver(P);
  Solver.solve();
  for (auto &S : G.S) {
    symrt_note("stmt", S->Id);
    uint8_t Got = Solver.getResultsAt(S.get()).V, Want = Ref.at(S.get());
    bool AfterCall = false, Own = false;
    for (NP Q : S->Preds) {
      AfterCall |= Q->Call;
      Own = true;
    }
    symrt_check((Got & ~Want) == 0, "no fact that no valid path justifies");
    if (AfterCall) {
      uint8_t Ctr = 0;
      for (NP Q : S->Preds)
        Ctr |= P.callToRetFlow(Q, S.get(), {}, Facts{Ref.at(Q)}).V;
      symrt_check((Ctr & ~Got) == 0, "facts that bypass the callee reach the return site");
      symrt_check((Want & ~Got) == 0, "facts returned by the callee reach the return site");
    } else
      symrt_check((Want & ~Got) == 0, "facts reach every statement that no call precedes");
  }
}
SYM_GOAL(inter_call) { inter<2>(0); }
SYM_GOAL(inter_chain) { inter<2>(1); }
