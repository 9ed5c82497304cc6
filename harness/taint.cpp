// Taint analysis: a leak is reported exactly when tainted data can reach a sink.
#include "minillvm.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/Pointer/AliasInfoTraits.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

// Alias information that is exact for the programs below: a pointer that is
// reloaded from the slot it was stored to is the pointer itself.
struct ExactAA;
namespace psr {
template <> struct AliasInfoTraits<ExactAA> : DefaultAATraits<V, I> {};
} // namespace psr
struct ExactAA : AliasInfoTraits<ExactAA> {
  std::map<V, AliasSetTy *> Sets;
  static V root(V X) {
    X = X->stripPointerCasts();
    auto *L = llvm::dyn_cast<llvm::LoadInst>(X);
    if (!L || !L->getType()->isPointerTy())
      return X;
    V Slot = L->getPointerOperand(), R = nullptr;
    for (auto *U : Slot->users())
      if (auto *S = llvm::dyn_cast<llvm::StoreInst>(U))
        if (S->getPointerOperand() == Slot) {
          V N = root(S->getValueOperand());
          if (R && R != N)
            return X;
          R = N;
        }
    return R ? R : X;
  }
  AliasSetPtrTy getAliasSet(V X, I = nullptr) {
    auto *&S = Sets[X];
    if (!S) {
      S = new AliasSetTy();
      S->insert(X);
      const llvm::Function *F = nullptr;
      if (auto *Ins = llvm::dyn_cast<llvm::Instruction>(X))
        F = Ins->getFunction();
      else if (auto *A = llvm::dyn_cast<llvm::Argument>(X))
        F = A->getParent();
      if (F && X->getType()->isPointerTy()) {
        for (auto &A : F->args())
          if (root(&A) == root(X))
            S->insert(&A);
        for (auto &Y : llvm::instructions(F))
          if (Y.getType()->isPointerTy() && root(&Y) == root(X))
            S->insert(&Y);
      }
    }
    return AliasSetPtrTy(BoxedPtr<AliasSetTy>(&S));
  }
  AliasResult alias(V A, V B, I = nullptr) { return root(A) == root(B) ? AliasResult::MustAlias : AliasResult::NoAlias; }
  AllocationSiteSetPtrTy getReachableAllocationSites(V, bool = false, I = nullptr) { return std::make_unique<AliasSetTy>(); }
  bool isInReachableAllocationSites(V, V, bool = false, I = nullptr) { return false; }
  void mergeWith(const ExactAA &) {}
  void introduceAlias(V, V, I = nullptr, AliasResult = AliasResult::MustAlias) {}
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept { return AliasAnalysisType::Basic; }
  AnalysisProperties getAnalysisProperties() const noexcept { return AnalysisProperties::None; }
  bool isContextSensitive() const noexcept { return false; }
  bool isFieldSensitive() const noexcept { return false; }
  bool isFlowSensitive() const noexcept { return false; }
};

static FunctionData fun(const char *N, TaintCategory Ret, std::vector<uint32_t> Src, std::vector<uint32_t> Snk, std::vector<uint32_t> San) {
  FunctionData D;
  D.Name = N;
  D.ReturnCat = Ret;
  D.SourceValues = std::move(Src);
  D.SinkValues = std::move(Snk);
  D.SanitizerValues = std::move(San);
  return D;
}
static TaintConfigData config() {
  TaintConfigData C;
  C.Functions = {fun("source", TaintCategory::Source, {}, {}, {}), fun("source_p", TaintCategory::None, {0}, {}, {}),
                 fun("sink", TaintCategory::None, {}, {0}, {}), fun("sink_p", TaintCategory::None, {}, {0}, {}),
                 fun("sanitize", TaintCategory::None, {}, {}, {0}), fun("taint_and_clean", TaintCategory::None, {0}, {}, {1}),
                 fun("leak_and_taint", TaintCategory::None, {1}, {0}, {}), fun("leak_and_clean", TaintCategory::None, {}, {0}, {0})};
  return C;
}
static const char *Decls =
    "@g = global i32 0\ndeclare i32 @source()\ndeclare void @source_p(i32*)\ndeclare void @sink(i32)\ndeclare void @sink_p(i32*)\n"
    "declare void @sanitize(i32*)\ndeclare void @taint_and_clean(i32*, i32*)\ndeclare void @leak_and_taint(i32*, i32*)\ndeclare void @leak_and_clean(i32*)\n"
    "declare i1 @cond()\ndeclare void @ext(i32*)\n@fp = global i32 (i32)* @id\n@may = global void (i32*)* @ext\n@must = global void (i32*)* @sanitize\n"
    "define void @setg(i32 %x) {\n  store i32 %x, i32* @g\n  ret void\n}\ndefine i32 @getg() {\n  %1 = load i32, i32* @g\n  ret i32 %1\n}\n"
    "define void @clearg() {\n  store i32 0, i32* @g\n  ret void\n}\n";
// callees; as clang writes them without and with optimisation
static const char *Callees0 =
    "define i32 @id(i32 %x) {\n  %s = alloca i32\n  store i32 %x, i32* %s\n  %1 = load i32, i32* %s\n  ret i32 %1\n}\n"
    "define i32 @zero(i32 %x) {\n  %s = alloca i32\n  store i32 %x, i32* %s\n  ret i32 0\n}\n"
    "define void @set(i32* %p, i32 %x) {\n  %s = alloca i32*\n  %t = alloca i32\n  store i32* %p, i32** %s\n  store i32 %x, i32* %t\n"
    "  %1 = load i32, i32* %t\n  %2 = load i32*, i32** %s\n  store i32 %1, i32* %2\n  ret void\n}\n"
    "define i32 @get(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %1 = load i32*, i32** %s\n  %2 = load i32, i32* %1\n  ret i32 %2\n}\n"
    "define void @noop(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  ret void\n}\n"
    "define void @clear(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %1 = load i32*, i32** %s\n  store i32 0, i32* %1\n  ret void\n}\n"
    "define void @copy(i32* %p, i32* %q) {\n  %s = alloca i32*\n  %t = alloca i32*\n  store i32* %p, i32** %s\n  store i32* %q, i32** %t\n"
    "  %1 = load i32*, i32** %t\n  %2 = load i32, i32* %1\n  %3 = load i32*, i32** %s\n  store i32 %2, i32* %3\n  ret void\n}\n"
    "define void @rec(i32* %p, i32 %x) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %c = call i1 @cond()\n  br i1 %c, label %T, label %E\n"
    "T:\n  %1 = load i32*, i32** %s\n  call void @rec(i32* %1, i32 %x)\n  br label %X\nE:\n  %2 = load i32*, i32** %s\n  store i32 %x, i32* %2\n  br label %X\nX:\n  ret void\n}\n"
    "define void @relay(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %1 = load i32*, i32** %s\n  call void @source_p(i32* %1)\n  ret void\n}\n";
static const char *Callees1 =
    "define i32 @id(i32 %x) {\n  ret i32 %x\n}\ndefine i32 @zero(i32 %x) {\n  ret i32 0\n}\n"
    "define void @set(i32* %p, i32 %x) {\n  store i32 %x, i32* %p\n  ret void\n}\n"
    "define i32 @get(i32* %p) {\n  %1 = load i32, i32* %p\n  ret i32 %1\n}\n"
    "define void @noop(i32* %p) {\n  ret void\n}\ndefine void @clear(i32* %p) {\n  store i32 0, i32* %p\n  ret void\n}\n"
    "define void @copy(i32* %p, i32* %q) {\n  %1 = load i32, i32* %q\n  store i32 %1, i32* %p\n  ret void\n}\n"
    "define void @rec(i32* %p, i32 %x) {\n  %c = call i1 @cond()\n  br i1 %c, label %T, label %E\nT:\n  call void @rec(i32* %p, i32 %x)\n  br label %X\nE:\n"
    "  store i32 %x, i32* %p\n  br label %X\nX:\n  ret void\n}\n"
    "define void @relay(i32* %p) {\n  call void @source_p(i32* %p)\n  ret void\n}\n";

enum Op { Src, SrcP, Zero, Copy, CopyCast, Id, ZeroF, Set, Get, Noop, Clear, CopyP, Rec, Relay, San, ToG, FromG, TaintClean, LeakTaint, LeakClean,
          SetG, GetG, ClearG, Ind, IndMaySan, IndSan, NumOps };
struct St {
  unsigned Op, X, Y;
};
// a state is a set of tainted cells: bit 0 a, 1 b, 2 g
using States = std::set<unsigned>;
struct Ref {
  std::set<unsigned> Leaks; // statements that leak
  unsigned apply(St S, unsigned No, unsigned T) {
    auto Has = [&](unsigned K) { return T >> K & 1; };
    auto Put = [&](unsigned K, unsigned B) { return (T & ~(1u << K)) | (B << K); };
    switch (S.Op) {
    case Src: case SrcP: case Relay: return Put(S.X, 1);
    case Zero: case ZeroF: case Clear: case San: return Put(S.X, 0);
    case Copy: case CopyCast: case Id: case Set: case Get: case CopyP: case Rec: return Put(S.X, Has(S.Y));
    case Noop: return T;
    case ToG: return Put(2, Has(S.Y));
    case FromG: return Put(S.X, Has(2));
    case TaintClean: T = Put(S.Y, 0); return Put(S.X, 1);
    case LeakTaint: if (Has(S.Y)) Leaks.insert(No); return Put(S.X, 1);
    case LeakClean: case IndSan: if (Has(S.X)) Leaks.insert(No); return Put(S.X, 0);
    case SetG: return Put(2, Has(S.Y));
    case GetG: return Put(S.X, Has(2));
    case ClearG: return Put(2, 0);
    case Ind: return Put(S.X, Has(S.Y));
    case IndMaySan: return T;
    }
    abort();
  }
  States all(St S, unsigned No, const States &In) {
    States R;
    for (unsigned T : In)
      R.insert(apply(S, No, T));
    if (S.Op == Ind || S.Op == IndMaySan) // the other callee
      for (unsigned T : In)
        R.insert(T & ~(1u << S.X));
    return R;
  }
};
static unsigned Tmp;
static std::string text(St S) {
  static const char *Var[] = {"%a", "%b"};
  std::string X = Var[S.X], Y = Var[S.Y], T = "%t" + std::to_string(Tmp++), U = "%t" + std::to_string(Tmp++), W = "%t" + std::to_string(Tmp++);
  auto Load = "  " + T + " = load i32, i32* " + Y + "\n";
  switch (S.Op) {
  case Src: return "  " + T + " = call i32 @source()\n  store i32 " + T + ", i32* " + X + "\n";
  case SrcP: return "  call void @source_p(i32* " + X + ")\n";
  case Relay: return "  call void @relay(i32* " + X + ")\n";
  case Zero: return "  store i32 0, i32* " + X + "\n";
  case ZeroF: return Load + "  " + U + " = call i32 @zero(i32 " + T + ")\n  store i32 " + U + ", i32* " + X + "\n";
  case Clear: return "  call void @clear(i32* " + X + ")\n";
  case San: return "  call void @sanitize(i32* " + X + ")\n";
  case Copy: return Load + "  store i32 " + T + ", i32* " + X + "\n";
  case CopyCast: return Load + "  " + U + " = sext i32 " + T + " to i64\n  " + W + " = trunc i64 " + U + " to i32\n  store i32 " + W + ", i32* " + X + "\n";
  case Id: return Load + "  " + U + " = call i32 @id(i32 " + T + ")\n  store i32 " + U + ", i32* " + X + "\n";
  case Set: return Load + "  call void @set(i32* " + X + ", i32 " + T + ")\n";
  case Get: return "  " + T + " = call i32 @get(i32* " + Y + ")\n  store i32 " + T + ", i32* " + X + "\n";
  case CopyP: return "  call void @copy(i32* " + X + ", i32* " + Y + ")\n";
  case Rec: return Load + "  call void @rec(i32* " + X + ", i32 " + T + ")\n";
  case Noop: return "  call void @noop(i32* " + X + ")\n";
  case ToG: return Load + "  store i32 " + T + ", i32* @g\n";
  case FromG: return "  " + T + " = load i32, i32* @g\n  store i32 " + T + ", i32* " + X + "\n";
  case TaintClean: return "  call void @taint_and_clean(i32* " + X + ", i32* " + Y + ")\n";
  case LeakTaint: return "  call void @leak_and_taint(i32* " + Y + ", i32* " + X + ")\n";
  case LeakClean: return "  call void @leak_and_clean(i32* " + X + ")\n";
  case SetG: return Load + "  call void @setg(i32 " + T + ")\n";
  case GetG: return "  " + T + " = call i32 @getg()\n  store i32 " + T + ", i32* " + X + "\n";
  case ClearG: return "  call void @clearg()\n";
  case Ind: return Load + "  " + W + " = load i32 (i32)*, i32 (i32)** @fp\n  " + U + " = call i32 " + W + "(i32 " + T + ")\n  store i32 " + U + ", i32* " + X + "\n";
  case IndMaySan: return "  " + W + " = load void (i32*)*, void (i32*)** @may\n  call void " + W + "(i32* " + X + ")\n";
  case IndSan: return "  " + W + " = load void (i32*)*, void (i32*)** @must\n  call void " + W + "(i32* " + X + ")\n";
  }
  abort();
}
static bool binary(unsigned Op) {
  switch (Op) {
  case Copy: case CopyCast: case Id: case Set: case Get: case CopyP: case Rec: case ZeroF: case TaintClean: case LeakTaint: case Ind: return true;
  }
  return false;
}
static St pick(unsigned Lo, unsigned Hi) {
  St S{};
  S.Op = sym_pick<unsigned>("statement", Lo, Hi);
  S.X = S.Op == ClearG ? 0 : sym_pick<unsigned>("var", 0, 1);
  S.Y = 1 - S.X;
  return S;
}

struct Taint {
  ml::Prog P;
  LLVMProjectIRDB DB;
  LLVMBasedICFG ICF;
  LLVMTaintConfig TC;
  LLVMAliasSet AS;
  ExactAA EA;
  IFDSTaintAnalysis A;
  IFDSSolver<LLVMIFDSAnalysisDomainDefault> S;
  static CallGraph<I, const llvm::Function *> graph(llvm::Module &M) {
    CallGraphBuilder<I, const llvm::Function *> B;
    B.reserve(M.size());
    for (auto &F : M) {
      (void)B.addFunctionVertex(&F);
      for (auto &X : llvm::instructions(F))
        if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&X))
          if (auto *C = CB->getCalledFunction()) {
            B.addCallEdge(CB, C);
          } else if (auto *L = llvm::dyn_cast<llvm::LoadInst>(CB->getCalledOperand())) {
            std::string N = L->getPointerOperand()->getName().str();
            B.addCallEdge(CB, M.getFunction(N == "fp" ? "id" : "sanitize"));
            B.addCallEdge(CB, M.getFunction(N == "fp" ? "zero" : N == "may" ? "ext" : "leak_and_clean"));
          }
    }
    return B.consumeCallGraph();
  }
  Taint(const std::string &T, bool Exact, const TaintConfigData &C, bool MainArgs = false)
      : P(T), DB(P.M.get(), true), ICF(graph(*P.M), &DB), TC(DB, C), AS(&DB, true),
        A(&DB, Exact ? LLVMAliasInfoRef(&EA) : LLVMAliasInfoRef(&AS), &TC, {"main"}, MainArgs), S(A, &ICF) {
    S.solve();
  }
  static std::set<V> callback(const llvm::Instruction *X, std::vector<std::pair<const char *, int>> What) {
    std::set<V> R;
    if (auto *CB = llvm::dyn_cast<llvm::CallBase>(X))
      if (auto *C = CB->getCalledFunction())
        for (auto &[N, K] : What)
          if (C->getName() == N)
            R.insert(K < 0 ? (V)CB : CB->getArgOperand(K));
    return R;
  }
  // the configuration above, as callbacks
  Taint(const std::string &T)
      : P(T), DB(P.M.get(), true), ICF(graph(*P.M), &DB),
        TC([](I X) { return callback(X, {{"source", -1}, {"source_p", 0}, {"taint_and_clean", 0}, {"leak_and_taint", 1}}); },
           [](I X) { return callback(X, {{"sink", 0}, {"sink_p", 0}, {"leak_and_taint", 0}, {"leak_and_clean", 0}}); },
           [](I X) { return callback(X, {{"sanitize", 0}, {"taint_and_clean", 1}, {"leak_and_clean", 0}}); }),
        AS(&DB, true), A(&DB, LLVMAliasInfoRef(&EA), &TC, {"main"}, false), S(A, &ICF) {
    S.solve();
  }
  // the calls marked with !leak !{i32 N}
  std::map<unsigned, I> marked() {
    std::map<unsigned, I> R;
    for (auto &X : llvm::instructions(P.fn("main")))
      if (auto *M = X.getMetadata("leak"))
        R[llvm::cast<llvm::ConstantInt>(llvm::cast<llvm::ConstantAsMetadata>(M->getOperand(0))->getValue())->getZExtValue()] = &X;
    return R;
  }
};
static std::string mark(std::string S, unsigned Id) {
  // the last call in S
  auto P = S.rfind("call ");
  auto E = S.find('\n', P);
  return S.substr(0, E) + ", !leak !" + std::to_string(Id) + S.substr(E);
}
static std::string observe(unsigned First) {
  return mark("  %o0 = load i32, i32* %a\n  call void @sink(i32 %o0)\n", First) + mark("  call void @sink_p(i32* %a)\n", First + 1) +
         mark("  %o1 = load i32, i32* %b\n  call void @sink(i32 %o1)\n", First + 2) + mark("  call void @sink_p(i32* %b)\n", First + 3);
}
static std::string metas(unsigned N) {
  std::string S;
  for (unsigned K = 0; K < N; ++K)
    S += "!" + std::to_string(K) + " = !{i32 " + std::to_string(K) + "}\n";
  return S;
}
static void compare(Taint &T, const std::set<unsigned> &Want, bool Exact) {
  auto M = T.marked();
  for (auto &[Id, X] : M) {
    auto It = T.A.Leaks.find(X);
    bool Got = It != T.A.Leaks.end() && !It->second.empty();
    symrt_note("call", Id);
    if (Want.count(Id)) {
      symrt_check(Got, "a leak that can happen is reported");
      symrt_cover("leak");
    } else if (Exact) {
      symrt_check(!Got, "a leak that cannot happen is not reported");
      symrt_cover("no leak");
    }
    if (Got)
      for (V F : It->second) {
        bool IsArg = false;
        for (auto &A : llvm::cast<llvm::CallBase>(X)->args())
          IsArg |= A.get() == F;
        symrt_check(IsArg, "what leaks is an argument of the sink");
      }
  }
}
enum Shape { Straight, Branch, Loop };
static void program(std::vector<St> S, unsigned Sh, bool Opt, bool Exact, bool Callbacks = false) {
  Tmp = 0;
  // calls do not remove the taint of globals, and
  // a write through a reloaded pointer does not remove the taint of its aliases
  for (auto X : S) {
    Exact &= X.Op != SetG && X.Op != ClearG;
    if (!Opt)
      Exact &= X.Op != Clear && X.Op != Set && X.Op != CopyP && X.Op != Rec;
  }
  std::string B = "define i32 @main() {\n  %a = alloca i32\n  %b = alloca i32\n";
  Ref R;
  States Now{0};
  unsigned N = S.size();
  auto Do = [&](unsigned K) { return S[K].Op == LeakTaint || S[K].Op == LeakClean || S[K].Op == IndSan ? mark(text(S[K]), K) : text(S[K]); };
  // the last statement but one is conditional, or all but the last are repeated
  if (Sh == Straight) {
    for (unsigned K = 0; K < N; ++K) {
      B += Do(K);
      Now = R.all(S[K], K, Now);
    }
  } else if (Sh == Branch) {
    for (unsigned K = 0; K < N; ++K) {
      if (K == N - 2)
        B += "  %c = call i1 @cond()\n  br i1 %c, label %T, label %J\nT:\n";
      B += Do(K);
      auto Next = R.all(S[K], K, Now);
      if (K == N - 2) {
        B += "  br label %J\nJ:\n";
        Next.insert(Now.begin(), Now.end());
      }
      Now = Next;
    }
  } else {
    B += "  br label %L\nL:\n";
    for (unsigned K = 0; K + 1 < N; ++K)
      B += Do(K);
    B += "  %c = call i1 @cond()\n  br i1 %c, label %L, label %X\nX:\n" + Do(N - 1);
    States Out, Head = Now;
    for (;;) {
      auto In = Head;
      for (unsigned K = 0; K + 1 < N; ++K)
        In = R.all(S[K], K, In);
      auto Old = Head.size() + Out.size();
      Head.insert(In.begin(), In.end());
      Out.insert(In.begin(), In.end());
      if (Head.size() + Out.size() == Old)
        break;
    }
    Now = R.all(S[N - 1], N - 1, Out);
  }
  for (unsigned T : Now)
    for (unsigned K = 0; K < 2; ++K)
      if (T >> K & 1) {
        R.Leaks.insert(N + 2 * K);
        R.Leaks.insert(N + 2 * K + 1);
      }
  B += observe(N) + "  ret i32 0\n}\n";
  std::string Text = std::string(Decls) + (Opt ? Callees1 : Callees0) + B + metas(N + 4);
  if (Callbacks) {
    Taint T(Text);
    compare(T, R.Leaks, Exact);
  } else {
    Taint T(Text, Exact, config());
    compare(T, R.Leaks, Exact);
  }
}
static bool style() { return sym_pickbool("optimised"); }
SYM_GOAL(two_statements) { program({pick(0, NumOps - 1), pick(0, NumOps - 1)}, sym_pick<unsigned>("shape", 0, 2), style(), true); }
SYM_GOAL(after_taint) {
  St F{sym_pickbool("by pointer") ? SrcP : Src, 0, 1};
  program({F, pick(0, NumOps - 1), pick(Zero, IndSan)}, sym_pick<unsigned>("shape", 1, 2), true, true);
}
SYM_GOAL(real_aliases) {
  St F{sym_pickbool("by pointer") ? SrcP : Src, 0, 1};
  program({F, pick(0, NumOps - 1)}, sym_pick<unsigned>("shape", 0, 2), style(), false);
}

SYM_GOAL(callbacks) {
  St F{sym_pickbool("by pointer") ? SrcP : Src, 0, 1};
  program({F, pick(0, ClearG)}, sym_pick<unsigned>("shape", 0, 2), true, true, true);
}
// a body of main, whether its sinks 0, 1, .. leak, and more functions
static void expect(const std::string &Body, std::vector<int> Leak, bool Exact, const std::string &More = "", bool MainArgs = false) {
  Taint T(std::string(Decls) + Callees1 + More + "define i32 @main(i32 %argc, i8** %argv) {\n" + Body + "  ret i32 0\n}\n" + metas(4), Exact, config(), MainArgs);
  auto M = T.marked();
  for (unsigned K = 0; K < Leak.size(); ++K) {
    symrt_note("call", K);
    auto It = T.A.Leaks.find(M.at(K));
    bool Got = It != T.A.Leaks.end() && !It->second.empty();
    if (Leak[K])
      symrt_check(Got, "a leak that can happen is reported");
    else if (Exact)
      symrt_check(!Got, "a leak that cannot happen is not reported");
    symrt_cover(Leak[K] ? "leak" : "no leak");
  }
}
static std::string sink(const std::string &X, unsigned No) { return "  call void @sink(i32 " + X + "), !leak !" + std::to_string(No) + "\n"; }
SYM_GOAL(main_arguments) {
  bool Args = sym_pickbool("arguments are tainted"), Cast = sym_pickbool("cast"), Branch = sym_pickbool("branch");
  std::string B;
  if (Branch)
    B += "  %c = call i1 @cond()\n  br i1 %c, label %T, label %J\nT:\n  br label %J\nJ:\n";
  B += "  %p = load i8*, i8** %argv\n  %v = load i8, i8* %p\n  %w = zext i8 %v to i32\n";
  B += Cast ? "  %q = bitcast i8** %argv to i32*\n  %u = load i32, i32* %q\n" + sink("%u", 0) : sink("%argc", 0);
  B += sink("%w", 1) + sink("7", 2);
  expect(B, {Args, Args, 0}, true, "", Args);
}
// structures, by memory, by value, and returned through a hidden pointer
SYM_GOAL(structures) {
  bool Tainted = sym_pickbool("tainted");
  unsigned How = sym_pick<unsigned>("how", 0, 7), F = sym_pick<unsigned>("field", 0, 1);
  std::string Fs = std::to_string(F), X = Tainted ? "  %x = call i32 @source()\n" : "  %x = add i32 0, 5\n";
  std::string More = "%S = type { i32, i32 }\n"
                     "define void @mk(%S* sret(%S) %r, i32 %x) {\n  %p = getelementptr %S, %S* %r, i32 0, i32 0\n  store i32 %x, i32* %p\n  ret void\n}\n"
                     "define void @mk0(%S* sret(%S) %r, i32 %x) {\n  %p = getelementptr %S, %S* %r, i32 0, i32 0\n  store i32 0, i32* %p\n  ret void\n}\n"
                     "define %S @val(i32 %x) {\n  %a = insertvalue %S undef, i32 %x, " + Fs + "\n  ret %S %a\n}\n"
                     "define i32 @fld(%S* %s) {\n  %p = getelementptr %S, %S* %s, i32 0, i32 " + Fs + "\n  %v = load i32, i32* %p\n  ret i32 %v\n}\n"
                     "declare void @fill(%S* sret(%S))\n";
  std::string S = "  %s = alloca %S\n", P = "  %p = getelementptr %S, %S* %s, i32 0, i32 " + Fs + "\n";
  std::string Q = "  %q = getelementptr %S, %S* %s, i32 0, i32 " + Fs + "\n  %v = load i32, i32* %q\n";
  switch (How) {
  case 0: return expect(X + S + P + "  store i32 %x, i32* %p\n  %v = load i32, i32* %p\n" + sink("%v", 0), {Tainted}, true, More);
  case 1: return expect(X + S + P + "  store i32 %x, i32* %p\n" + Q + sink("%v", 0), {Tainted}, false, More);
  case 2: return expect(X + S + "  call void @mk(%S* sret(%S) %s, i32 %x)\n  %q = getelementptr %S, %S* %s, i32 0, i32 0\n  %v = load i32, i32* %q\n" + sink("%v", 0), {Tainted}, false, More);
  case 3: return expect(X + "  %a = insertvalue %S undef, i32 %x, " + Fs + "\n  %b = insertvalue %S %a, i32 1, " + std::to_string(1 - F) + "\n  %v = extractvalue %S %b, " + Fs + "\n" + sink("%v", 0), {Tainted}, true, More);
  case 4: return expect(X + "  %a = call %S @val(i32 %x)\n  %v = extractvalue %S %a, " + Fs + "\n" + sink("%v", 0), {Tainted}, true, More);
  case 5: return expect(X + S + "  %d = bitcast %S* %s to i32*\n  store i32 %x, i32* %d\n  %q = getelementptr %S, %S* %s, i32 0, i32 0\n  %v = load i32, i32* %q\n" + sink("%v", 0), {Tainted}, false, More);
  case 6: return expect(X + S + P + "  store i32 %x, i32* %p\n  %v = call i32 @fld(%S* %s)\n" + sink("%v", 0), {Tainted}, false, More);
  case 7: return expect(X + "  %s = alloca %S\n  %c = alloca %S\n  call void @mk0(%S* sret(%S) %s, i32 %x)\n  %b = insertvalue %S undef, i32 %x, 0\n"
                            "  store %S %b, %S* %c\n  %l = load %S, %S* %c\n  %v = extractvalue %S %l, 0\n  %q = getelementptr %S, %S* %s, i32 0, i32 0\n  %w = load i32, i32* %q\n" +
                            sink("%v", 0) + sink("%w", 1), {Tainted, 0}, true, More);
  }
}
// pointers that are stored in memory, with the library's own alias sets
SYM_GOAL(pointers) {
  unsigned How = sym_pick<unsigned>("how", 0, 5);
  bool A = sym_pickbool("through the pointer");
  std::string X = "  %x = call i32 @source()\n  %a = alloca i32\n  %b = alloca i32\n  %pp = alloca i32*\n";
  auto W = [&](const std::string &Ptr) { return A ? "  store i32 %x, i32* " + Ptr + "\n  %v = load i32, i32* %a\n" : "  store i32 %x, i32* %a\n  %v = load i32, i32* " + Ptr + "\n"; };
  std::string More = "define void @put(i32** %pp, i32* %p) {\n  store i32* %p, i32** %pp\n  ret void\n}\n"
                     "define i32* @same(i32* %p) {\n  ret i32* %p\n}\n@gp = global i32* null\n";
  switch (How) {
  case 0: X += "  store i32* %a, i32** %pp\n  %q = load i32*, i32** %pp\n" + W("%q"); break;
  case 1: X += "  %c = call i1 @cond()\n  %q = select i1 %c, i32* %a, i32* %b\n" + W("%q"); break;
  case 2: X += "  %c = call i1 @cond()\n  br i1 %c, label %T, label %J\nT:\n  br label %J\nJ:\n  %q = phi i32* [ %a, %T ], [ %b, %0 ]\n" + W("%q"); break;
  case 3: X += "  call void @put(i32** %pp, i32* %a)\n  %q = load i32*, i32** %pp\n" + W("%q"); break;
  case 4: X += "  %q = call i32* @same(i32* %a)\n" + W("%q"); break;
  case 5: X += "  store i32* %a, i32** @gp\n  %q = load i32*, i32** @gp\n" + W("%q"); break;
  }
  expect(X + sink("%v", 0), {1}, false, More);
}
// functions of the C library
SYM_GOAL(library) {
  unsigned How = sym_pick<unsigned>("function", 0, 9);
  bool Tainted = sym_pickbool("tainted");
  std::string X = std::string("  %a = alloca i32\n  %d = alloca i8\n  %s = alloca i8\n") + (Tainted ? "  %x = call i32 @source()\n" : "  %x = call i32 @zero(i32 1)\n") +
                  "  %y = trunc i32 %x to i8\n  store i8 0, i8* %d\n  store i8 %y, i8* %s\n";
  std::string More = "declare i8* @memcpy(i8*, i8*, i64)\ndeclare i8* @strcpy(i8*, i8*)\ndeclare i32 @abs(i32)\ndeclare i8* @strdup(i8*)\n"
                     "declare i32 @sprintf(i8*, i8*, ...)\ndeclare i32 @snprintf(i8*, i64, i8*, ...)\ndeclare i8* @strcat(i8*, i8*)\n@f = constant [3 x i8] c\"%s\\00\"\ndeclare i8* @strchr(i8*, i32)\ndeclare i8* @unknown(i8*, i8*)\n";
  std::string D = "  %l = load i8, i8* %d\n  %v = zext i8 %l to i32\n", R = "  %l = load i8, i8* %r\n  %v = zext i8 %l to i32\n";
  switch (How) {
  case 0: X += "  %r = call i8* @memcpy(i8* %d, i8* %s, i64 1)\n" + D; break;
  case 1: X += "  %r = call i8* @strcpy(i8* %d, i8* %s)\n" + D; break;
  case 2: X += "  %v = call i32 @abs(i32 %x)\n"; break;
  case 3: X += "  %r = call i8* @strdup(i8* %s)\n" + R; break;
  case 4: X += "  %r = call i32 (i8*, i8*, ...) @sprintf(i8* %d, i8* getelementptr ([3 x i8], [3 x i8]* @f, i64 0, i64 0), i8* %s)\n" + D; break;
  case 5: X += "  %r = call i8* @strcat(i8* %d, i8* %s)\n" + D; break;
  case 6: X += "  %r = call i8* @strcat(i8* %s, i8* %d)\n" + R; break;
  case 8: X += "  %r = call i32 (i8*, i64, i8*, ...) @snprintf(i8* %d, i64 2, i8* %s)\n" + D; break;
  case 9: X += "  %r = call i32 (i8*, i64, i8*, ...) @snprintf(i8* %d, i64 2, i8* getelementptr ([3 x i8], [3 x i8]* @f, i64 0, i64 0), i32 2, i32 %x)\n" + D; break;
  case 7: X += "  %r = call i8* @unknown(i8* %d, i8* %s)\n" + D; Tainted = false; break;
  }
  expect(X + sink("%v", 0), {Tainted}, true, More);
}
