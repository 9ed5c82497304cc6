// Uninitialized variables: a read is reported exactly when it can see a
// variable that was not written before.
#include "minillvm.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

static const char *Decls =
    "declare i1 @cond()\ndeclare void @ext(i32*)\ndeclare void @use(i32)\n@ip = global void (i32*)* @init\n@vp = global i32 (i32)* @id\n"
    "define i32 @fresh() {\n  %l = alloca i32\n  %1 = load i32, i32* %l, !leak !20\n  ret i32 %1\n}\n"
    "define i32 @seven() {\n  ret i32 7\n}\n";
static const char *Callees0 =
    "define i32 @id(i32 %x) {\n  %s = alloca i32\n  store i32 %x, i32* %s\n  %1 = load i32, i32* %s\n  ret i32 %1\n}\n"
    "define i32 @zero(i32 %x) {\n  ret i32 0\n}\n"
    "define void @init(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %1 = load i32*, i32** %s\n  store i32 7, i32* %1\n  ret void\n}\n"
    "define void @maybe(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %c = call i1 @cond()\n  br i1 %c, label %T, label %X\nT:\n"
    "  %1 = load i32*, i32** %s\n  store i32 7, i32* %1\n  br label %X\nX:\n  ret void\n}\n"
    "define i32 @read(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %1 = load i32*, i32** %s\n  %2 = load i32, i32* %1, !leak !21\n  ret i32 %2\n}\n"
    "define void @copy(i32* %p, i32* %q) {\n  %s = alloca i32*\n  %t = alloca i32*\n  store i32* %p, i32** %s\n  store i32* %q, i32** %t\n"
    "  %1 = load i32*, i32** %t\n  %2 = load i32, i32* %1, !leak !22\n  %3 = load i32*, i32** %s\n  store i32 %2, i32* %3\n  ret void\n}\n"
    "define void @rec(i32* %p) {\n  %s = alloca i32*\n  store i32* %p, i32** %s\n  %c = call i1 @cond()\n  br i1 %c, label %T, label %E\nT:\n"
    "  %1 = load i32*, i32** %s\n  call void @rec(i32* %1)\n  ret void\nE:\n  %2 = load i32*, i32** %s\n  store i32 7, i32* %2\n  ret void\n}\n";
static const char *Callees1 =
    "define i32 @id(i32 %x) {\n  ret i32 %x\n}\ndefine i32 @zero(i32 %x) {\n  ret i32 0\n}\n"
    "define void @init(i32* %p) {\n  store i32 7, i32* %p\n  ret void\n}\n"
    "define void @maybe(i32* %p) {\n  %c = call i1 @cond()\n  br i1 %c, label %T, label %X\nT:\n  store i32 7, i32* %p\n  br label %X\nX:\n  ret void\n}\n"
    "define i32 @read(i32* %p) {\n  %1 = load i32, i32* %p, !leak !21\n  ret i32 %1\n}\n"
    "define void @copy(i32* %p, i32* %q) {\n  %1 = load i32, i32* %q, !leak !22\n  store i32 %1, i32* %p\n  ret void\n}\n"
    "define void @rec(i32* %p) {\n  %c = call i1 @cond()\n  br i1 %c, label %T, label %E\nT:\n  call void @rec(i32* %p)\n  ret void\nE:\n"
    "  store i32 7, i32* %p\n  ret void\n}\n";

enum Op { Const, Copy, Undef, Arith, Id, Zero, Fresh, Seven, Init, Ext, Maybe, Read, CopyP, Rec, IndInit, IndId, Phi, Use, NumOps };
struct St {
  unsigned Op, X, Y;
};
using States = std::set<unsigned>;
// bit 0, 1: the variable is not initialised
struct Ref {
  bool Opt;
  std::set<unsigned> Bad;
  States apply(St S, unsigned No, unsigned T) {
    auto Has = [&](unsigned K) { return T >> K & 1; };
    auto Put = [&](unsigned K, unsigned B) { return (T & ~(1u << K)) | (B << K); };
    auto Rd = [&](unsigned K, unsigned At) {
      if (Has(K))
        Bad.insert(At);
    };
    switch (S.Op) {
    case Const: case Seven: case Init: case Ext: case Rec: return {Put(S.X, 0)};
    case Copy: case Id: Rd(S.Y, No); return {Put(S.X, Has(S.Y))};
    case Arith: Rd(S.Y, No); Rd(S.Y, No + 10); return {Put(S.X, Has(S.Y))};
    case Zero: Rd(S.Y, No); return {Put(S.X, 0)};
    case Undef: return {Put(S.X, 1)};
    case Fresh: Bad.insert(20); return {Put(S.X, 1)};
    case Maybe: return {T, Put(S.X, 0)};
    case Read: Rd(S.Y, 21); return {Put(S.X, Has(S.Y))};
    // the analysis knows no aliases: what is written through a reloaded pointer is not attributed
    case CopyP: Rd(S.Y, 22); return {Put(S.X, Has(S.Y) && (Opt || Has(S.X)))};
    case IndInit: return {T, Put(S.X, 0)};
    case IndId: Rd(S.Y, No); return {Put(S.X, Has(S.Y)), Put(S.X, 0)};
    case Phi: Rd(S.Y, No); return {Put(S.X, Has(S.Y)), Put(S.X, 0)};
    case Use: Rd(S.X, No); return {T};
    }
    abort();
  }
  States all(St S, unsigned No, const States &In) {
    States R;
    for (unsigned T : In)
      for (unsigned U : apply(S, No, T))
        R.insert(U);
    return R;
  }
};
static unsigned Tmp;
static std::string text(St S, unsigned No) {
  static const char *Var[] = {"%a", "%b"};
  std::string X = Var[S.X], Y = Var[S.Y], K = std::to_string(Tmp++), T = "%t" + K, U = "%u" + K, W = "%w" + K;
  auto Load = "  " + T + " = load i32, i32* " + Y + ", !leak !" + std::to_string(No) + "\n";
  auto Store = [&](const std::string &A) { return "  store i32 " + A + ", i32* " + X + "\n"; };
  switch (S.Op) {
  case Const: return Store("7");
  case Undef: return Store("undef");
  case Copy: return Load + Store(T);
  case Arith: return Load + "  " + U + " = add i32 1, " + T + ", !leak !" + std::to_string(No + 10) + "\n" + Store(U);
  case Id: return Load + "  " + U + " = call i32 @id(i32 " + T + ")\n" + Store(U);
  case Zero: return Load + "  " + U + " = call i32 @zero(i32 " + T + ")\n" + Store(U);
  case Fresh: return "  " + U + " = call i32 @fresh()\n" + Store(U);
  case Seven: return "  " + U + " = call i32 @seven()\n" + Store(U);
  case Init: return "  call void @init(i32* " + X + ")\n";
  case Ext: return "  call void @ext(i32* " + X + ")\n";
  case Maybe: return "  call void @maybe(i32* " + X + ")\n";
  case Rec: return "  call void @rec(i32* " + X + ")\n";
  case Read: return "  " + U + " = call i32 @read(i32* " + Y + ")\n" + Store(U);
  case CopyP: return "  call void @copy(i32* " + X + ", i32* " + Y + ")\n";
  case IndInit: return "  " + W + " = load void (i32*)*, void (i32*)** @ip\n  call void " + W + "(i32* " + X + ")\n";
  case IndId: return Load + "  " + W + " = load i32 (i32)*, i32 (i32)** @vp\n  " + U + " = call i32 " + W + "(i32 " + T + ")\n" + Store(U);
  case Phi: return Load + "  %c" + K + " = call i1 @cond()\n  br label %F" + K + "\nF" + K + ":\n  br i1 %c" + K + ", label %A" + K + ", label %B" + K + "\nA" + K + ":\n  br label %B" + K + "\nB" + K +
                   ":\n  " + U + " = phi i32 [ " + T + ", %F" + K + " ], [ 0, %A" + K + " ]\n" + Store(U);
  case Use: return "  " + T + " = load i32, i32* " + X + ", !leak !" + std::to_string(No) + "\n  call void @use(i32 " + T + ")\n";
  }
  abort();
}
static St pick() {
  St S{};
  S.Op = sym_pick<unsigned>("statement", 0, NumOps - 1);
  S.X = sym_pick<unsigned>("var", 0, 1);
  S.Y = 1 - S.X;
  return S;
}
static CallGraph<I, const llvm::Function *> graph(llvm::Module &M) {
  CallGraphBuilder<I, const llvm::Function *> B;
  B.reserve(M.size());
  for (auto &F : M) {
    (void)B.addFunctionVertex(&F);
    for (auto &X : llvm::instructions(F))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&X)) {
        if (auto *C = CB->getCalledFunction()) {
          B.addCallEdge(CB, C);
        } else if (auto *L = llvm::dyn_cast<llvm::LoadInst>(CB->getCalledOperand())) {
          bool Ip = L->getPointerOperand()->getName() == "ip";
          B.addCallEdge(CB, M.getFunction(Ip ? "init" : "id"));
          B.addCallEdge(CB, M.getFunction(Ip ? "maybe" : "zero"));
        }
      }
  }
  return B.consumeCallGraph();
}
enum Shape { Straight, Branch, Loop };
static void program(std::vector<St> S, unsigned Sh, bool Opt) {
  Tmp = 0;
  bool Exact = Opt;
  std::string B = "define i32 @main() {\n  %a = alloca i32\n  %b = alloca i32\n";
  Ref R{Opt, {}};
  States Now{3};
  unsigned N = S.size();
  auto Do = [&](unsigned K) {
    B += text(S[K], K);
    auto Next = R.all(S[K], K, Now);
    return Next;
  };
  if (Sh == Loop) {
    B += "  br label %L\nL:\n";
    for (unsigned K = 0; K + 1 < N; ++K)
      B += text(S[K], K);
    B += "  %c = call i1 @cond()\n  br i1 %c, label %L, label %X\nX:\n" + text(S[N - 1], N - 1);
    States Head = Now, Out;
    for (;;) {
      auto In = Head;
      for (unsigned K = 0; K + 1 < N; ++K)
        In = R.all(S[K], K, In);
      auto Old = Head.size() + Out.size();
      Head.insert(In.begin(), In.end());
      Out.insert(In.begin(), In.end());
      if (Head.size() + Out.size() == Old)
        break;
    }
    Now = R.all(S[N - 1], N - 1, Out);
  } else {
    for (unsigned K = 0; K < N; ++K) {
      bool Cond = Sh == Branch && K == N - 2;
      if (Cond)
        B += "  %c = call i1 @cond()\n  br i1 %c, label %T, label %J\nT:\n";
      auto Next = Do(K);
      if (Cond) {
        B += "  br label %J\nJ:\n";
        Next.insert(Now.begin(), Now.end());
      }
      Now = Next;
    }
  }
  B += text({Use, 0, 0}, N) + text({Use, 1, 1}, N + 1) + "  ret i32 0\n}\n";
  Now = R.all({Use, 0, 0}, N, Now);
  Now = R.all({Use, 1, 1}, N + 1, Now);
  std::string Text = std::string(Decls) + (Opt ? Callees1 : Callees0) + B;
  for (unsigned K = 0; K < 24; ++K)
    Text += "!" + std::to_string(K) + " = !{i32 " + std::to_string(K) + "}\n";
  ml::Prog P(Text);
  LLVMProjectIRDB DB(P.M.get(), true);
  LLVMBasedICFG ICF(graph(*P.M), &DB);
  IFDSUninitializedVariables A(&DB, {"main"});
  IFDSSolver<LLVMIFDSAnalysisDomainDefault> Solver(A, &ICF);
  Solver.solve();
  auto &Uses = A.getAllUndefUses();
  for (auto &F : *P.M)
    for (auto &X : llvm::instructions(F))
      if (auto *M = X.getMetadata("leak")) {
        unsigned Id = llvm::cast<llvm::ConstantInt>(llvm::cast<llvm::ConstantAsMetadata>(M->getOperand(0))->getValue())->getZExtValue();
        auto It = Uses.find(&X);
        bool Got = It != Uses.end() && !It->second.empty();
        symrt_note("instruction", Id);
        if (R.Bad.count(Id)) {
          symrt_check(Got, "a read that can see an uninitialised variable is reported");
          symrt_cover("uninitialised");
        } else if (Exact) {
          symrt_check(!Got, "a read that only sees initialised variables is not reported");
          symrt_cover("initialised");
        }
        if (Got)
          for (V Y : It->second)
            symrt_check(llvm::is_contained(X.operands(), Y), "what is uninitialised is an operand");
      }
}
SYM_GOAL(two_statements) { program({pick(), pick()}, sym_pick<unsigned>("shape", 0, 2), sym_pickbool("optimised")); }
SYM_GOAL(three_statements) {
  St S{};
  static const unsigned Ops[] = {Const, Copy, Maybe, Phi, Init};
  S.Op = Ops[sym_pick<unsigned>("first", 0, 4)];
  S.X = sym_pick<unsigned>("first var", 0, 1);
  S.Y = 1 - S.X;
  program({S, pick(), pick()}, sym_pick<unsigned>("shape", 1, 2), true);
}
