// Control-flow graph views (forward, backward, inter-procedural) against the IR.
#include "minillvm.h"
#include "llvm/IR/CFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include <algorithm>
#include <set>
using namespace psr;
using I = const llvm::Instruction *;
using F = const llvm::Function *;
using List = std::vector<I>;

static const char *Dbg = "call void @llvm.dbg.value(metadata i32 0, metadata !1, metadata !DIExpression()), !dbg !5\n";
static const char *Tail = "declare void @llvm.dbg.value(metadata, metadata, metadata)\ndeclare void @ext()\n"
                          "!llvm.dbg.cu = !{!3}\n!llvm.module.flags = !{!0}\n!0 = !{i32 2, !\"Debug Info Version\", i32 3}\n"
                          "!1 = !DILocalVariable(name: \"v\", scope: !2, file: !4, line: 1, type: !8)\n"
                          "!2 = distinct !DISubprogram(name: \"f\", scope: !4, file: !4, line: 1, type: !6, scopeLine: 1, spFlags: DISPFlagDefinition, unit: !3)\n"
                          "!3 = distinct !DICompileUnit(language: DW_LANG_C, file: !4, emissionKind: FullDebug)\n"
                          "!4 = !DIFile(filename: \"a.c\", directory: \"/\")\n!5 = !DILocation(line: 1, scope: !2)\n"
                          "!6 = !DISubroutineType(types: !7)\n!7 = !{null}\n!8 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n";
static std::string blk(unsigned N) { return "%B" + std::to_string(N); }

template <class R> static List list(R &&Range) {
  List L;
  for (I X : Range)
    L.push_back(X);
  std::sort(L.begin(), L.end());
  return L;
}
struct Ref {
  bool Ignore;
  bool seen(I X) const { return !Ignore || !llvm::isa<llvm::DbgInfoIntrinsic>(X); }
  I first(const llvm::BasicBlock *B) const {
    for (auto &X : *B)
      if (seen(&X))
        return &X;
    return nullptr;
  }
  List succs(I X) const {
    for (I Y = X->getNextNode(); Y; Y = Y->getNextNode())
      if (seen(Y))
        return {Y};
    List L;
    for (unsigned J = 0; J < X->getNumSuccessors(); ++J)
      L.push_back(first(X->getSuccessor(J)));
    std::sort(L.begin(), L.end());
    return L;
  }
  List nodes(F Fn) const {
    List L;
    for (auto &B : *Fn)
      for (auto &X : B)
        if (seen(&X))
          L.push_back(&X);
    return L;
  }
  List preds(I X) const {
    List L;
    for (I Y : nodes(X->getFunction()))
      for (I Z : succs(Y))
        if (Z == X)
          L.push_back(Y);
    std::sort(L.begin(), L.end());
    return L;
  }
};
static bool isExit(I X) { return llvm::isa<llvm::ReturnInst>(X) || llvm::isa<llvm::ResumeInst>(X); }

static void checkForward(const LLVMBasedCFG &C, const Ref &R, F Fn) {
  symrt_check(C.getIgnoreDbgInstructions() == R.Ignore, "debug mode");
  auto Nodes = R.nodes(Fn);
  std::vector<std::pair<I, I>> Edges;
  List Exits;
  for (I X : Nodes) {
    auto S = R.succs(X);
    symrt_check(list(C.getSuccsOf(X)) == S, "successors");
    symrt_check(list(C.getPredsOf(X)) == R.preds(X), "predecessors are the inverse of successors");
    for (I Y : S)
      Edges.emplace_back(X, Y);
    symrt_check(C.isExitInst(X) == isExit(X), llvm::isa<llvm::ResumeInst>(X) ? "exit instructions (resume)" : "exit instructions");
    if (isExit(X))
      Exits.push_back(X);
    symrt_check(C.isStartPoint(X) == (X == R.first(&Fn->getEntryBlock())), "start point");
    symrt_check(C.isCallSite(X) == llvm::isa<llvm::CallBase>(X), "call site");
    symrt_check(C.getFunctionOf(X) == Fn, "function of an instruction");
    for (I Y : Nodes) {
      bool Target = X->isTerminator() && std::find(S.begin(), S.end(), Y) != S.end();
      symrt_check(C.isBranchTarget(X, Y) == Target, "branch targets are the successors of terminators");
      auto *B = llvm::dyn_cast<llvm::BranchInst>(X);
      bool Fall = B && R.first(B->getSuccessor(B->isConditional() ? 1 : 0)) == Y;
      symrt_check(C.isFallThroughSuccessor(X, Y) == Fall, "fall-through successor");
    }
  }
  auto Got = C.getAllControlFlowEdges(Fn);
  std::sort(Got.begin(), Got.end());
  std::sort(Edges.begin(), Edges.end());
  symrt_check(std::vector<std::pair<I, I>>(Got.begin(), Got.end()) == Edges, "all control-flow edges");
  symrt_check(list(C.getStartPointsOf(Fn)) == List{R.first(&Fn->getEntryBlock())}, "start points of a function");
  std::sort(Exits.begin(), Exits.end());
  symrt_check(list(C.getExitPointsOf(Fn)) == Exits, "exit points of a function");
  size_t N = 0;
  for (I X : C.getAllInstructionsOf(Fn)) {
    symrt_check(X->getFunction() == Fn, "instructions of a function");
    ++N;
  }
  size_t Want = 0;
  for (auto &B : *Fn)
    Want += B.size();
  symrt_check(N == Want, "all instructions of a function");
}
template <class CFG> static void checkBackward(const CFG &C, const Ref &R, F Fn, bool Rets) {
  auto Nodes = R.nodes(Fn);
  I Entry = R.first(&Fn->getEntryBlock()), BR = nullptr;
  auto Ex = list(C.getExitPointsOf(Fn));
  symrt_check(Ex.size() == 1, "one backward exit point");
  List Exits;
  if (Rets) {
    BR = Ex[0];
    symrt_check(std::find(Nodes.begin(), Nodes.end(), BR) == Nodes.end() && C.isExitInst(BR) && !C.isStartPoint(BR), "artificial backward exit");
    symrt_check(C.getFunctionOf(BR) == Fn, "function of the backward exit");
    symrt_check(list(C.getSuccsOf(BR)).empty(), "the backward exit has no successor");
    symrt_check(list(C.getPredsOf(BR)) == List{Entry}, "the backward exit follows the entry");
  } else
    symrt_check(Ex[0] == Entry, "backward exit is the entry");
  std::vector<std::pair<I, I>> Edges;
  for (I X : Nodes) {
    auto S = R.preds(X);
    if (X == Entry && BR)
      S.push_back(BR);
    symrt_check(list(C.getSuccsOf(X)) == S, "backward successors are the predecessors");
    symrt_check(list(C.getPredsOf(X)) == R.succs(X), "backward predecessors are the successors");
    for (I Y : S)
      Edges.emplace_back(X, Y);
    if (isExit(X))
      Exits.push_back(X);
    symrt_check(C.isStartPoint(X) == isExit(X), llvm::isa<llvm::ResumeInst>(X) ? "backward start points are the exits (resume)" : "backward start points are the exits");
    symrt_check(C.isExitInst(X) == (!BR && X == Entry), "backward exits");
    symrt_check(C.getFunctionOf(X) == Fn, "function of an instruction (backward)");
    for (I Y : Nodes) {
      auto P = R.succs(Y);
      bool Target = Y->isTerminator() && std::find(P.begin(), P.end(), X) != P.end();
      symrt_check(C.isBranchTarget(X, Y) == Target, "backward branch targets");
    }
  }
  std::sort(Exits.begin(), Exits.end());
  symrt_check(list(C.getStartPointsOf(Fn)) == Exits, "backward start points of a function");
  auto Got = C.getAllControlFlowEdges(Fn);
  std::sort(Got.begin(), Got.end());
  std::sort(Edges.begin(), Edges.end());
  symrt_check(std::vector<std::pair<I, I>>(Got.begin(), Got.end()) == Edges, "all backward control-flow edges");
}
static std::string term(unsigned B, const char *Kinds) {
  unsigned N = strlen(Kinds);
  char K = Kinds[sym_pick<unsigned>("term", 0, N - 1)];
  auto to = [&](const char *Nm) { return blk(sym_pick<unsigned>(Nm, 1, B)); };
  switch (K) {
  case 'r':
    return "ret void\n";
  case 'u':
    return "unreachable\n";
  case 'e':
    return "resume {i8*, i32} undef\n";
  case 'b':
    return "br label " + to("to") + "\n";
  case 'c': {
    auto A = to("true"), C = to("false");
    return "br i1 %c, label " + A + ", label " + C + "\n";
  }
  case 's': {
    auto A = to("default"), C = to("case");
    return "switch i32 %n, label " + A + " [i32 0, label " + C + " i32 1, label %B1]\n";
  }
  case 'i': {
    auto A = to("normal");
    return "invoke void @ext() to label " + A + " unwind label %LP\n";
  }
  }
  abort();
}
// block bodies: a plain instruction, a call, debug instructions in any place
static std::string body(unsigned K) {
  switch (sym_pick<unsigned>("body", 0, K)) {
  case 0:
    return "";
  case 1:
    return Dbg;
  case 2:
    return std::string(Dbg) + "call void @ext()\n";
  case 3:
    return std::string("call void @ext()\n") + Dbg;
  default:
    return std::string(Dbg) + Dbg + "fence acquire\n";
  }
}
static bool reachable(const llvm::Function &Fn) {
  std::set<const llvm::BasicBlock *> S;
  std::vector<const llvm::BasicBlock *> W{&Fn.getEntryBlock()};
  while (!W.empty()) {
    auto *B = W.back();
    W.pop_back();
    if (S.insert(B).second)
      for (auto *N : llvm::successors(B))
        W.push_back(N);
  }
  return S.size() == Fn.size();
}
static void cfg(unsigned B, const char *Kinds, unsigned Bodies, bool Ignore) {
  ml::quiet();
  std::string T = "declare i32 @__gxx_personality_v0(...)\ndefine void @f(i1 %c, i32 %n) personality i32 (...)* @__gxx_personality_v0 !dbg !2 {\nB0:\n";
  bool Inv = strchr(Kinds, 'i') != nullptr;
  for (unsigned J = 0; J <= B; ++J) {
    if (J)
      T += blk(J).substr(1) + ":\n";
    T += body(Bodies) + term(B, J == 0 ? Kinds : Kinds);
  }
  if (Inv) // a landing pad that may also be unreached
    T += "LP:\n %p = landingpad {i8*, i32} cleanup\n resume {i8*, i32} %p\n";
  T += "}\ndefine void @g() {\n ret void\n}\n";
  ml::Prog P(T + Tail);
  F Fn = P.fn("f");
  if (!reachable(*Fn))
    symrt_end();
  symrt_check(!Ignore || P.M->getNamedMetadata("llvm.dbg.cu") != nullptr, "harness: debug information is there");
  Ref R{Ignore};
  checkForward(LLVMBasedCFG(Ignore), R, Fn);
  LLVMProjectIRDB DB(P.M.get(), true);
  LLVMBasedBackwardCFG Bw(DB, Ignore);
  checkBackward(Bw, R, Fn, true);
  checkBackward(LLVMBasedBackwardCFG(Ignore), R, Fn, false);
}
SYM_GOAL(two_blocks) { cfg(1, "rubcse", 4, sym_pickbool("ignore_debug")); }
SYM_GOAL(three_blocks) { cfg(2, "rbc", 1, sym_pickbool("ignore_debug")); }
SYM_GOAL(three_switch) { cfg(2, "rs", 1, true); }
SYM_GOAL(four_blocks) { cfg(3, "rc", 0, true); }
SYM_GOAL(four_blocks_jumps) { cfg(3, "rbc", 0, true); }
SYM_GOAL(invoke) { cfg(2, "ri", 2, true); }

// inter-procedural views
SYM_GOAL(icfg) {
  ml::quiet();
  std::string T;
  static const char *S[] = {"call void @a()\n", "call void @b()\n", "call void @ext()\n", "fence acquire\n", "", "call void @a()\n call void @b()\n"};
  for (unsigned J = 0; J < 2; ++J)
    T += std::string("define void @") + char('a' + J) + "() {\n" + S[sym_pick<unsigned>("first", 0, 5)] + (J ? "" : S[sym_pick<unsigned>("second", 0, 4)]) +
         "ret void\n}\n";
  T += "define void @main(i1 %c) personality i8* null {\n br i1 %c, label %X, label %Y\nX:\n call void @a()\n ret void\nY:\n invoke void @b() to label %Z unwind label %L\nZ:\n ret void\n"
       "L:\n %p = landingpad {i8*, i32} cleanup\n resume {i8*, i32} %p\n}\n";
  ml::Prog P(T + "declare void @ext()\n");
  LLVMProjectIRDB DB(P.M.get(), true);
  CallGraphBuilder<I, F> B;
  B.reserve(P.M->size());
  std::map<I, F> Callee;
  for (auto &Fn : *P.M) {
    (void)B.addFunctionVertex(&Fn);
    for (auto &X : llvm::instructions(Fn))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&X)) {
        B.addCallEdge(CB, CB->getCalledFunction());
        Callee[CB] = CB->getCalledFunction();
      }
  }
  LLVMBasedICFG ICF(B.consumeCallGraph(), &DB);
  Ref R{true};
  LLVMBasedBackwardICFG Bw(&ICF);
  List Non, BNon;
  for (auto &Fn : *P.M) {
    List Calls;
    for (I X : R.nodes(&Fn)) {
      bool Call = llvm::isa<llvm::CallBase>(X);
      if (Call) {
        Calls.push_back(X);
        symrt_check(list(ICF.getReturnSitesOfCallAt(X)) == R.succs(X), "return sites of a call");
        auto Cs = ICF.getCalleesOfCallAt(X);
        symrt_check(Cs.size() == 1 && Cs[0] == Callee[X], "callees of a call");
        auto BCs = Bw.getCalleesOfCallAt(X);
        symrt_check(BCs.size() == 1 && BCs[0] == Callee[X], "callees of a call (backward)");
        symrt_check(!ICF.isIndirectFunctionCall(X) && !ICF.isVirtualFunctionCall(X), "direct call");
      } else {
        if (X != R.first(&Fn.getEntryBlock()))
          Non.push_back(X);
        if (!isExit(X))
          BNon.push_back(X);
      }
    }
    std::sort(Calls.begin(), Calls.end());
    symrt_check(list(ICF.getCallsFromWithin(&Fn)) == Calls, "calls from within a function");
    symrt_check(list(Bw.getCallsFromWithin(&Fn)) == Calls, "calls from within a function (backward)");
    List Callers;
    for (auto &[X, G] : Callee)
      if (G == &Fn)
        Callers.push_back(X);
    std::sort(Callers.begin(), Callers.end());
    symrt_check(list(ICF.getCallersOf(&Fn)) == Callers, "callers of a function");
    symrt_check(list(Bw.getCallersOf(&Fn)) == Callers, "callers of a function (backward)");
    symrt_check(ICF.getFunction(Fn.getName()) == &Fn, "function by name");
    if (!Fn.isDeclaration()) {
      checkForward(ICF, R, &Fn);
      checkBackward(Bw, R, &Fn, true);
      BNon.push_back(Bw.getExitPointsOf(&Fn)[0]);
    }
  }
  std::sort(Non.begin(), Non.end());
  symrt_check(list(ICF.allNonCallStartNodes()) == Non, "nodes that are neither calls nor start points");
  auto Got = list(Bw.allNonCallStartNodes());
  std::sort(BNon.begin(), BNon.end());
  symrt_check(std::includes(Got.begin(), Got.end(), BNon.begin(), BNon.end()), "every backward node that is neither call nor start point");
}
// names of member functions: the Itanium grammar over adversarial identifiers
SYM_GOAL(special_members) {
  ml::quiet();
  static const char *Id[] = {"A", "C1", "D0", "xC2", "aS", "C1D2x", "ABCDEFGHIC", "D1ABCDEFGHIJ"};
  unsigned K = sym_pick<unsigned>("kind", 0, 7), Nest = sym_pick<unsigned>("nesting", 0, 2);
  std::string N = "_ZN";
  for (unsigned J = 0; J <= Nest; ++J) {
    std::string S = Id[sym_pick<unsigned>("identifier", 0, 7)];
    N += std::to_string(S.size()) + S;
  }
  using T = SpecialMemberFunctionType;
  T Want = T::None;
  switch (K) {
  case 0: N += "C1Ev"; Want = T::Constructor; break;
  case 1: N += "C2Ei"; Want = T::Constructor; break;
  case 2: N += "D0Ev"; Want = T::Destructor; break;
  case 3: N += "D2Ev"; Want = T::Destructor; break;
  case 4: N += "aSERKS_"; Want = T::CopyAssignment; break;
  case 5: N += "aSEOS_"; Want = T::MoveAssignment; break;
  case 6: N += "3fooEv"; break;
  case 7: N += "2C1Ev"; break;
  }
  ml::Prog P("declare void @\"" + N + "\"()\n");
  LLVMBasedCFG C;
  symrt_check(C.getSpecialMemberFunctionType(P.fn(N.c_str())) == Want, "special member function of a mangled name");
  symrt_check(C.isSpecialMemberFunction(P.fn(N.c_str())) == (Want != T::None), "special member function");
}
// plain names, in particular ones that look like part of a mangled one
SYM_GOAL(plain_names) {
  ml::quiet();
  static const char *A[] = {"C1", "D0", "C2Ev", "x", "aSERKS_", "foo", "D2x", "main"};
  std::string N = std::string(A[sym_pick<unsigned>("name", 0, 7)]);
  ml::Prog P("declare void @\"" + N + "\"()\n");
  LLVMBasedCFG C;
  symrt_check(C.getSpecialMemberFunctionType(P.fn(N.c_str())) == SpecialMemberFunctionType::None, "an unmangled name is no special member function");
}
