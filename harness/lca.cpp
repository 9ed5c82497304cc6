// Linear constant analysis: every constant it reports is the value in every
// run, whatever the constants in the program are.
#include "minillvm.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
using namespace psr;

struct LcaRun {
  ml::Prog P;
  LLVMProjectIRDB DB;
  LLVMBasedICFG ICF;
  IDELinearConstantAnalysis LCA;
  IDESolver<IDELinearConstantAnalysisDomain> S;
  static CallGraph<const llvm::Instruction *, const llvm::Function *> graph(llvm::Module &M) {
    CallGraphBuilder<const llvm::Instruction *, const llvm::Function *> B;
    B.reserve(M.size());
    for (auto &F : M) {
      (void)B.addFunctionVertex(&F);
      for (auto &I : llvm::instructions(F))
        if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I))
          if (auto *C = CB->getCalledFunction())
            B.addCallEdge(CB, C);
    }
    return B.consumeCallGraph();
  }
  LcaRun(const std::string &T, unsigned W, unsigned NC)
      : P(T), DB((P.symbolic(W, NC), P.M.get()), false), ICF(graph(*P.M), &DB), LCA(&DB, &ICF), S(LCA, &ICF) {
    S.solve();
  }
  void poke(unsigned W, const std::vector<uint64_t> &V) {
    for (unsigned I = 0; I < V.size(); ++I)
      P.poke(W, I, V[I]);
  }
  LcaRun(const std::string &T, unsigned W, std::vector<uint64_t> V)
      : P(T), DB((poke(W, V), P.M.get()), false), ICF(graph(*P.M), &DB), LCA(&DB, &ICF), S(LCA, &ICF) {
    S.solve();
  }
};
struct Checker : ml::Interp {
  LcaRun &R;
  unsigned Reported = 0;
  explicit Checker(LcaRun &R) : R(R) { init(*R.P.M); }
  void at(const llvm::Instruction *I, Frame &F) override {
    if (I->getPrevNode() == nullptr && I->getParent()->isEntryBlock() && I->getFunction()->getName() != "main")
      ;
    auto Res = R.S.resultsAt(I);
    auto one = [&](const llvm::Value *V, uint64_t Now, unsigned W) {
      auto It = Res.find(V);
      if (It == Res.end())
        return;
      if (auto *C = std::get_if<int64_t>(&It->second)) {
        ++Reported;
        symrt_check(UB | (*C == ml::sext(Now, W)), "a reported constant is the value in every run");
      } else
        symrt_check(UB | std::holds_alternative<Bottom>(It->second), "a reachable value is not reported as unreachable");
    };
    for (auto &[V, X] : F.Env) {
      if (V->getType()->isIntegerTy())
        one(V, X, width(V));
      else if (auto *PT = llvm::dyn_cast<llvm::PointerType>(V->getType());
               PT && PT->getNonOpaquePointerElementType()->isIntegerTy() && X < Cells.size())
        one(V, Cells[X], PT->getNonOpaquePointerElementType()->getIntegerBitWidth());
    }
    auto aliased = [&](uint64_t Cell) { // the same cell under two names is not tracked by design
      for (auto &[V, X] : F.Env)
        if (llvm::isa<llvm::Argument>(V) && V->getType()->isPointerTy() && X == Cell)
          return true;
      return false;
    };
    for (auto &[G, C] : Globals)
      if (!aliased(C))
      if (auto *GV = llvm::cast<llvm::GlobalVariable>(G); GV->getValueType()->isIntegerTy())
        one(G, Cells[C], GV->getValueType()->getIntegerBitWidth());
  }
};
static void go(const std::string &T, unsigned W, unsigned NC, unsigned Expect = 0) {
  ml::quiet();
  LcaRun R(T, W, NC);
  Checker C(R);
  C.run(R.P.fn("main"), {});
  symrt_check(C.Reported >= Expect, "constants that are evident are reported");
}
static std::string ty(std::string T, unsigned W) { return ml::replaceAll(T, "iW", "i" + std::to_string(W)); }
static unsigned anyW() {
  static const unsigned Ws[] = {8, 32, 64};
  return Ws[sym_pick<unsigned>("width", 0, 2)];
}


// divisions: boundary values; at 8 bits any other operand
static void bodyDiv(const char *Op, bool Wide) {
  unsigned Side = sym_pick<unsigned>("side", 0, 2);
  std::string E = Side == 0 ? "%l, $1" : Side == 1 ? "$1, %l" : "$0, $1";
  unsigned W = anyW();
  std::string T = ty("define iW @main() {\n %x = alloca iW\n store iW $0, iW* %x\n %l = load iW, iW* %x\n %r = " + std::string(Op) + " iW " +
                         E + "\n store iW %r, iW* %x\n %m = load iW, iW* %x\n ret iW %m\n}\n",
                     W);
  ml::quiet();
  uint64_t V[] = {0, 1, 2, 7, ml::mask(W), ml::mask(W) - 1, uint64_t(1) << (W - 1), ml::mask(W) >> 1};
  // at 8 bits one operand is arbitrary
  bool Free = W == 8 && Wide, First = Free && sym_pickbool("first");
  uint64_t A = Free && First ? sym_any<uint64_t>("const") & 0xff : V[sym_pick<unsigned>("boundary", 0, 7)];
  uint64_t B = Free && !First ? sym_any<uint64_t>("const") & 0xff : V[sym_pick<unsigned>("boundary", 0, 7)];
  LcaRun R(T, W, std::vector<uint64_t>{A, B});
  Checker C(R);
  C.run(R.P.fn("main"), {});
}
static void arith(std::vector<const char *> Ops) {
  unsigned W = anyW();
  std::string Op = Ops[sym_pick<unsigned>("op", 0, Ops.size() - 1)];
  unsigned Side = sym_pick<unsigned>("side", 0, 2);
  std::string E = Side == 0 ? "%l, $1" : Side == 1 ? "$1, %l" : "$0, $1";
  go(ty("define iW @main() {\n %x = alloca iW\n store iW $0, iW* %x\n %l = load iW, iW* %x\n %r = " + Op + " iW " + E +
            "\n store iW %r, iW* %x\n %m = load iW, iW* %x\n ret iW %m\n}\n",
        W),
     W, 2, 3);
}
SYM_GOAL(arith_simple) { arith({"add", "sub", "and", "or", "xor", "add nsw", "sub nuw"}); }
SYM_GOAL(arith_shift) { arith({"shl", "lshr", "ashr"}); }
SYM_GOAL(arith_mul) {
  ml::quiet();
  LcaRun R(ty("define iW @main() {\n %x = alloca iW\n store iW $0, iW* %x\n %l = load iW, iW* %x\n %r = mul iW %l, $1\n ret iW %r\n}\n", 8), 8, 2);
  Checker C(R);
  C.run(R.P.fn("main"), {});
}
SYM_GOAL(arith_sdiv) { bodyDiv("sdiv", true); }
SYM_GOAL(arith_udiv) { bodyDiv("udiv", true); }
SYM_GOAL(arith_srem) { bodyDiv("srem", true); }
SYM_GOAL(arith_urem) { bodyDiv("urem", true); }
// two operations in a row, operands from variables or constants
SYM_GOAL(chain) {
  static const char *O[] = {"add", "sub", "xor"};
  std::string A = O[sym_pick<unsigned>("op1", 0, 2)], B = O[sym_pick<unsigned>("op2", 0, 2)];
  static const char *E[] = {"%a, $1", "$2, %a", "%a, %a", "%a, %l", "%l, $0"};
  std::string X = E[sym_pick<unsigned>("operands", 0, 4)];
  go("define i32 @main() {\n %x = alloca i32\n %y = alloca i32\n store i32 $0, i32* %x\n %l = load i32, i32* %x\n %a = " + A +
         " i32 %l, $1\n store i32 %a, i32* %y\n %b = " + B + " i32 " + X +
         "\n store i32 %b, i32* %x\n %m = load i32, i32* %y\n %n = load i32, i32* %x\n ret i32 %n\n}\n",
     32, 3, 4);
}
// a branch that may or may not overwrite; uninitialised variables; copies
SYM_GOAL(branch) {
  static const char *T[] = {"store i32 $1, i32* %x", "store i32 $1, i32* %y", "%t = load i32, i32* %y\n store i32 %t, i32* %x",
                            "%t = load i32, i32* %x\n %u = add i32 %t, $1\n store i32 %u, i32* %x"};
  std::string A = T[sym_pick<unsigned>("then", 0, 3)], B = T[sym_pick<unsigned>("else", 0, 3)];
  B = ml::replaceAll(ml::replaceAll(ml::replaceAll(B, "$1", "$2"), "%t", "%t2"), "%u", "%u2");
  std::string Init = sym_pickbool("init") ? "store i32 $3, i32* %y\n" : "";
  go("declare i1 @input()\ndefine i32 @main() {\n %x = alloca i32\n %y = alloca i32\n store i32 $0, i32* %x\n " + Init +
         " %c = call i1 @input()\n br i1 %c, label %T, label %E\nT:\n " + A + "\n br label %J\nE:\n " + B +
         "\n br label %J\nJ:\n %r = load i32, i32* %x\n %s = load i32, i32* %y\n %q = add i32 %r, $3\n ret i32 %q\n}\n",
     32, 4);
}
SYM_GOAL(loop) {
  static const char *T[] = {"%t = load i32, i32* %x\n %u = add i32 %t, $1\n store i32 %u, i32* %x", "store i32 $1, i32* %x",
                            "%t = load i32, i32* %y\n store i32 %t, i32* %x\n store i32 $2, i32* %y",
                            "%t = load i32, i32* %x\n %u = xor i32 %t, $1\n store i32 %u, i32* %y"};
  std::string A = T[sym_pick<unsigned>("body", 0, 3)];
  go("declare i1 @input()\ndefine i32 @main() {\n %x = alloca i32\n %y = alloca i32\n store i32 $0, i32* %x\n store i32 $3, i32* %y\n"
     " br label %H\nH:\n %c = call i1 @input()\n br i1 %c, label %B, label %X\nB:\n " +
         A + "\n br label %H\nX:\n %r = load i32, i32* %x\n %s = load i32, i32* %y\n ret i32 %r\n}\n",
     32, 4);
}
// values in and out of calls
SYM_GOAL(calls) {
  static const char *Arg[] = {"$0", "%l", "$1"};
  std::string A = Arg[sym_pick<unsigned>("arg1", 0, 2)], B = Arg[sym_pick<unsigned>("arg2", 0, 2)];
  static const char *Ret[] = {"%p", "$3", "%s", "%q"};
  std::string Rv = Ret[sym_pick<unsigned>("ret", 0, 3)];
  go("define i32 @f(i32 %p, i32 %q) {\n %s = add i32 %p, $2\n ret i32 " + Rv +
         "\n}\ndefine i32 @main() {\n %x = alloca i32\n store i32 $0, i32* %x\n %l = load i32, i32* %x\n %r = call i32 @f(i32 " + A +
         ", i32 $1)\n %t = call i32 @f(i32 " + B + ", i32 $1)\n %u = add i32 %r, $3\n store i32 %t, i32* %x\n %v = load i32, i32* %x\n ret i32 %u\n}\n",
     32, 4);
}
// memory of the caller and globals written by callees
SYM_GOAL(pointers) {
  static const char *Body[] = {"store i32 $1, i32* %p", "%t = load i32, i32* %p\n %u = add i32 %t, $1\n store i32 %u, i32* %p",
                               "store i32 $1, i32* @g", "%t = load i32, i32* @g\n store i32 %t, i32* %p",
                               "%t = load i32, i32* %p\n store i32 %t, i32* @g", "%k = alloca i32\n store i32 $1, i32* %k"};
  std::string A = Body[sym_pick<unsigned>("body", 0, 5)], B;
  static const char *Act[] = {"%x", "%y", "@g"};
  std::string P1 = Act[sym_pick<unsigned>("actual1", 0, 2)], P2 = Act[sym_pick<unsigned>("actual2", 0, 2)];
  bool Mem = P1 == "@g" || P2 == "@g";
  if (Mem && A.find("@g") != std::string::npos)
    symrt_end(); // the same cell under two names: not tracked by design
  go("@g = global i32 $3\ndefine void @f(i32* %p) {\n " + A +
         "\n ret void\n}\ndefine i32 @main() {\n %x = alloca i32\n %y = alloca i32\n store i32 $0, i32* %x\n store i32 $2, i32* %y\n call void @f(i32* " +
         P1 + ")\n %m = load i32, i32* %x\n call void @f(i32* " + P2 +
         ")\n %l = load i32, i32* %x\n %n = load i32, i32* @g\n %o = load i32, i32* %y\n ret i32 %l\n}\n",
     32, 4);
}
SYM_GOAL(recursion) {
  static const char *Arg[] = {"%n", "%s", "$2"};
  std::string A = Arg[sym_pick<unsigned>("arg", 0, 2)];
  static const char *Ret[] = {"%r", "%n", "%s", "$3"};
  std::string Rv = Ret[sym_pick<unsigned>("ret", 0, 3)];
  std::string Base = Ret[sym_pick<unsigned>("base", 1, 3)];
  go("declare i1 @input()\ndefine i32 @f(i32 %n) {\n %s = add i32 %n, $1\n %c = call i1 @input()\n br i1 %c, label %T, label %E\nT:\n ret i32 " + Base +
         "\nE:\n %r = call i32 @f(i32 " + A + ")\n ret i32 " + Rv + "\n}\ndefine i32 @main() {\n %r = call i32 @f(i32 $0)\n %u = add i32 %r, $1\n ret i32 %u\n}\n",
     32, 4);
}
SYM_GOAL(intrinsics) {
  static const char *O[] = {"sadd.with.overflow", "uadd.with.overflow", "ssub.with.overflow", "usub.with.overflow"};
  std::string N = O[sym_pick<unsigned>("op", 0, 3)], D = "@llvm." + N + ".i32";
  unsigned Side = sym_pick<unsigned>("side", 0, 2);
  std::string E = Side == 0 ? "i32 %l, i32 $1" : Side == 1 ? "i32 $1, i32 %l" : "i32 $0, i32 $1";
  go("declare {i32, i1} " + D + "(i32, i32)\ndefine i32 @main() {\n %x = alloca i32\n store i32 $0, i32* %x\n %l = load i32, i32* %x\n %r = call {i32, i1} " +
         D + "(" + E + ")\n %v = extractvalue {i32, i1} %r, 0\n %o = extractvalue {i32, i1} %r, 1\n store i32 %v, i32* %x\n %m = load i32, i32* %x\n ret i32 %m\n}\n",
     32, 2);
}
SYM_GOAL(saturating) {
  static const char *O[] = {"sadd.sat", "uadd.sat", "ssub.sat", "usub.sat"};
  std::string N = O[sym_pick<unsigned>("op", 0, 3)], D = "@llvm." + N + ".i32";
  unsigned Side = sym_pick<unsigned>("side", 0, 2);
  std::string E = Side == 0 ? "i32 %l, i32 $1" : Side == 1 ? "i32 $1, i32 %l" : "i32 $0, i32 $1";
  go("declare i32 " + D + "(i32, i32)\ndefine i32 @main() {\n %x = alloca i32\n store i32 $0, i32* %x\n %l = load i32, i32* %x\n %v = call i32 " + D + "(" +
         E + ")\n store i32 %v, i32* %x\n %m = load i32, i32* %x\n ret i32 %m\n}\n",
     32, 2);
}

// addresses into an array, handed to a callee
SYM_GOAL(gep) {
  std::string K = std::to_string(sym_pick<unsigned>("index", 0, 1));
  static const char *Body[] = {"%l = load i32, i32* %q", "store i32 $2, i32* %q\n %l = load i32, i32* %q"};
  unsigned B = sym_pick<unsigned>("body", 0, 1);
  if (B == 1 && K == "0")
    symrt_end(); // the same cell under two names
  go("define i32 @f(i32* %p) {\n %q = getelementptr i32, i32* %p, i64 " + K + "\n " + Body[B] +
         "\n %m = load i32, i32* %p\n ret i32 %l\n}\ndefine i32 @main() {\n %a = alloca [2 x i32]\n %p0 = getelementptr [2 x i32], [2 x i32]* %a, i64 0, i64 0\n"
         " store i32 $0, i32* %p0\n"
         " %r = call i32 @f(i32* %p0)\n %u = add i32 %r, $0\n ret i32 %u\n}\n",
     32, 3);
}
// two expressions over a parameter meet at a join: the functions along both
// ways are compared and joined before the parameter is known
SYM_GOAL(join_ops) {
  static const char *Ops[] = {"add", "sub", "xor", "shl", "and"};
  std::string X[2], Y[2];
  for (unsigned I = 0; I < 2; ++I) {
    std::string Op = Ops[sym_pick<unsigned>("op", 0, I ? 4 : 1)];
    std::string K = sym_pickbool("other constant") ? "$1" : "$2";
    X[I] = Op + (sym_pickbool("constant first") ? " i32 " + K + ", %p" : " i32 %p, " + K);
  }
  bool Two = X[0].find("sub") == 0; // where order matters most
  go("declare i1 @input()\ndefine i32 @f(i32 %p) {\n %r = alloca i32\n %c = call i1 @input()\n br i1 %c, label %T, label %E\nT:\n %a = " + X[0] +
         "\n store i32 %a, i32* %r\n br label %J\nE:\n %b = " + X[1] +
         "\n store i32 %b, i32* %r\n br label %J\nJ:\n %v = load i32, i32* %r\n ret i32 %v\n}\ndefine i32 @main() {\n %x = call i32 @f(i32 $0)\n" +
         (Two ? " %z = call i32 @f(i32 $1)\n" : "") + " %y = add i32 %x, 0\n ret i32 %y\n}\n",
     32, 3);
}
