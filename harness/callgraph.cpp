// Call graphs: every call a run performs is an edge, edges are plausible, the
// graph is consistent in both directions and survives storing and loading.
#include "ptrinterp.h"
#include "phasar/ControlFlow/CallGraph.h"
#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
using namespace psr;
using I = const llvm::Instruction *;
using F = const llvm::Function *;
using Ty = CallGraphAnalysisType;
using Graph = CallGraph<I, F>;

template <class R, class X> static unsigned times(R &&Range, X Y) {
  unsigned N = 0;
  for (auto &&Z : Range)
    N += Z == Y;
  return N;
}
// both directions agree and nothing is listed twice
static void consistent(const Graph &G, const llvm::Module &M) {
  for (auto &Fn : M) {
    for (I CS : G.getCallersOf(&Fn)) {
      symrt_check(times(G.getCallersOf(&Fn), CS) == 1, "a caller is listed once");
      symrt_check(times(G.getCalleesOfCallAt(CS), &Fn) == 1, "a caller of a function has it as callee");
    }
    for (auto &Ins : llvm::instructions(Fn))
      for (F C : G.getCalleesOfCallAt(&Ins)) {
        symrt_check(times(G.getCalleesOfCallAt(&Ins), C) == 1, "a callee is listed once");
        symrt_check(times(G.getCallersOf(C), &Ins) == 1, "a callee has the call site as caller");
        symrt_check(times(G.getAllVertexFunctions(), C) == 1, "a callee is a vertex");
      }
  }
}
static F directCallee(I X) {
  auto *CB = llvm::dyn_cast<llvm::CallBase>(X);
  return CB ? llvm::dyn_cast<llvm::Function>(CB->getCalledOperand()->stripPointerCastsAndAliases()) : nullptr;
}
// the graph contains exactly what is reachable over its own edges
static void closed(const Graph &G, const std::vector<F> &Entries) {
  std::set<F> Reach;
  std::vector<F> WL;
  for (F E : Entries)
    if (!E->isDeclaration())
      WL.push_back(E);
  while (!WL.empty()) {
    F X = WL.back();
    WL.pop_back();
    if (!Reach.insert(X).second)
      continue;
    for (auto &Ins : llvm::instructions(X)) {
      if (!llvm::isa<llvm::CallBase>(Ins)) {
        symrt_check(G.getCalleesOfCallAt(&Ins).empty(), "only calls have callees");
        continue;
      }
      symrt_check(times(G.getAllVertexCallSites(), &Ins) == 1, "a call in a reachable function is a vertex");
      if (F D = directCallee(&Ins))
        symrt_check(G.getCalleesOfCallAt(&Ins).size() == 1 && G.getCalleesOfCallAt(&Ins)[0] == D, "a direct call has its callee only");
      for (F C : G.getCalleesOfCallAt(&Ins))
        WL.push_back(C);
    }
  }
  unsigned N = 0;
  for (F X : G.getAllVertexFunctions()) {
    symrt_check(Reach.count(X), "a function in the graph is reachable");
    ++N;
  }
  symrt_check(N == Reach.size(), "a reachable function is in the graph");
}
struct Built {
  LLVMProjectIRDB DB;
  LLVMTypeHierarchy TH;
  LLVMVFTableProvider VTP;
  Graph G;
  std::vector<F> Entries;
  Built(llvm::Module *M, Ty T, std::vector<std::string> Names = {"main"}, Soundness S = Soundness::Soundy)
      : DB(M), TH(DB), VTP(DB), G(buildLLVMBasedCallGraph(DB, T, llvm::ArrayRef<std::string>(Names), TH, VTP, nullptr, S)) {
    for (auto &N : Names)
      if (F X = M->getFunction(N))
        Entries.push_back(X);
    consistent(G, *M);
    closed(G, Entries);
  }
};
static void covers(const Graph &G, const PtrInterp &R) {
  for (auto [CS, C] : R.Calls)
    symrt_check(times(G.getCalleesOfCallAt(CS), C) == 1, "a call that a run performs is an edge");
  for (F X : R.Entered)
    symrt_check(times(G.getAllVertexFunctions(), X) == 1, "a function that a run enters is a vertex");
}
static void run(const Graph &G, const llvm::Module &M, const char *Main = "main") {
  PtrInterp R(M);
  R.run(M.getFunction(Main), {1});
  covers(G, R);
}
static Ty pickTy() {
  static const Ty T[] = {Ty::CHA, Ty::RTA, Ty::OTF};
  return T[sym_pick<unsigned>("algorithm", 0, 2)];
}

// ---- function pointers -----------------------------------------------------
// $T argument type, $F function pointer type
static std::string fpProgram(unsigned Src, unsigned Via, bool Obj) {
  const char *Source[] = {
      "  %fp = select i1 %c, $F @c1, $F @c2\n",
      "  %s = alloca $F\n  store $F @c1, $F* %s\n  br i1 %c, label %A, label %B\nA:\n  store $F @c2, $F* %s\n  br label %B\nB:\n  %fp = load $F, $F* %s\n",
      "  %ix = zext i1 %c to i64\n  %t = getelementptr [2 x $F], [2 x $F]* @tbl, i64 0, i64 %ix\n  %fp = load $F, $F* %t\n",
      "  %fp = call $F @get(i1 %c)\n",
      "  call void @set(i1 %c)\n  %fp = load $F, $F* @gp\n",
      "  %t = getelementptr %struct.Ops, %struct.Ops* @ops, i32 0, i32 1\n  %fp = load $F, $F* %t\n",
      "  %o = alloca %struct.Ops\n  %t = getelementptr %struct.Ops, %struct.Ops* %o, i32 0, i32 1\n  store $F @c2, $F* %t\n  %fp = load $F, $F* %t\n",
      "  %o = alloca %struct.Ops\n  call void @init(%struct.Ops* %o)\n  %t = getelementptr %struct.Ops, %struct.Ops* %o, i32 0, i32 0\n  %fp = load $F, $F* %t\n",
      "  %s = alloca [2 x $F]\n  %t0 = getelementptr [2 x $F], [2 x $F]* %s, i64 0, i64 0\n  store $F @c1, $F* %t0\n  %t1 = getelementptr [2 x $F], [2 x $F]* %s, i64 0, i64 1\n"
      "  store $F @c2, $F* %t1\n  %fp = load $F, $F* %t1\n",
      "  %fp = call $F @pick2($F @c1, $F @c2, i1 %c)\n",
  };
  const char *Use[] = {
      "  %r = call i32 %fp($T %a)\n",
      "  %r = call i32 @apply($F %fp, $T %a)\n",
      "  %r = call i32 @apply2($F %fp, $T %a)\n",
      "  store $F %fp, $F* @gq\n  %r = call i32 @useq($T %a)\n",
      "  %cb = bitcast $F %fp to i8*\n  %r = call i32 @applycast(i8* %cb, $T %a)\n",
      "  %fs = alloca $F\n  store $F %fp, $F* %fs\n  %r = call i32 @applyref($F* %fs, $T %a)\n",
  };
  std::string S =
      "%struct.Obj = type { i32, i32* }\n%struct.Ops = type { $F, $F }\n"
      "@tbl = constant [2 x $F] [$F @c1, $F @c2]\n@ops = global %struct.Ops { $F @c1, $F @c2 }\n@gp = global $F null\n@gq = global $F null\n"
      "define i32 @c1($T %x) {\n  ret i32 1\n}\ndefine i32 @c2($T %x) {\n  %r = call i32 @leaf()\n  ret i32 %r\n}\n"
      "define i32 @c3($T %x, i32 %y) {\n  ret i32 3\n}\ndefine i32 @leaf() {\n  ret i32 2\n}\n"
      "define $F @get(i1 %c) {\n  %x = select i1 %c, $F @c1, $F @c2\n  ret $F %x\n}\n"
      "define $F @pick2($F %p, $F %q, i1 %c) {\n  %x = select i1 %c, $F %p, $F %q\n  ret $F %x\n}\n"
      "define void @set(i1 %c) {\n  %x = select i1 %c, $F @c1, $F @c2\n  store $F %x, $F* @gp\n  ret void\n}\n"
      "define void @init(%struct.Ops* %o) {\n  %t = getelementptr %struct.Ops, %struct.Ops* %o, i32 0, i32 0\n  store $F @c1, $F* %t\n  ret void\n}\n"
      "define i32 @apply($F %f, $T %a) {\n  %r = call i32 %f($T %a)\n  ret i32 %r\n}\n"
      "define i32 @apply2($F %f, $T %a) {\n  %r = call i32 @apply($F %f, $T %a)\n  ret i32 %r\n}\n"
      "define i32 @applyref($F* %s, $T %a) {\n  %f = load $F, $F* %s\n  %r = call i32 %f($T %a)\n  ret i32 %r\n}\n"
      "define i32 @applycast(i8* %f, $T %a) {\n  %g = bitcast i8* %f to $F\n  %r = call i32 %g($T %a)\n  ret i32 %r\n}\n"
      "define i32 @useq($T %a) {\n  %f = load $F, $F* @gq\n  %r = call i32 %f($T %a)\n  ret i32 %r\n}\n"
      "declare i1 @cond()\n"
      "define i32 @main() {\n  %a = alloca $E\n  %c = call i1 @cond()\n";
  S += Source[Src];
  S += Use[Via];
  S += "  ret i32 %r\n}\n";
  S = ml::replaceAll(S, "$F", "i32 ($T)*");
  S = ml::replaceAll(S, "$T", "$E*");
  return ml::replaceAll(S, "$E", Obj ? "%struct.Obj" : "i32");
}
SYM_GOAL(function_pointers) {
  ml::quiet();
  unsigned Src = sym_pick<unsigned>("source", 0, 9), Via = sym_pick<unsigned>("use", 0, 5);
  bool Obj = sym_pickbool("argument");
  auto T = pickTy();
  if ((Src == 7 || Via == 5) && T == Ty::OTF)
    symrt_end(); // see through_memory
  ml::Prog P(fpProgram(Src, Via, Obj));
  Built B(P.M.get(), T);
  run(B.G, *P.M);
}

// handed over through memory that another function reaches through a pointer
SYM_GOAL(through_memory) {
  ml::quiet();
  bool Written = sym_pickbool("written by callee");
  unsigned Src = Written ? 7 : sym_pick<unsigned>("source", 0, 9), Via = Written ? sym_pick<unsigned>("use", 0, 5) : 5;
  ml::Prog P(fpProgram(Src, Via, sym_pickbool("argument")));
  Built B(P.M.get(), Ty::OTF);
  PtrInterp R(*P.M);
  R.run(P.M->getFunction("main"), {1});
  for (auto [CS, C] : R.Calls)
    symrt_check(times(B.G.getCalleesOfCallAt(CS), C) == 1, "points-to: a call through memory shared by two functions is an edge");
}

// ---- virtual calls ---------------------------------------------------------
// Up to four classes A..D in a chain or a tree, three virtual functions each of
// which every class may override (or leave pure in A).
struct Classes {
  unsigned N = 0;
  int Base[4] = {-1, 0, 0, 0};
  unsigned Own[4] = {7, 0, 0, 0}; // which functions the class defines
  bool PureInA = false;           // A::f0 is pure
  static std::string name(unsigned K) { return std::string(1, char('A' + K)); }
  static std::string ty(unsigned K) { return "%class." + name(K); }
  static std::string fn(unsigned K, unsigned J) { return "@_ZN1" + name(K) + "2f" + std::to_string(J) + "Ev"; }
  std::string impl(unsigned K, unsigned J) const {
    for (int X = int(K); X >= 0; X = Base[X])
      if (Own[X] >> J & 1)
        return X == 0 && J == 0 && PureInA ? "void ()* @__cxa_pure_virtual" : "i32 (" + ty(unsigned(X)) + "*)* " + fn(unsigned(X), J);
    abort();
  }
  std::string text() const {
    std::string S = "@_ZTVN10__cxxabiv117__class_type_infoE = external global i8*\n@_ZTVN10__cxxabiv120__si_class_type_infoE = external global i8*\n"
                    "declare void @__cxa_pure_virtual()\ndeclare noalias i8* @_Znwm(i64)\ndeclare i1 @cond()\n";
    for (unsigned K = 0; K < N; ++K) {
      auto C = name(K);
      S += ty(K) + " = type { " + (Base[K] < 0 ? "i32 (...)**" : ty(unsigned(Base[K]))) + (K % 2 ? ", i32" : "") + " }\n";
      S += "@_ZTS1" + C + " = constant [3 x i8] c\"1" + C + "\\00\"\n";
      std::string NameRef = "i8* getelementptr ([3 x i8], [3 x i8]* @_ZTS1" + C + ", i32 0, i32 0)";
      if (Base[K] < 0)
        S += "@_ZTI1" + C + " = constant { i8*, i8* } { i8* bitcast (i8** getelementptr (i8*, i8** @_ZTVN10__cxxabiv117__class_type_infoE, i64 2) to i8*), " + NameRef + " }\n";
      else {
        unsigned X = unsigned(Base[K]);
        S += "@_ZTI1" + C + " = constant { i8*, i8*, i8* } { i8* bitcast (i8** getelementptr (i8*, i8** @_ZTVN10__cxxabiv120__si_class_type_infoE, i64 2) to i8*), " + NameRef +
             ", i8* bitcast (" + (Base[X] < 0 ? "{ i8*, i8* }" : "{ i8*, i8*, i8* }") + "* @_ZTI1" + name(X) + " to i8*) }\n";
      }
      S += "@_ZTV1" + C + " = constant { [5 x i8*] } { [5 x i8*] [i8* null, i8* bitcast (" + (Base[K] < 0 ? "{ i8*, i8* }" : "{ i8*, i8*, i8* }") + "* @_ZTI1" + C + " to i8*)";
      for (unsigned J = 0; J < 3; ++J)
        S += ", i8* bitcast (" + impl(K, J) + " to i8*)";
      S += "] }\n";
      for (unsigned J = 0; J < 3; ++J)
        if (Own[K] >> J & 1 && !(K == 0 && J == 0 && PureInA))
          S += "define i32 " + fn(K, J) + "(" + ty(K) + "* %this) {\n  ret i32 " + std::to_string(K * 3 + J) + "\n}\n";
      // constructor
      S += "define void @_ZN1" + C + "C2Ev(" + ty(K) + "* %this) {\n";
      if (Base[K] >= 0)
        S += "  %b = bitcast " + ty(K) + "* %this to " + ty(unsigned(Base[K])) + "*\n  call void @_ZN1" + name(unsigned(Base[K])) + "C2Ev(" + ty(unsigned(Base[K])) + "* %b)\n";
      S += "  %v = bitcast " + ty(K) + "* %this to i32 (...)***\n  store i32 (...)** bitcast (i8** getelementptr inbounds ({ [5 x i8*] }, { [5 x i8*] }* @_ZTV1" + C +
           ", i32 0, inrange i32 0, i32 2) to i32 (...)**), i32 (...)*** %v\n  ret void\n}\n";
    }
    return S;
  }
  // code that creates an object of class K as %o<Id> of type Root*
  std::string create(unsigned K, unsigned Id, unsigned How, unsigned Root) const {
    auto O = std::to_string(Id);
    std::string S;
    if (How == 1)
      S = "  %m" + O + " = call i8* @_Znwm(i64 16)\n  %d" + O + " = bitcast i8* %m" + O + " to " + ty(K) + "*\n";
    else
      S = "  %d" + O + " = alloca " + ty(K) + "\n";
    S += "  call void @_ZN1" + name(K) + "C2Ev(" + ty(K) + "* %d" + O + ")\n";
    return S + "  %o" + O + " = bitcast " + ty(K) + "* %d" + O + " to " + ty(Root) + "*\n";
  }
  static std::string vcall(unsigned Root, unsigned J, const char *Obj, const char *Pre = "v") {
    std::string P = std::string("%") + Pre, FT = "i32 (" + ty(Root) + "*)*";
    return "  " + P + "b = bitcast " + ty(Root) + "* " + Obj + " to " + FT + "**\n  " + P + "t = load " + FT + "*, " + FT + "** " + P + "b\n  " + P + "g = getelementptr inbounds " + FT +
           ", " + FT + "* " + P + "t, i64 " + std::to_string(J) + "\n  " + P + "f = load " + FT + ", " + FT + "* " + P + "g\n  " + P + "r = call i32 " + P + "f(" + ty(Root) + "* " + Obj + ")\n";
  }
};
static Classes pickClasses(unsigned N, unsigned J) {
  Classes C;
  C.N = N;
  C.PureInA = J == 0 && sym_pickbool("abstract");
  for (unsigned K = 1; K < N; ++K) {
    C.Base[K] = int(sym_pick<unsigned>("base", 0, K - 1));
    C.Own[K] = (sym_pickbool("overrides") << J) | (K == 1 ? 2 >> J : 0);
    if (C.PureInA)
      C.Own[K] |= 1;
  }
  return C;
}
static bool isBaseOf(const Classes &C, unsigned B, unsigned D) {
  for (int X = int(D); X >= 0; X = C.Base[X])
    if (unsigned(X) == B)
      return true;
  return false;
}
// hierarchy and tables are those of the program
static void hierarchy(const Classes &C, const LLVMTypeHierarchy &TH, const LLVMVFTableProvider &VTP, const llvm::Module &M) {
  for (unsigned K = 0; K < C.N; ++K) {
    auto *T = TH.getType("class." + Classes::name(K));
    symrt_check(T && TH.hasType(T) && VTP.hasVFTable(T) && TH.getTypeName(T) == "class." + Classes::name(K), "every class is known");
    auto Sub = TH.getSubTypes(T);
    unsigned N = 0;
    for (unsigned L = 0; L < C.N; ++L) {
      auto *U = TH.getType("class." + Classes::name(L));
      symrt_check(Sub.count(U) == isBaseOf(C, K, L) && TH.isSubType(T, U) == isBaseOf(C, K, L), "subtypes are the classes derived from it");
      N += isBaseOf(C, K, L);
    }
    symrt_check(Sub.size() == N, "only classes of the program are subtypes");
    auto *VT = VTP.getVFTableOrNull(T);
    symrt_check(VT && VT->size() == 3, "the table has all virtual functions");
    for (unsigned J = 0; J < 3; ++J) {
      auto Impl = C.impl(K, J);
      F Fn = M.getFunction(Impl.substr(Impl.find('@') + 1));
      symrt_check(VT->getFunction(J) == Fn && VT->getIndex(Fn) == int(J), "the table entry is the final overrider");
    }
    symrt_check(VT->getFunction(3) == nullptr, "nothing beyond the table");
  }
}
SYM_GOAL(class_hierarchy) {
  ml::quiet();
  auto C = pickClasses(4, sym_pick<unsigned>("function", 0, 1));
  ml::Prog P(C.text());
  LLVMProjectIRDB DB(P.M.get());
  LLVMTypeHierarchy TH(DB);
  LLVMVFTableProvider VTP(DB);
  hierarchy(C, TH, VTP, *P.M);
  // store and load
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  TH.printAsJson(OS);
  LLVMTypeHierarchy TH2(DB, LLVMTypeHierarchyData::loadJsonString(OS.str()));
  hierarchy(C, TH2, VTP, *P.M);
}
SYM_GOAL(virtual_calls) {
  ml::quiet();
  unsigned J = sym_pick<unsigned>("function", 0, 2);
  auto C = pickClasses(3, J);
  unsigned K1 = sym_pick<unsigned>("class", C.PureInA, 2), K2 = sym_pickbool("class") ? 2 : C.PureInA;
  unsigned Use = sym_pick<unsigned>("use", 0, 3), How = Use & 1;
  static const Ty Ts[] = {Ty::CHA, Ty::RTA, Ty::DTA, Ty::OTF};
  auto T = Ts[sym_pick<unsigned>("algorithm", 0, 3)];
  std::string S = C.text();
  S += "define void @use(%class.A* %x) {\n" + Classes::vcall(0, J, "%x") + "  ret void\n}\n";
  S += "define %class.A* @make1() {\n" + C.create(K1, 1, 1, 0) + "  ret %class.A* %o1\n}\n";
  S += "define i32 @main() {\n  %c = call i1 @cond()\n" + (Use == 3 ? "  %o1 = call %class.A* @make1()\n" : C.create(K1, 1, How, 0)) + C.create(K2, 2, 0, 0) +
       "  %o = select i1 %c, %class.A* %o1, %class.A* %o2\n";
  if (Use == 0 || Use == 3)
    S += Classes::vcall(0, J, "%o");
  else if (Use == 1)
    S += "  call void @use(%class.A* %o)\n";
  else
    S += "  %s = alloca %class.A*\n  store %class.A* %o, %class.A** %s\n  %p = load %class.A*, %class.A** %s\n" + Classes::vcall(0, J, "%p");
  S += "  ret i32 0\n}\n";
  ml::Prog P(S);
  Built B(P.M.get(), T);
  run(B.G, *P.M);
  auto Impl = [&](unsigned K) -> F {
    auto N = C.impl(K, J);
    return P.M->getFunction(N.substr(N.find('@') + 1));
  };
  for (auto &Fn : *P.M)
    for (auto &X : llvm::instructions(Fn)) {
      auto *CB = llvm::dyn_cast<llvm::CallBase>(&X);
      if (!CB || directCallee(CB) || !times(B.G.getAllVertexFunctions(), &Fn))
        continue;
      symrt_check(isVirtualCall(CB, B.VTP), "a virtual call is recognised");
      unsigned N = 0;
      for (F Fn : B.G.getCalleesOfCallAt(CB)) {
        bool Any = false, Made = Fn == Impl(K1) || Fn == Impl(K2);
        for (unsigned K = 0; K < 3; ++K)
          Any |= Fn == Impl(K);
        symrt_check(Any && Fn->getName() != "__cxa_pure_virtual", "a virtual call has overriders as callees");
        symrt_check(T != Ty::RTA || Made, "only instantiated classes have callees");
        ++N;
      }
      std::set<F> All;
      for (unsigned K = 0; K < 3; ++K)
        if (Impl(K)->getName() != "__cxa_pure_virtual")
          All.insert(Impl(K));
      symrt_check(T != Ty::CHA || N == All.size(), "class hierarchy analysis has all overriders");
    }
}
// a second base class: its part of the table is not at the front
SYM_GOAL(second_base) {
  ml::quiet();
  bool Second = sym_pickbool("through second base"), OwnF = sym_pickbool("overrides"), OwnG = sym_pickbool("overrides");
  static const Ty Ts[] = {Ty::CHA, Ty::RTA, Ty::DTA, Ty::OTF};
  auto T = Ts[sym_pick<unsigned>("algorithm", 0, 3)];
  Classes C; // A and B stand alone
  C.N = 2;
  C.Base[1] = -1;
  C.Own[0] = C.Own[1] = 7;
  std::string S = C.text();
  std::string FT = "i32 (%class.M*)* ";
  auto Slot = [&](unsigned K, unsigned J) {
    bool O = (K ? OwnG : OwnF) && J == 0;
    return ", i8* bitcast (i32 (" + (O && !K ? std::string("%class.M") : Classes::ty(K)) + "*)* " + (O ? K ? "@_ZThn8_N1M2f0Ev" : "@_ZN1M2f0Ev" : Classes::fn(K, J)) + " to i8*)";
  };
  S += "@_ZTVN10__cxxabiv121__vmi_class_type_infoE = external global i8*\n@_ZTS1M = constant [3 x i8] c\"1M\\00\"\n"
       "@_ZTI1M = constant { i8*, i8*, i32, i32, i8*, i64, i8*, i64 } { i8* bitcast (i8** getelementptr (i8*, i8** @_ZTVN10__cxxabiv121__vmi_class_type_infoE, i64 2) to i8*), "
       "i8* getelementptr ([3 x i8], [3 x i8]* @_ZTS1M, i32 0, i32 0), i32 0, i32 2, i8* bitcast ({ i8*, i8* }* @_ZTI1A to i8*), i64 2, i8* bitcast ({ i8*, i8* }* @_ZTI1B to i8*), i64 2050 }\n"
       "%class.M = type { %class.A, %class.B }\n";
  std::string TI = "i8* bitcast ({ i8*, i8*, i32, i32, i8*, i64, i8*, i64 }* @_ZTI1M to i8*)";
  std::string VT = "{ [5 x i8*], [5 x i8*] }";
  S += "@_ZTV1M = constant " + VT + " { [5 x i8*] [i8* null, " + TI + Slot(0, 0) + Slot(0, 1) + Slot(0, 2) + "], [5 x i8*] [i8* inttoptr (i64 -8 to i8*), " + TI + Slot(1, 0) + Slot(1, 1) + Slot(1, 2) + "] }\n";
  S += "define i32 @_ZN1M2f0Ev(%class.M* %this) {\n  ret i32 7\n}\ndefine i32 @_ZThn8_N1M2f0Ev(%class.B* %this) {\n  ret i32 7\n}\n";
  auto Vt = [&](unsigned K, const char *To) {
    return "store i32 (...)** bitcast (i8** getelementptr inbounds (" + VT + ", " + VT + "* @_ZTV1M, i32 0, inrange i32 " + std::to_string(K) + ", i32 2) to i32 (...)**), i32 (...)*** " + To + "\n";
  };
  S += "define void @_ZN1MC2Ev(%class.M* %this) {\n  %a = bitcast %class.M* %this to %class.A*\n  call void @_ZN1AC2Ev(%class.A* %a)\n"
       "  %b = getelementptr %class.M, %class.M* %this, i32 0, i32 1\n  call void @_ZN1BC2Ev(%class.B* %b)\n  %va = bitcast %class.M* %this to i32 (...)***\n  " +
       Vt(0, "%va") + "  %vb = bitcast %class.B* %b to i32 (...)***\n  " + Vt(1, "%vb") + "  ret void\n}\n";
  S += "define i32 @main() {\n  %m = alloca %class.M\n  call void @_ZN1MC2Ev(%class.M* %m)\n";
  S += Second ? "  %o = getelementptr %class.M, %class.M* %m, i32 0, i32 1\n" + Classes::vcall(1, 0, "%o") : "  %o = bitcast %class.M* %m to %class.A*\n" + Classes::vcall(0, 0, "%o");
  S += "  ret i32 0\n}\n";
  ml::Prog P(S);
  Built B(P.M.get(), T);
  PtrInterp R(*P.M);
  R.run(P.M->getFunction("main"), {1});
  for (auto [CS, C] : R.Calls)
    if (Second)
      symrt_check(times(B.G.getCalleesOfCallAt(CS), C) == 1, "a virtual call through a second base class is an edge");
    else
      symrt_check(times(B.G.getCalleesOfCallAt(CS), C) == 1, "a virtual call through the first base class is an edge");
}
// where the object lives
SYM_GOAL(objects) {
  ml::quiet();
  auto C = pickClasses(3, 1);
  unsigned K = sym_pick<unsigned>("class", 1, 2), Where = sym_pick<unsigned>("where", 0, 5);
  static const Ty Ts[] = {Ty::CHA, Ty::RTA, Ty::DTA, Ty::OTF};
  auto T = Ts[sym_pick<unsigned>("algorithm", 0, 3)];
  const char *Loc[] = {
      "  %d1 = getelementptr $K, $K* @glob, i64 0\n",
      "  %arr = alloca [2 x $K]\n  %d1 = getelementptr [2 x $K], [2 x $K]* %arr, i64 0, i64 1\n",
      "  %box = alloca %struct.Box\n  %d1 = getelementptr %struct.Box, %struct.Box* %box, i32 0, i32 1\n",
      "  %m = call i8* @_Znwm(i64 64)\n  %bx = bitcast i8* %m to %struct.Box*\n  %d1 = getelementptr %struct.Box, %struct.Box* %bx, i32 0, i32 1\n",
      "  %m = call i8* @_Znwm(i64 64)\n  %m8 = getelementptr i8, i8* %m, i64 8\n  %d1 = bitcast i8* %m8 to $K*\n", // new T[n]
      "  %d1 = call $K* @get()\n",
  };
  std::string S = C.text() + "%struct.Box = type { i64, $K }\n@glob = global $K zeroinitializer\ndefine $K* @get() {\n  ret $K* @glob\n}\n" + "define i32 @main() {\n" + Loc[Where];
  S += "  call void @_ZN1" + Classes::name(K) + "C2Ev($K* %d1)\n  %o = bitcast $K* %d1 to %class.A*\n" + C.create(0, 2, 0, 0) + Classes::vcall(0, 1, "%o") +
       Classes::vcall(0, 1, "%o2", "w") + "  ret i32 0\n}\n";
  ml::Prog P(ml::replaceAll(S, "$K", Classes::ty(K)));
  Built B(P.M.get(), T);
  run(B.G, *P.M);
}
// function pointers called with an object that has a virtual table
SYM_GOAL(mixed_tables) {
  ml::quiet();
  auto C = pickClasses(2, 1);
  static const Ty Ts[] = {Ty::CHA, Ty::RTA, Ty::DTA, Ty::OTF};
  auto T = Ts[sym_pick<unsigned>("algorithm", 0, 3)];
  unsigned How = sym_pick<unsigned>("table", 0, 4), X = sym_pick<unsigned>("index", 0, 2);
  const char *Tab[] = {
      "  %t = getelementptr [3 x $F], [3 x $F]* @tab, i64 0, i64 $I\n  %fp = load $F, $F* %t\n",
      "  %t = getelementptr %struct.Ops, %struct.Ops* @ops, i32 0, i32 $I\n  %fp = load $F, $F* %t\n",
      "  %b = getelementptr [3 x $F], [3 x $F]* @tab, i64 0, i64 0\n  %t = getelementptr $F, $F* %b, i64 $I\n  %fp = load $F, $F* %t\n",
      "  %s = alloca $F*\n  %b = getelementptr [3 x $F], [3 x $F]* @tab, i64 0, i64 0\n  store $F* %b, $F** %s\n  %l = load $F*, $F** %s\n  %t = getelementptr $F, $F* %l, i64 $I\n"
      "  %fp = load $F, $F* %t\n",
      "  %t = getelementptr $F, $F* %pt, i64 $I\n  %fp = load $F, $F* %t\n",
  };
  std::string S = C.text();
  const char *Fs = "$F @h0, $F @h1, $F @h2";
  S += std::string("%struct.Ops = type { $F, $F, $F }\n@tab = constant [3 x $F] [") + Fs + "]\n@ops = global %struct.Ops { " + Fs + " }\n";
  for (unsigned J = 0; J < 3; ++J)
    S += "define i32 @h" + std::to_string(J) + "(%class.A* %x) {\n  ret i32 0\n}\n";
  S += "define i32 @go(%class.A* %o, $F* %pt) {\n" + std::string(Tab[How]) + "  %r = call i32 %fp(%class.A* %o)\n" + Classes::vcall(0, 1, "%o") + "  ret i32 %r\n}\n";
  S += "define i32 @main() {\n" + C.create(1, 1, 0, 0) +
       "  %b = getelementptr [3 x $F], [3 x $F]* @tab, i64 0, i64 0\n  %r = call i32 @go(%class.A* %o1, $F* %b)\n  ret i32 0\n}\n";
  S = ml::replaceAll(ml::replaceAll(S, "$F", "i32 (%class.A*)*"), "$I", std::to_string(X));
  ml::Prog P(S);
  Built B(P.M.get(), T);
  run(B.G, *P.M);
}

// ---- entry points, stored graphs -------------------------------------------
static std::string web(unsigned M0, unsigned F0, unsigned G0, bool Internal, bool Ptr) {
  auto Call = [](unsigned K) { return K == 0 ? std::string() : std::string("  call void @") + (K == 1 ? "f" : K == 2 ? "g" : K == 3 ? "h" : "ext") + "()\n"; };
  return "declare void @ext()\n@hp = global void ()* @h\ndefine i32 @main() {\n" + Call(M0) + "  ret i32 0\n}\ndefine " + (Internal ? "internal " : "") + "void @f() {\n" + Call(F0) +
         "  ret void\n}\ndefine void @g() {\n" + Call(G0) + (Ptr ? "  %p = load void ()*, void ()** @hp\n  call void %p()\n" : "") + "  ret void\n}\ndefine internal void @h() {\n  ret void\n}\n";
}
static void sameGraph(const Graph &A, const Graph &B, const llvm::Module &M) {
  symrt_check(A.getNumVertexFunctions() == B.getNumVertexFunctions(), "a loaded graph has the same functions");
  for (auto &Fn : M) {
    symrt_check(times(A.getAllVertexFunctions(), &Fn) == times(B.getAllVertexFunctions(), &Fn), "a loaded graph has the same functions");
    symrt_check(A.getCallersOf(&Fn).size() == B.getCallersOf(&Fn).size(), "a loaded graph has the same callers");
    for (I X : A.getCallersOf(&Fn))
      symrt_check(times(B.getCallersOf(&Fn), X) == 1, "a loaded graph has the same callers");
    for (auto &X : llvm::instructions(Fn)) {
      symrt_check(A.getCalleesOfCallAt(&X).size() == B.getCalleesOfCallAt(&X).size(), "a loaded graph has the same callees");
      for (F C : A.getCalleesOfCallAt(&X))
        symrt_check(times(B.getCalleesOfCallAt(&X), C) == 1, "a loaded graph has the same callees");
    }
  }
}
SYM_GOAL(entry_points) {
  ml::quiet();
  ml::Prog P(web(sym_pick<unsigned>("main calls", 0, 2), sym_pick<unsigned>("f calls", 0, 4), sym_pick<unsigned>("g calls", 0, 3), sym_pickbool("internal"), sym_pickbool("pointer")));
  static const std::vector<std::string> Es[] = {{"main"}, {"f"}, {"main", "g"}, {"__ALL__"}, {"nope"}, {"ext", "main"}};
  auto &E = Es[sym_pick<unsigned>("entries", 0, 5)];
  static const Ty Ts[] = {Ty::NORESOLVE, Ty::CHA, Ty::OTF};
  auto T = Ts[sym_pick<unsigned>("algorithm", 0, 2)];
  static const Soundness Ss[] = {Soundness::Unsound, Soundness::Soundy};
  auto Level = Ss[sym_pickbool("soundness")];
  LLVMProjectIRDB DB(P.M.get());
  LLVMBasedICFG G(&DB, T, E, nullptr, nullptr, Level, false);
  std::vector<F> Entries;
  for (auto &N : E)
    if (F Fn = P.M->getFunction(N))
      Entries.push_back(Fn);
  if (E[0] == "__ALL__")
    for (auto &Fn : *P.M)
      if (!Fn.isDeclaration() && Fn.hasExternalLinkage())
        Entries.push_back(&Fn);
  auto &CG = G.getCallGraph();
  consistent(CG, *P.M);
  closed(CG, Entries);
  if (T == Ty::NORESOLVE)
    for (auto &Fn : *P.M)
      for (auto &X : llvm::instructions(Fn))
        symrt_check(directCallee(&X) || CG.getCalleesOfCallAt(&X).empty(), "without resolution indirect calls have no callees");
  for (F Fn : Entries)
    if (!Fn->isDeclaration() && Fn->arg_empty() && T != Ty::NORESOLVE)
      run(CG, *P.M, Fn->getName().str().c_str());
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  G.printAsJson(OS);
  LLVMBasedICFG G2(&DB, CallGraphData::loadJsonString(OS.str()));
  sameGraph(CG, G2.getCallGraph(), *P.M);
}
SYM_GOAL(loaded) {
  ml::quiet();
  ml::Prog P(web(1, 2, 3, false, true));
  LLVMProjectIRDB DB(P.M.get());
  CallGraphData D;
  auto Id = sym_any<uint32_t>("instruction");
  D.FToFunctionVertexTy["f"] = {Id};
  D.FToFunctionVertexTy["g"] = {};
  if (sym_pickbool("unknown function"))
    D.FToFunctionVertexTy["nope"] = {Id};
  LLVMBasedICFG G(&DB, D);
  auto &CG = G.getCallGraph();
  F Fn = P.M->getFunction("f");
  symrt_check(CG.getNumVertexFunctions() == 2, "known functions are loaded");
  symrt_check(CG.getCallersOf(P.M->getFunction("g")).empty(), "no callers are invented");
  unsigned K = 0;
  bool Valid = false;
  for (auto &Fun : *P.M)
    for (auto &X : llvm::instructions(Fun)) {
      bool Is = symrt_conc(DB.getInstructionId(&X) == Id);
      Valid |= Is;
      symrt_check(times(CG.getCallersOf(Fn), &X) == Is, "the caller is the instruction with the stored id");
      symrt_check((CG.getCalleesOfCallAt(&X).size() == 1) == Is, "the callee is stored with the instruction");
    }
  symrt_check(CG.getCallersOf(Fn).size() == Valid, "unknown instructions are no callers");
  if (Valid)
    symrt_cover("valid id");
}
// the container alone
static void edges(unsigned Len) {
  CallGraphBuilder<unsigned, unsigned> B;
  B.reserve(3);
  std::set<std::pair<unsigned, unsigned>> Edges;
  std::set<unsigned> Sites, Fns;
  for (unsigned K = 0; K < Len; ++K) {
    unsigned CS = sym_pick<unsigned>("site", 1, 2), Fn = sym_pick<unsigned>("function", 11, 12);
    unsigned Op = sym_pick<unsigned>("operation", 0, 4);
    if (Op == 0) {
      symrt_check(B.addFunctionVertex(Fn) != nullptr, "vertex");
      Fns.insert(Fn);
      continue;
    }
    if (Op == 1) {
      auto *V = B.addInstructionVertex(CS);
      symrt_check(V && V == B.getInstVertexOrNull(CS), "vertex");
      Sites.insert(CS);
      continue;
    }
    if (!Edges.insert({CS, Fn}).second)
      symrt_end(); // callers add an edge once
    if (Op == 2)
      B.addCallEdge(CS, Fn);
    else if (Op == 3)
      B.addCallEdge(CS, B.addInstructionVertex(CS), Fn);
    else
      B.addCallEdge(CS, Fn, B.addFunctionVertex(Fn));
    Sites.insert(CS);
    Fns.insert(Fn);
  }
  auto Check = [&](const CallGraph<unsigned, unsigned> &G) {
    symrt_check(G.getNumVertexFunctions() == Fns.size() && G.size() == Fns.size() && G.empty() == Fns.empty(), "functions of the graph");
    symrt_check(G.getNumVertexCallSites() == Sites.size(), "call sites of the graph");
    for (unsigned X = 1; X <= 3; ++X)
      symrt_check(times(G.getAllVertexCallSites(), X) == Sites.count(X), "call sites of the graph");
    for (unsigned Y = 11; Y <= 13; ++Y)
      symrt_check(times(G.getAllVertexFunctions(), Y) == Fns.count(Y), "functions of the graph");
    for (unsigned X = 1; X <= 3; ++X)
      for (unsigned Y = 11; Y <= 13; ++Y) {
        symrt_check(times(G.getCalleesOfCallAt(X), Y) == Edges.count({X, Y}), "callees are the added edges");
        symrt_check(times(G.getCallersOf(Y), X) == Edges.count({X, Y}), "callers are the added edges");
      }
  };
  Check(B.viewCallGraph());
  auto G = B.consumeCallGraph();
  Check(G);
  auto G2 = std::move(G);
  Check(G2);
}
SYM_GOAL(edges3) { edges(3); }
SYM_GOAL(edges4) { edges(4); }
// ---- program start and end -------------------------------------------------
struct StartRun : PtrInterp {
  std::vector<std::string> Log, AtExit;
  using PtrInterp::PtrInterp;
  uint64_t external(const llvm::CallBase *CB, F Callee, const std::vector<uint64_t> &Args) override {
    if (Callee->getName() == "__cxa_atexit")
      AtExit.push_back(Fns[Args[0] & (FnTag - 1)]->getName().str());
    else if (Callee->getName() == "mark") {
      auto N = CB->getFunction()->getName().str();
      Log.push_back(N);
    } else
      return PtrInterp::external(CB, Callee, Args);
    return 0;
  }
};
SYM_GOAL(start_and_exit) {
  ml::quiet();
  static const unsigned Prio[] = {0, 100, 65535};
  std::string S = "%class.X = type { i32 }\n@x = global %class.X zeroinitializer\n@__dso_handle = external hidden global i8\n";
  unsigned NC = sym_pick<unsigned>("constructors", 0, 2), ND = sym_pick<unsigned>("destructors", 0, 2), NR = sym_pick<unsigned>("registered", 0, 2);
  bool Decl = sym_pickbool("declared first");
  std::string CxaDecl = "declare i32 @__cxa_atexit(void (i8*)*, i8*, i8*)\ndeclare void @mark()\n";
  if (Decl)
    S += CxaDecl;
  unsigned PC[2], PD[2];
  auto List = [&](const char *N, const char *Pre, unsigned Cnt, unsigned *Pr) {
    if (!Cnt)
      return;
    S += std::string("@llvm.") + N + " = appending global [" + std::to_string(Cnt) + " x { i32, void ()*, i8* }] [";
    for (unsigned K = 0; K < Cnt; ++K) {
      Pr[K] = Prio[sym_pick<unsigned>("priority", 0, 2)];
      S += (K ? ", " : "") + std::string("{ i32, void ()*, i8* } { i32 ") + std::to_string(Pr[K]) + ", void ()* @" + Pre + std::to_string(K) + ", i8* null }";
    }
    S += "]\n";
  };
  List("global_ctors", "ctor", NC, PC);
  List("global_dtors", "dtor", ND, PD);
  if (ND == 2 && PD[0] == PD[1])
    symrt_end(); // no order is defined
  for (unsigned K = 0; K < NR; ++K)
    S += "define internal void @__cxx_global_var_init" + (K ? "." + std::to_string(K) : std::string()) + "() {\n  %r = call i32 @__cxa_atexit(void (i8*)* bitcast (void (%class.X*)* @_ZN1X" + std::to_string(K) +
         "D2Ev to void (i8*)*), i8* bitcast (%class.X* @x to i8*), i8* @__dso_handle)\n  ret void\n}\ndefine void @_ZN1X" + std::to_string(K) + "D2Ev(%class.X* %this) {\n  call void @mark()\n  ret void\n}\n";
  for (unsigned K = 0; K < 2; ++K) {
    S += "define void @ctor" + std::to_string(K) + "() {\n  call void @mark()\n";
    if (K == 0)
      for (unsigned R = 0; R < NR; ++R)
        S += "  call void @__cxx_global_var_init" + (R ? "." + std::to_string(R) : std::string()) + "()\n";
    S += "  ret void\n}\ndefine void @dtor" + std::to_string(K) + "() {\n  call void @mark()\n  ret void\n}\n";
  }
  if (!Decl)
    S += CxaDecl;
  bool Args = sym_pickbool("main has arguments"), Two = sym_pickbool("two entry points");
  S += std::string("define i32 @main(") + (Args ? "i32 %argc, i8** %argv" : "") + ") {\n  call void @mark()\n  ret i32 0\n}\ndefine void @lib() {\n  call void @mark()\n  ret void\n}\n";
  if (!NC && NR)
    symrt_end();
  ml::Prog P(S);
  LLVMProjectIRDB DB(P.M.get());
  std::vector<std::string> Es{"main"};
  if (Two)
    Es.push_back("lib");
  LLVMBasedICFG G(&DB, Ty::CHA, Es, nullptr, nullptr, Soundness::Soundy, true);
  auto *Model = DB.getFunction(LLVMBasedICFG::GlobalCRuntimeModelName);
  symrt_check(Model && !Model->isDeclaration(), "the program start is modelled");
  consistent(G.getCallGraph(), *P.M);
  closed(G.getCallGraph(), {Model});
  StartRun R(*P.M);
  unsigned Which = Two ? sym_pick<unsigned>("entry", 0, 1) : 0;
  struct Sel : StartRun {
    using StartRun::StartRun;
    unsigned Which = 0;
    uint64_t external(const llvm::CallBase *CB, F Callee, const std::vector<uint64_t> &Args) override {
      return Callee->getName() == GlobalCtorsDtorsModel::UserEntrySelectorName ? Which : StartRun::external(CB, Callee, Args);
    }
  } X(*P.M);
  X.Which = Which;
  X.run(Model, {1, 0});
  covers(G.getCallGraph(), X);
  // what the C runtime does
  std::vector<std::string> Expect;
  auto Order = [&](const char *Pre, unsigned N, unsigned *Pr, bool Descending) {
    bool Swap = N == 2 && (Descending ? Pr[1] > Pr[0] : Pr[1] < Pr[0]);
    for (unsigned K = 0; K < N; ++K)
      Expect.push_back(Pre + std::to_string(Swap ? 1 - K : K));
  };
  Order("ctor", NC, PC, false);
  Expect.push_back(Which ? "lib" : "main");
  if (!Which) {
    for (unsigned K = NR; K-- > 0;)
      Expect.push_back("_ZN1X" + std::to_string(K) + "D2Ev");
    Order("dtor", ND, PD, true);
  }
  symrt_check(X.Log == Expect, "constructors, entry point and destructors run in the order of the C runtime");
  for (auto &Fn : *P.M)
    symrt_check(LLVMBasedICFG::isPhasarGenerated(Fn) == (Fn.getName().startswith("__psrCRuntime") || Fn.getName().startswith("__psrGlobal")), "generated functions are known");
}
