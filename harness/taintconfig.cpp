// Taint configurations: what is a source, a sink, or sanitised is exactly what
// the description, the annotations, or the callbacks say.
#include "minillvm.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"
#include <fstream>
#include <set>
#include <unistd.h>
using namespace psr;
using V = const llvm::Value *;
using Set = std::set<V>;

struct Want {
  Set Src, Snk, San;
  void add(V X, TaintCategory C) {
    if (C == TaintCategory::Source)
      Src.insert(X);
    if (C == TaintCategory::Sink)
      Snk.insert(X);
    if (C == TaintCategory::Sanitizer)
      San.insert(X);
  }
};
static void compare(const llvm::Module &M, const LLVMTaintConfig &TC, const Want &W) {
  auto Check = [&](V X) {
    symrt_check(TC.isSource(X) == (W.Src.count(X) > 0), "source values");
    symrt_check(TC.isSink(X) == (W.Snk.count(X) > 0), "sink values");
    symrt_check(TC.isSanitizer(X) == (W.San.count(X) > 0), "sanitizer values");
    auto C = TC.getCategory(X);
    bool Ok = C == TaintCategory::Source ? W.Src.count(X) : C == TaintCategory::Sink ? W.Snk.count(X) : C == TaintCategory::Sanitizer ? W.San.count(X)
                                                          : !(W.Src.count(X) || W.Snk.count(X) || W.San.count(X));
    symrt_check(Ok, "category of a value");
  };
  for (auto &G : M.globals())
    Check(&G);
  auto Seeds = TC.makeInitialSeeds();
  unsigned NumSeeds = 0;
  for (auto &F : M) {
    Check(&F);
    for (auto &A : F.args()) {
      Check(&A);
      if (W.Src.count(&A) && !F.isDeclaration()) {
        ++NumSeeds;
        auto *SP = &F.getEntryBlock().front();
        while (llvm::isa<llvm::DbgInfoIntrinsic>(SP))
          SP = SP->getNextNode();
        symrt_check(Seeds.count(SP) && Seeds[SP].count(&A), "a source parameter is a seed");
      }
    }
    for (auto &X : llvm::instructions(F)) {
      Check(&X);
      if (W.Src.count(&X)) {
        ++NumSeeds;
        symrt_check(Seeds.count(&X) && Seeds[&X].count(&X), "a source instruction is a seed");
      }
      // what happens at a statement
      std::vector<const llvm::Function *> Callees{nullptr};
      auto *CB = llvm::dyn_cast<llvm::CallBase>(&X);
      if (CB)
        for (auto &C : M)
          if (C.getFunctionType() == CB->getFunctionType())
            Callees.push_back(&C);
      for (auto *C : Callees) {
        Set Gen, Leak, San, G2, L2, S2;
        TC.forAllGeneratedValuesAt(&X, C, [&](V Y) { Gen.insert(Y); });
        TC.forAllLeakCandidatesAt(&X, C, [&](V Y) { Leak.insert(Y); });
        TC.forAllSanitizedValuesAt(&X, C, [&](V Y) { San.insert(Y); });
        if (C) {
          for (auto &A : C->args()) {
            V Y = CB->getArgOperand(A.getArgNo());
            if (W.Src.count(&A))
              G2.insert(Y);
            if (W.Snk.count(&A))
              L2.insert(Y);
            if (W.San.count(&A))
              S2.insert(Y);
          }
        } else {
          for (auto &U : X.operands())
            if (W.Src.count(U.get()))
              G2.insert(U.get());
        }
        if (W.Src.count(&X))
          G2.insert(&X);
        symrt_check(Gen == G2, "values generated at a statement");
        symrt_check(Leak == L2, "values that may leak at a statement");
        symrt_check(San == S2, "values sanitised at a statement");
        symrt_check(TC.generatesValuesAt(&X, C) == !Gen.empty(), "whether values are generated at a statement");
        symrt_check(TC.mayLeakValuesAt(&X, C) == !Leak.empty(), "whether values may leak at a statement");
        symrt_check(TC.sanitizesValuesAt(&X, C) == !San.empty(), "whether values are sanitised at a statement");
        if (C) {
          Set A, B, D;
          collectGeneratedFacts(A, TC, CB, C);
          collectLeakedFacts(B, TC, CB, C);
          collectSanitizedFacts(D, TC, CB, C);
          symrt_check(A == Gen && B == Leak && D == San, "what a call generates, leaks and sanitises");
        }
        symrt_cover("compared");
      }
    }
  }
  unsigned N = 0;
  for (auto &[_, S] : Seeds)
    N += S.size();
  symrt_check(N == NumSeeds, "seeds are sources");
}
static TaintCategory category(const char *N) {
  static const TaintCategory C[] = {TaintCategory::None, TaintCategory::Source, TaintCategory::Sink, TaintCategory::Sanitizer};
  return C[sym_pick<unsigned>(N, 0, 3)];
}
static std::vector<uint32_t> indices(const char *N, unsigned Max) {
  unsigned M = sym_pick<unsigned>(N, 0, (1u << Max) - 1);
  std::vector<uint32_t> R;
  for (unsigned K = 0; K < Max; ++K)
    if (M >> K & 1)
      R.push_back(K);
  return R;
}
static const char *FunText = "@fp = global i32 (i32*, i32)* @f\ndeclare i32 @h(i32*, i32)\ndeclare void @take(i32 (i32*, i32)*)\n"
                             "define void @main(i32 %n) {\n  %a = alloca i32\n  %1 = call i32 @f(i32* %a, i32 %n)\n  %2 = call i32 @h(i32* %a, i32 %1)\n"
                             "  call void @take(i32 (i32*, i32)* @f)\n  store i32 (i32*, i32)* @f, i32 (i32*, i32)** @fp\n"
                             "  %3 = load i32 (i32*, i32)*, i32 (i32*, i32)** @fp\n  %4 = call i32 %3(i32* %a, i32 %2)\n  %5 = add i32 %1, %2\n  ret void\n}\n";
SYM_GOAL(functions) {
  bool Def = sym_pickbool("defined"), Second = sym_pickbool("described twice");
  ml::Prog P(std::string(FunText) + (Def ? "define i32 @f(i32* %p, i32 %x) {\n  ret i32 %x\n}\n" : "declare i32 @f(i32*, i32)\n"));
  LLVMProjectIRDB DB(P.M.get(), true);
  auto *F = P.fn("f");
  TaintConfigData D;
  Want W;
  FunctionData FD;
  FD.Name = "f";
  FD.ReturnCat = category("return");
  // index 2 is out of bounds, and is ignored
  FD.SourceValues = indices("sources", Second ? 2 : 3);
  FD.SinkValues = indices("sinks", Second ? 2 : 3);
  FD.SanitizerValues = indices("sanitizers", Second ? 2 : 3);
  FD.HasAllSinkParam = sym_pickbool("all parameters are sinks");
  for (unsigned K = 0; K < 2; ++K) {
    if (llvm::is_contained(FD.SourceValues, K))
      W.Src.insert(F->getArg(K));
    if (llvm::is_contained(FD.SinkValues, K) || FD.HasAllSinkParam)
      W.Snk.insert(F->getArg(K));
    if (llvm::is_contained(FD.SanitizerValues, K))
      W.San.insert(F->getArg(K));
  }
  for (auto &X : llvm::instructions(P.fn("main")))
    if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&X))
      if (CB->getCalledOperand() == F)
        W.add(CB, FD.ReturnCat);
  D.Functions.push_back(FD);
  if (Second) {
    FunctionData G;
    G.Name = "h";
    G.ReturnCat = category("return of the second");
    G.SourceValues = {1};
    W.Src.insert(P.fn("h")->getArg(1));
    for (auto &X : llvm::instructions(P.fn("main")))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&X))
        if (CB->getCalledOperand() == P.fn("h"))
          W.add(CB, G.ReturnCat);
    D.Functions.push_back(G);
    FunctionData N;
    N.Name = "not_there";
    N.SinkValues = {0};
    D.Functions.push_back(N);
  }
  LLVMTaintConfig TC(DB, D);
  compare(*P.M, TC, W);
}
// members of structures, and local variables, by their debug information
static const char *VarText =
    "%struct.A = type { i32, i32 }\n%struct.B = type { i32, i32 }\n"
    "define void @main() !dbg !5 {\n  %v = alloca i32\n  %w = alloca i32\n  %a = alloca %struct.A\n  %b = alloca %struct.B\n"
    "  call void @llvm.dbg.declare(metadata i32* %v, metadata !10, metadata !DIExpression()), !dbg !20\n"
    "  call void @llvm.dbg.declare(metadata i32* %w, metadata !11, metadata !DIExpression()), !dbg !20\n"
    "  call void @llvm.dbg.declare(metadata %struct.A* %a, metadata !12, metadata !DIExpression()), !dbg !20\n"
    "  call void @llvm.dbg.declare(metadata %struct.B* %b, metadata !13, metadata !DIExpression()), !dbg !20\n"
    "  %x = getelementptr %struct.A, %struct.A* %a, i32 0, i32 0\n  %y = getelementptr %struct.A, %struct.A* %a, i32 0, i32 1\n"
    "  %x1 = getelementptr %struct.B, %struct.B* %b, i32 0, i32 0\n  %y2 = getelementptr %struct.B, %struct.B* %b, i32 0, i32 1\n"
    "  store i32 1, i32* %x\n  store i32 1, i32* %x1\n  ret void\n}\n"
    "declare void @llvm.dbg.declare(metadata, metadata, metadata)\n"
    "!llvm.dbg.cu = !{!0}\n!llvm.module.flags = !{!3}\n!0 = distinct !DICompileUnit(language: DW_LANG_C99, file: !1, emissionKind: FullDebug)\n"
    "!1 = !DIFile(filename: \"a.c\", directory: \"/\")\n!3 = !{i32 2, !\"Debug Info Version\", i32 3}\n"
    "!5 = distinct !DISubprogram(name: \"main\", scope: !1, file: !1, line: 1, type: !6, unit: !0, retainedNodes: !7, spFlags: DISPFlagDefinition)\n"
    "!6 = !DISubroutineType(types: !7)\n!7 = !{}\n!8 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n"
    "!10 = !DILocalVariable(name: \"x\", scope: !5, file: !1, line: 2, type: !8)\n"
    "!11 = !DILocalVariable(name: \"w\", scope: !5, file: !1, line: 3, type: !8)\n"
    "!12 = !DILocalVariable(name: \"a\", scope: !5, file: !1, line: 4, type: !14)\n"
    "!13 = !DILocalVariable(name: \"b\", scope: !5, file: !1, line: 5, type: !15)\n"
    "!14 = !DICompositeType(tag: DW_TAG_structure_type, name: \"A\", file: !1, line: 1, size: 64, elements: !16)\n"
    "!15 = !DICompositeType(tag: DW_TAG_structure_type, name: \"B\", file: !1, line: 1, size: 64, elements: !19)\n"
    "!16 = !{!17, !18}\n!17 = !DIDerivedType(tag: DW_TAG_member, name: \"x\", scope: !14, file: !1, line: 2, baseType: !8, size: 32)\n"
    "!18 = !DIDerivedType(tag: DW_TAG_member, name: \"y\", scope: !14, file: !1, line: 3, baseType: !8, size: 32, offset: 32)\n"
    "!19 = !{!21, !22}\n!20 = !DILocation(line: 2, scope: !5)\n!21 = !DIDerivedType(tag: DW_TAG_member, name: \"x\", scope: !15, file: !1, line: 2, baseType: !8, size: 32)\n"
    "!22 = !DIDerivedType(tag: DW_TAG_member, name: \"y\", scope: !15, file: !1, line: 3, baseType: !8, size: 32, offset: 32)\n";
SYM_GOAL(variables) {
  ml::Prog P(VarText);
  LLVMProjectIRDB DB(P.M.get(), true);
  TaintConfigData D;
  Want W;
  std::map<std::string, V> Named;
  for (auto &X : llvm::instructions(P.fn("main")))
    if (X.hasName())
      Named[X.getName().str()] = &X;
  unsigned N = sym_pick<unsigned>("variables", 0, 2);
  for (unsigned K = 0; K < N; ++K) {
    VariableData X;
    static const char *Names[] = {"x", "y", "w"}, *Scopes[] = {"A", "B", "main"};
    X.Name = Names[sym_pick<unsigned>("name", 0, 2)];
    X.Scope = Scopes[sym_pick<unsigned>("scope", 0, 2)];
    X.Line = sym_pick<unsigned>("line", 2, 3);
    X.Cat = category("category");
    if (X.Name == "x" && X.Line == 2)
      W.add(Named["v"], X.Cat);
    if (X.Name == "w" && X.Line == 3)
      W.add(Named["w"], X.Cat);
    if (X.Scope == "A" && X.Name != "w")
      W.add(Named[X.Name], X.Cat);
    if (X.Scope == "B" && X.Name != "w")
      W.add(Named[X.Name == "x" ? "x1" : "y2"], X.Cat);
    D.Variables.push_back(X);
  }
  LLVMTaintConfig TC(DB, D);
  compare(*P.M, TC, W);
}
// annotations in the code
SYM_GOAL(annotations) {
  static const char *Strs[] = {"psr.source", "psr.sink", "psr.sanitizer", "psr.unknown", "x"};
  static const TaintCategory Cats[] = {TaintCategory::Source, TaintCategory::Sink, TaintCategory::Sanitizer, TaintCategory::None, TaintCategory::None};
  std::string G, S;
  auto Pick = [&](const char *N) {
    unsigned K = sym_pick<unsigned>(N, 0, 4);
    return K;
  };
  auto Str = [&](unsigned K) {
    auto L = std::to_string(std::string(Strs[K]).size() + 1);
    return "i8* getelementptr ([" + L + " x i8], [" + L + " x i8]* @s" + std::to_string(K) + ", i32 0, i32 0)";
  };
  for (unsigned K = 0; K < 5; ++K) {
    auto L = std::to_string(std::string(Strs[K]).size() + 1);
    G += "@s" + std::to_string(K) + " = private constant [" + L + " x i8] c\"" + Strs[K] + "\\00\"\n";
  }
  unsigned What = sym_pick<unsigned>("what", 0, 7), A = Pick("annotation"), B = 3;
  std::string F = "i8* getelementptr ([2 x i8], [2 x i8]* @s4, i32 0, i32 0), i32 1", B1, B2, Glob;
  auto VA = [&](const std::string &X, unsigned K) { return "  call void @llvm.var.annotation(i8* " + X + ", " + Str(K) + ", " + F + ", i8* null)\n"; };
  auto Entry = [&](const std::string &X, unsigned K) { return "{ i8*, i8*, i8*, i32, i8* } { i8* " + X + ", " + Str(K) + ", " + F + ", i8* null }"; };
  std::string Fun = "bitcast (i32 (i32*)* @f to i8*)";
  std::vector<std::string> Entries;
  switch (What) {
  case 0: B1 = "  %c1 = bitcast i32* %a to i8*\n" + VA("%c1", A); break;
  case 1: B1 = VA("%b", A); break;
  case 2: B1 = "  store i32 %n, i32* %a\n  %c1 = bitcast i32* %a to i8*\n" + VA("%c1", A); break;
  case 3: B1 = "  store i8 %m, i8* %b\n" + VA("%b", A); break;
  case 4: Entries = {Entry(Fun, A)}; break;
  case 5: Entries = {Entry("bitcast (i32* @g to i8*)", A)}; break;
  case 6: B = Pick("annotation of the second"); Entries = {Entry("@h", A), Entry(Fun, B)}; break;
  case 7: B1 = "  %c1 = call i8* @llvm.ptr.annotation.p0i8(i8* %b, " + Str(A) + ", " + F + ", i8* null)\n"; break;
  }
  for (auto &E : Entries)
    Glob += (Glob.empty() ? "" : ", ") + E;
  if (!Entries.empty())
    Glob = "@llvm.global.annotations = appending global [" + std::to_string(Entries.size()) + " x { i8*, i8*, i8*, i32, i8* }] [" + Glob + "], section \"llvm.metadata\"\n";
  ml::Prog P(G + "@g = global i32 0\n@h = global i8 0\n" + Glob +
             "declare void @llvm.var.annotation(i8*, i8*, i8*, i32, i8*)\ndeclare i8* @llvm.ptr.annotation.p0i8(i8*, i8*, i8*, i32, i8*)\n"
             "declare i32 @f(i32*)\ndeclare void @take(i32 (i32*)*)\n"
             "define void @main(i32 %n, i8 %m) {\n  %a = alloca i32\n  %b = alloca i8\n" + B1 + "  %r = call i32 @f(i32* %a)\n  call void @take(i32 (i32*)* @f)\n  ret void\n}\n");
  LLVMProjectIRDB DB(P.M.get(), true);
  Want W;
  auto *Main = P.fn("main");
  V AllocA = nullptr, AllocB = nullptr, R = nullptr;
  for (auto &X : llvm::instructions(Main)) {
    if (X.getName() == "a")
      AllocA = &X;
    if (X.getName() == "b")
      AllocB = &X;
    if (X.getName() == "r")
      R = &X;
  }
  switch (What) {
  case 0: W.add(AllocA, Cats[A]); break;
  case 1: case 7: W.add(AllocB, Cats[A]); break;
  case 2: W.add(Main->getArg(0), Cats[A]); break;
  case 3: W.add(Main->getArg(1), Cats[A]); break;
  case 4: W.add(R, Cats[A]); break;
  case 5: W.add(P.M->getNamedGlobal("g"), Cats[A]); break;
  case 6: W.add(P.M->getNamedGlobal("h"), Cats[A]); W.add(R, Cats[B]); break;
  }
  LLVMTaintConfig TC(DB);
  compare(*P.M, TC, W);
}
SYM_GOAL(callbacks) {
  ml::Prog P(std::string(FunText) + "declare i32 @f(i32*, i32)\n");
  unsigned M = sym_pick<unsigned>("registered", 0, 7), At = sym_pick<unsigned>("at", 0, 8), What = sym_pick<unsigned>("values", 0, 7);
  V I0 = nullptr;
  unsigned N = 0;
  std::vector<const llvm::Instruction *> All;
  for (auto &X : llvm::instructions(P.fn("main")))
    All.push_back(&X);
  symrt_assume(At < All.size());
  Set Vals;
  if (What & 1)
    Vals.insert(All[At]);
  if (What & 2)
    Vals.insert(P.fn("main")->getArg(0));
  if (What & 4)
    Vals.insert(All[0]);
  auto CB = [&](const llvm::Instruction *X) { return X == All[At] ? Vals : Set(); };
  LLVMTaintConfig TC(M & 1 ? LLVMTaintConfig::TaintDescriptionCallBackTy(CB) : LLVMTaintConfig::TaintDescriptionCallBackTy(),
                     M & 2 ? LLVMTaintConfig::TaintDescriptionCallBackTy(CB) : LLVMTaintConfig::TaintDescriptionCallBackTy(),
                     M & 4 ? LLVMTaintConfig::TaintDescriptionCallBackTy(CB) : LLVMTaintConfig::TaintDescriptionCallBackTy());
  for (auto *X : All) {
    std::vector<const llvm::Function *> Cs{nullptr};
    auto *Call = llvm::dyn_cast<llvm::CallBase>(X);
    if (Call && Call->getFunctionType() == P.fn("f")->getFunctionType())
      Cs.push_back(P.fn("f"));
    for (auto *C : Cs) {
      Set Gen, Leak, San, Want = X == All[At] ? Vals : Set(), None;
      TC.forAllGeneratedValuesAt(X, C, [&](V Y) { Gen.insert(Y); });
      TC.forAllLeakCandidatesAt(X, C, [&](V Y) { Leak.insert(Y); });
      TC.forAllSanitizedValuesAt(X, C, [&](V Y) { San.insert(Y); });
      symrt_check(Gen == (M & 1 ? Want : None), "values generated by the callback");
      symrt_check(Leak == (M & 2 ? Want : None), "values leaked by the callback");
      symrt_check(San == (M & 4 ? Want : None), "values sanitised by the callback");
      symrt_check(TC.generatesValuesAt(X, C) == !Gen.empty() && TC.mayLeakValuesAt(X, C) == !Leak.empty() && TC.sanitizesValuesAt(X, C) == !San.empty(),
                  "whether something happens at a statement");
      if (C) {
        Set A, B, D;
        collectGeneratedFacts(A, TC, Call, C);
        collectLeakedFacts(B, TC, Call, C);
        collectSanitizedFacts(D, TC, Call, C);
        symrt_check(A == Gen && B == Leak && D == San, "what a call generates, leaks and sanitises");
      }
      symrt_cover("callback");
    }
  }
}
// descriptions in a file
SYM_GOAL(file) {
  static const char *CatNames[] = {"", "source", "sink", "sanitizer"};
  auto List = [](const std::vector<uint32_t> &Vs) {
    std::string S;
    for (auto X : Vs)
      S += (S.empty() ? "" : ",") + std::to_string(X);
    return S;
  };
  TaintConfigData D;
  std::string J;
  bool HasF = sym_pickbool("functions"), HasV = sym_pickbool("variables");
  if (HasF) {
    FunctionData F;
    F.Name = "f";
    F.SourceValues = indices("sources", 2);
    F.SinkValues = indices("sinks", 2);
    F.SanitizerValues = indices("sanitizers", 2);
    F.HasAllSinkParam = sym_pickbool("all");
    F.ReturnCat = category("return");
    std::string Ps, R;
    auto Add = [&](const char *N, std::string L) { Ps += (Ps.empty() ? "" : ",") + std::string("\"") + N + "\":[" + L + "]"; };
    if (!F.SourceValues.empty())
      Add("source", List(F.SourceValues));
    if (!F.SinkValues.empty() || F.HasAllSinkParam)
      Add("sink", List(F.SinkValues) + (F.HasAllSinkParam ? std::string(F.SinkValues.empty() ? "" : ",") + "\"all\"" : ""));
    if (!F.SanitizerValues.empty())
      Add("sanitizer", List(F.SanitizerValues));
    if (F.ReturnCat != TaintCategory::None)
      R = std::string(",\"ret\":\"") + to_string(F.ReturnCat).lower() + "\"";
    J += "\"functions\":[{\"name\":\"f\"" + R + ",\"params\":{" + Ps + "}},{\"name\":\"g\"}]";
    D.Functions.push_back(F);
    FunctionData G;
    G.Name = "g";
    D.Functions.push_back(G);
  }
  if (HasV) {
    VariableData X;
    X.Line = HasF ? 1 : sym_pick<unsigned>("line", 0, 1);
    X.Name = "v";
    X.Scope = HasF || sym_pickbool("scope") ? "main" : "";
    X.Cat = HasF ? TaintCategory::Sink : category("category");
    J += std::string(J.empty() ? "" : ",") + "\"variables\":[{\"line\":" + std::to_string(X.Line) + ",\"name\":\"v\"" +
         (X.Scope.empty() ? "" : ",\"scope\":\"main\"") + (X.Cat == TaintCategory::None ? "" : ",\"cat\":\"" + to_string(X.Cat).lower() + "\"") + "}]";
    D.Variables.push_back(X);
  }
  J = "{" + J + "}";
  std::string Path = "/tmp/taintconfig-" + std::to_string(getpid()) + ".json";
  std::ofstream(Path) << J;
  auto R = parseTaintConfigOrNull(Path);
  unlink(Path.c_str());
  symrt_check(R.has_value(), "a well-formed description is read");
  symrt_check(R->Functions.size() == D.Functions.size() && R->Variables.size() == D.Variables.size(), "number of entries");
  for (unsigned K = 0; K < D.Functions.size(); ++K) {
    auto &A = R->Functions[K], &B = D.Functions[K];
    symrt_check(A.Name == B.Name && A.ReturnCat == B.ReturnCat && A.SourceValues == B.SourceValues && A.SinkValues == B.SinkValues &&
                    A.SanitizerValues == B.SanitizerValues && A.HasAllSinkParam == B.HasAllSinkParam, "function that is read");
    symrt_cover("function");
  }
  for (unsigned K = 0; K < D.Variables.size(); ++K) {
    auto &A = R->Variables[K], &B = D.Variables[K];
    symrt_check(A.Name == B.Name && A.Line == B.Line && A.Scope == B.Scope && A.Cat == B.Cat, "variable that is read");
    symrt_cover("variable");
  }
}
SYM_GOAL(bad_file) {
  static const char *Bad[] = {"{\"functions\":[{\"name\":\"f\",\"ret\":\"nothing\"}]}", "{\"functions\":[{\"name\":\"f\",\"params\":{\"sink\":[\"most\"]}}]}",
                              "{\"variables\":[{\"name\":\"f\",\"cat\":\"nothing\"}]}", "{\"functions\":[", ""};
  unsigned K = sym_pick<unsigned>("text", 0, 5);
  std::string Path = "/tmp/taintconfig-" + std::to_string(getpid()) + ".json";
  if (K < 5)
    std::ofstream(Path) << Bad[K];
  auto R = parseTaintConfigOrNull(Path);
  if (K < 5)
    unlink(Path.c_str());
  symrt_check(!R.has_value(), "a malformed description is rejected");
  symrt_cover("rejected");
}
