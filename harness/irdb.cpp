// The program database: ids, lookups, ordering and source locations.
#include "minillvm.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/BasicBlockOrdering.h"
#include "phasar/PhasarLLVM/Utils/LLVMIRToSrc.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <algorithm>
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

// up to two globals and three functions, declared or defined with different bodies
static std::string program() {
  static const char *Glob[] = {"", "@g = global i32 1\n", "@g = global i32 1\n@h = external global i8*\n"};
  static const char *Body[] = {
      "declare void @N(i32, i8*)\n",
      "define void @N(i32 %0, i8* %1) {\n  ret void\n}\n",
      "define void @N(i32 %a, i8* %b) {\n  %c = icmp eq i32 %a, 0\n  br i1 %c, label %T, label %E\nT:\n  %s = alloca i32\n  store i32 %a, i32* %s\n  store i32 1, i32* %s\n  ret void\nE:\n  unreachable\n}\n"};
  static const char *Names[] = {"f", "n.1", "0"};
  unsigned N = sym_pick<unsigned>("functions", 0, 3);
  std::string T = Glob[sym_pick<unsigned>("globals", 0, 2)];
  for (unsigned K = 0; K < N; ++K) {
    std::string Nm = std::string("@\"") + Names[K] + "\"(";
    T += ml::replaceAll(Body[sym_pick<unsigned>("body", 0, 2)], "@N(", Nm);
  }
  return T;
}
static std::vector<V> inOrder(const llvm::Module &M) {
  std::vector<V> L;
  for (auto &G : M.globals())
    L.push_back(&G);
  for (auto &F : M)
    for (auto &X : llvm::instructions(F))
      L.push_back(&X);
  return L;
}
static void checkIds(const LLVMProjectIRDB &DB, const std::vector<V> &L, bool Meta) {
  unsigned G = 0;
  std::vector<I> Ins;
  for (size_t K = 0; K < L.size(); ++K) {
    if (auto *X = llvm::dyn_cast<llvm::Instruction>(L[K])) {
      Ins.push_back(X);
      symrt_check(DB.getInstructionId(X) == K, "ids count the instructions in program order");
      symrt_check(DB.getInstruction(K) == X, "an id leads back to its instruction");
    } else {
      ++G;
      symrt_check(DB.getInstruction(K) == nullptr, "a global is no instruction");
    }
    symrt_check(DB.getValueFromId(K) == L[K], "an id leads back to its value");
    if (Meta) {
      symrt_check(getMetaDataID(L[K]) == std::to_string(K), "the id in the program is the database's");
      symrt_check(fromMetaDataId(DB, std::to_string(K)) == L[K], "the id in the program leads back");
    }
  }
  symrt_check(DB.getNumInstructions() == Ins.size() && DB.getNumGlobals() == G, "counts");
  std::vector<I> All;
  for (auto *X : DB.getAllInstructions())
    All.push_back(X);
  symrt_check(All == Ins, "all instructions");
  // any other number belongs to nothing
  uint64_t Id = sym_any<uint64_t>("id");
  symrt_assume(Id >= L.size());
  symrt_check(DB.getInstruction(Id) == nullptr, "unknown id");
  symrt_check(DB.getValueFromId(Id) == nullptr, "unknown value id");
}
SYM_GOAL(ids) {
  ml::Prog P(program());
  bool Pre = sym_pickbool("preprocess");
  LLVMProjectIRDB DB(P.M.get(), Pre);
  symrt_check(DB.isValid() && DB.getModule() == P.M.get(), "valid");
  auto L = inOrder(*P.M);
  checkIds(DB, L, Pre);
  for (auto &F : *P.M) {
    for (auto &A : F.args()) {
      auto Id = getMetaDataID(&A);
      symrt_check(Id == F.getName().str() + "." + std::to_string(A.getArgNo()), "id of an argument");
      symrt_check(fromMetaDataId(DB, Id) == &A, "the id of an argument leads back");
    }
    auto Past = F.getName().str() + "." + std::to_string(F.arg_size());
    symrt_check(fromMetaDataId(DB, Past) == nullptr, "no such argument");
  }
  symrt_check(fromMetaDataId(DB, std::to_string(L.size())) == nullptr, "no such id");
  symrt_check(fromMetaDataId(DB, "-1") == nullptr && fromMetaDataId(DB, "") == nullptr && fromMetaDataId(DB, "zz.0") == nullptr &&
                  fromMetaDataId(DB, "f.x") == nullptr && fromMetaDataId(DB, "x") == nullptr,
              "not an id");
  // lookups
  unsigned N = 0;
  for (auto *F : DB.getAllFunctions()) {
    ++N;
    symrt_check(DB.getFunction(F->getName()) == F && DB.hasFunction(F->getName()), "function by name");
    symrt_check(DB.getFunctionDefinition(F->getName()) == (F->isDeclaration() ? nullptr : F), "function definition");
  }
  symrt_check(N == P.M->size() && DB.getNumFunctions() == N, "all functions");
  symrt_check(!DB.hasFunction("g") && !DB.getFunction("nope") && !DB.getFunctionDefinition("nope"), "unknown function");
  symrt_check(DB.getGlobalVariableDefinition("g") == P.M->getGlobalVariable("g") && !DB.getGlobalVariableDefinition("h"), "global definition");
  symrt_check(!DB.debugInfoAvailable(), "no debug info");
}
SYM_GOAL(inserted) {
  ml::Prog P(program() + "define i32 @late(i32 %z) {\n  %1 = add i32 %z, 1\n  ret i32 %1\n}\n");
  auto *Late = P.M->getFunction("late");
  Late->removeFromParent();
  std::vector<V> L;
  {
    LLVMProjectIRDB DB(P.M.get(), true);
    L = inOrder(*P.M);
    bool Front = sym_pickbool("front");
    if (Front)
      P.M->getFunctionList().push_front(Late);
    else
      P.M->getFunctionList().push_back(Late);
    bool Pre = sym_pickbool("preprocess");
    DB.insertFunction(Late, Pre);
    for (auto &X : llvm::instructions(Late))
      L.push_back(&X);
    checkIds(DB, L, Pre);
  }
}
// printing, parsing and loading again
SYM_GOAL(reloaded) {
  ml::Prog P(program());
  LLVMProjectIRDB DB(P.M.get(), true);
  auto L = inOrder(*P.M);
  std::string Text;
  llvm::raw_string_ostream OS(Text);
  DB.emitPreprocessedIR(OS);
  OS.flush();
  bool Broken = sym_pickbool("broken");
  if (Broken)
    Text += "define";
  auto Buf = llvm::MemoryBuffer::getMemBuffer(Text, "b");
  LLVMProjectIRDB DB2(Buf->getMemBufferRef());
  symrt_check(DB2.isValid() == !Broken && bool(DB2) == !Broken, "validity");
  if (Broken)
    return;
  auto L2 = inOrder(*DB2.getModule());
  symrt_check(L.size() == L2.size(), "same size");
  for (size_t K = 0; K < L2.size(); ++K)
    symrt_check(llvmIRToString(L[K]) == llvmIRToString(L2[K]), "the loaded program is the stored one");
  checkIds(DB2, L2, true);
}
// two databases in one process do not disturb each other
SYM_GOAL(two_databases) {
  ml::Prog P(program()), Q("@q = global i8 0\ndefine i8 @f() {\n  %1 = load i8, i8* @q\n  ret i8 %1\n}\n");
  auto A = std::make_unique<LLVMProjectIRDB>(P.M.get(), true);
  auto L = inOrder(*P.M);
  std::vector<std::string> S;
  for (V X : L)
    S.push_back(llvmIRToString(X));
  auto B = std::make_unique<LLVMProjectIRDB>(Q.M.get(), true);
  auto LQ = inOrder(*Q.M);
  auto SQ = llvmIRToString(LQ[1]);
  if (sym_pickbool("first goes away")) {
    A.reset();
    symrt_check(llvmIRToString(LQ[1]) == SQ, "printing after another database was deleted");
    checkIds(*B, LQ, true);
  } else {
    B.reset();
    for (size_t K = 0; K < L.size(); ++K)
      symrt_check(llvmIRToString(L[K]) == S[K], "printing after another database was deleted");
    checkIds(*A, L, true);
  }
}

SYM_GOAL(enumerations) {
  ml::Prog P(program());
  LLVMProjectIRDB DB(P.M.get(), true);
  unsigned N = sym_any<unsigned>("n");
  for (auto &F : *P.M) {
    const llvm::Argument *A = getNthFunctionArgument(&F, N);
    symrt_check(A ? getFunctionArgumentNr(A) == int(N) && A->getParent() == &F : N >= F.arg_size(), "n-th argument");
    std::vector<I> Ins, Term, St, Ex;
    std::vector<V> Gl;
    for (auto &X : llvm::instructions(F)) {
      Ins.push_back(&X);
      if (X.isTerminator())
        Term.push_back(&X);
      if (llvm::isa<llvm::StoreInst>(X))
        St.push_back(&X);
      if (llvm::isa<llvm::ReturnInst>(X))
        Ex.push_back(&X);
    }
    auto Nth = [N](const std::vector<I> &L) { return N >= 1 && N <= L.size() ? L[symrt_conc(N) - 1] : nullptr; };
    symrt_check(getNthInstruction(&F, N) == Nth(Ins), "n-th instruction");
    symrt_check(getNthTermInstruction(&F, N) == Nth(Term), "n-th terminator");
    symrt_check(getNthStoreInstruction(&F, N) == Nth(St), "n-th store");
    auto E = getAllExitPoints(&F);
    symrt_check(std::vector<I>(E.begin(), E.end()) == Ex, "exit points");
    if (!F.isDeclaration())
      symrt_check(getLastInstructionOf(&F) == Ins.back(), "last instruction");
    symrt_check(getModuleFromVal(&F) == P.M.get(), "module of a function");
    for (V X : Ins)
      symrt_check(getModuleFromVal(X) == P.M.get(), "module of an instruction");
  }
}

// the order by ids
static void orderOf(const std::vector<V> &L) {
  V A = L[sym_pick<unsigned>("a", 0, L.size() - 1)], B = L[sym_pick<unsigned>("b", 0, L.size() - 1)], C = L[sym_pick<unsigned>("c", 0, L.size() - 1)];
  LLVMValueIDLess Less;
  symrt_check(!Less(A, A), "irreflexive");
  symrt_check(!(Less(A, B) && Less(B, A)), "asymmetric");
  symrt_check(!(Less(A, B) && Less(B, C)) || Less(A, C), "transitive");
  symrt_check(A == B || Less(A, B) || Less(B, A), "different values are ordered");
  symrt_check(!(!Less(A, B) && !Less(B, A) && !Less(B, C) && !Less(C, B)) || (!Less(A, C) && !Less(C, A)), "incomparability is transitive");
}
static std::vector<V> orderWorld() {
  static std::unique_ptr<ml::Prog> PP;
  static std::unique_ptr<LLVMProjectIRDB> DBB;
  std::string T = "@g = global i32 1\n@h = external global i8*\ndefine void @f(i32 %a, i8* %b) {\n";
  for (int K = 0; K < 8; ++K)
    T += "  %v" + std::to_string(K) + " = add i32 %a, 1\n";
  T += "  ret void\n}\ndefine void @f2(i32 %a, i8* %b) {\n  ret void\n}\n";
  PP = std::make_unique<ml::Prog>(T);
  DBB = std::make_unique<LLVMProjectIRDB>(PP->M.get(), true);
  auto L = inOrder(*PP->M);
  for (auto &F : *PP->M)
    for (auto &A : F.args())
      L.push_back(&A);
  return L;
}
SYM_GOAL(order) { orderOf(orderWorld()); }
SYM_GOAL(order_of_instructions) {
  auto L = orderWorld();
  LLVMValueIDLess Less;
  unsigned X = sym_pick<unsigned>("x", 0, 11), Y = sym_pick<unsigned>("y", 0, 11);
  symrt_check(Less(L[X], L[Y]) == (X < Y), "instructions are ordered as in the program");
}

// an instruction that must come first comes first on every path
SYM_GOAL(must_come_before) {
  unsigned N = 4;
  std::string T = "declare i1 @c()\ndefine void @f() {\n";
  for (unsigned B = 0; B < N; ++B) {
    T += "B" + std::to_string(B) + ":\n  %x" + std::to_string(B) + " = call i1 @c()\n";
    unsigned K = B + 1 == N ? 0 : sym_pick<unsigned>("terminator", 0, 2);
    auto S = [&] { return "label %B" + std::to_string(sym_pick<unsigned>("successor", 1, N - 1)); };
    if (K == 0)
      T += "  ret void\n";
    else if (K == 1)
      T += "  br " + S() + "\n";
    else {
      auto X = S(), Y = S();
      T += "  br i1 %x" + std::to_string(B) + ", " + X + ", " + Y + "\n";
    }
  }
  T += "}\ndefine void @g() {\n  ret void\n}\n";
  ml::Prog P(T);
  auto *F = P.fn("f");
  std::vector<I> L;
  for (auto &X : llvm::instructions(F))
    L.push_back(&X);
  // which blocks can be entered when a given block is never left
  auto Reach = [&](const llvm::BasicBlock *Cut) {
    std::set<const llvm::BasicBlock *> R;
    std::vector<const llvm::BasicBlock *> W{&F->getEntryBlock()};
    while (!W.empty()) {
      auto *B = W.back();
      W.pop_back();
      if (!R.insert(B).second || B == Cut)
        continue;
      for (auto *S : llvm::successors(B))
        W.push_back(S);
    }
    return R;
  };
  BasicBlockOrdering O{DefaultDominatorTreeAnalysis()};
  auto All = Reach(nullptr);
  for (I A : L)
    for (I B : L) {
      if (!All.count(A->getParent()) || !All.count(B->getParent()))
        continue;
      bool Want;
      if (A->getParent() == B->getParent())
        Want = A != B && A->comesBefore(B);
      else
        Want = !Reach(A->getParent()).count(B->getParent());
      symrt_check(O.mustComeBefore(A, B) == Want, "must come before");
    }
  I G = &P.fn("g")->getEntryBlock().front();
  symrt_check(!O.mustComeBefore(G, L[0]) && !O.mustComeBefore(L[0], G), "other functions");
}

// source locations
SYM_GOAL(locations) {
  unsigned L[6], C[6];
  for (int K = 0; K < 6; ++K) {
    L[K] = 10 + 7 * K;
    C[K] = 3 + 2 * K;
  }
  unsigned At = sym_pick<unsigned>("which", 0, 5);
  L[At] = sym_pick<unsigned>("line", 0, 2) * 70000;
  C[At] = sym_pick<unsigned>("column", 0, 1) * 300;
  bool HasDeclare = sym_pickbool("variables are described"), HasLoc = sym_pickbool("instructions have locations"), Value = sym_pickbool("dbg.value");
  unsigned FileK = sym_pick<unsigned>("file", 0, 2);
  static const char *Fn[] = {"a.c", "/abs/a.c", "sub/a.c"}, *Full[] = {"/d/a.c", "/abs/a.c", "/d/sub/a.c"};
  auto S = [](unsigned X) { return std::to_string(X); };
  auto Loc = [&](unsigned K) { return ", !dbg !" + S(20 + K); };
  std::string T = "source_filename = \"src.c\"\n@g = global i32 1, !dbg !10\n@plain = global i32 1\n"
                  "declare void @llvm.dbg.declare(metadata, metadata, metadata)\ndeclare void @llvm.dbg.value(metadata, metadata, metadata)\n"
                  "define i32 @_Z1fi(i32 %p) !dbg !2 {\n  %pa = alloca i32\n  %l = alloca i32\n  store i32 %p, i32* %pa\n";
  if (HasDeclare)
    T += "  call void @llvm.dbg.declare(metadata i32* %pa, metadata !13, metadata !DIExpression())" + Loc(0) +
         "\n  call void @llvm.dbg.declare(metadata i32* %l, metadata !14, metadata !DIExpression())" + Loc(1) + "\n";
  T += "  %x = load i32, i32* %l" + (HasLoc ? Loc(2) : "") + "\n  %y = add i32 %x, 1" + (HasLoc ? Loc(3) : "") + "\n";
  if (Value)
    T += "  call void @llvm.dbg.value(metadata i32 %y, metadata !15, metadata !DIExpression())" + Loc(4) + "\n";
  T += "  ret i32 %y" + std::string(HasLoc ? Loc(5) : "") + "\n}\ndefine void @nodebug(i32 %q) {\n  ret void\n}\n";
  T += "!llvm.dbg.cu = !{!3}\n!llvm.module.flags = !{!0}\n!0 = !{i32 2, !\"Debug Info Version\", i32 3}\n"
       "!2 = distinct !DISubprogram(name: \"f\", linkageName: \"_Z1fi\", scope: !4, file: !4, line: 5, type: !6, scopeLine: 5, spFlags: DISPFlagDefinition, unit: !3)\n"
       "!3 = distinct !DICompileUnit(language: DW_LANG_C, file: !4, emissionKind: FullDebug)\n"
       "!4 = !DIFile(filename: \"" + std::string(Fn[FileK]) + "\", directory: \"/d\")\n!9 = !DIFile(filename: \"g.h\", directory: \"/inc\")\n"
       "!6 = !DISubroutineType(types: !7)\n!7 = !{null}\n!8 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n"
       "!10 = !DIGlobalVariableExpression(var: !11, expr: !DIExpression())\n!11 = distinct !DIGlobalVariable(name: \"gee\", scope: !3, file: !9, line: 77, type: !8)\n"
       "!13 = !DILocalVariable(name: \"pee\", arg: 1, scope: !2, file: !4, line: 1, type: !8)\n!14 = !DILocalVariable(name: \"ell\", scope: !2, file: !4, line: 2, type: !8)\n"
       "!15 = !DILocalVariable(name: \"why\", scope: !2, file: !4, line: 3, type: !8)\n";
  for (unsigned K = 0; K < 6; ++K)
    T += "!" + S(20 + K) + " = !DILocation(line: " + S(L[K]) + ", column: " + S(C[K]) + ", scope: !2)\n";
  ml::Prog P(T);
  LLVMProjectIRDB DB(P.M.get(), true);
  symrt_check(DB.debugInfoAvailable(), "debug info");
  auto *F = P.fn("_Z1fi");
  auto Expect = [&](V X, bool Has, unsigned Line, unsigned Col, std::string Name, std::string File, std::string Dir, std::string FName) {
    symrt_check(getLineFromIR(X) == (Has ? Line : 0) && getColumnFromIR(X) == (Has ? Col : 0), "line and column");
    symrt_check(getLineAndColFromIR(X) == std::make_pair(Has ? Line : 0, Has ? Col : 0), "line and column together");
    auto D = getDebugLocation(X);
    symrt_check(D.has_value() == Has, "debug location present");
    if (Has)
      symrt_check(D->Line == Line && D->Column == Col && D->File && getFilePathFromIR(D->File) == File, "debug location");
    symrt_check(getVarNameFromIR(X) == Name, "variable name");
    symrt_check(getDirectoryFromIR(X) == (Has ? Dir : ""), "directory");
    symrt_check((getDIFileFromIR(X) != nullptr) == Has, "file known");
    symrt_check(getFilePathFromIR(X) == (Has ? File : llvm::isa<llvm::GlobalVariable>(X) ? "" : "src.c"), "file");
    symrt_check(getFunctionNameFromIR(X) == FName, "function name");
    symrt_check(getModuleIDFromIR(X) == P.M->getModuleIdentifier(), "module");
    auto Info = getSrcCodeInfoFromIR(X);
    symrt_check(Info.Line == (Has ? Line : 0) && Info.Column == (Has ? Col : 0) && Info.SourceCodeFilename == getFilePathFromIR(X), "source info");
    symrt_check(Info.SourceCodeFunctionName == (FName == "_Z1fi" ? "f(int)" : FName), "readable function name");
  };
  auto *A = &*F->arg_begin();
  std::map<std::string, I> N;
  I Ret = nullptr;
  for (auto &X : llvm::instructions(F)) {
    N[X.getName().str()] = &X;
    if (llvm::isa<llvm::ReturnInst>(X))
      Ret = &X;
  }
  std::string File = Full[FileK];
  Expect(A, HasDeclare, L[0], C[0], HasDeclare ? "pee" : "", File, "/d", "_Z1fi");
  Expect(N["pa"], HasDeclare, L[0], C[0], HasDeclare ? "pee" : "", File, "/d", "_Z1fi");
  Expect(N["l"], HasDeclare, L[1], C[1], HasDeclare ? "ell" : "", File, "/d", "_Z1fi");
  Expect(N["x"], HasLoc, L[2], C[2], "", File, "/d", "_Z1fi");
  if (Value)
    Expect(N["y"], true, L[4], C[4], "why", File, "/d", "_Z1fi");
  else
    Expect(N["y"], HasLoc, L[3], C[3], "", File, "/d", "_Z1fi");
  Expect(Ret, HasLoc, L[5], C[5], "", File, "/d", "_Z1fi");
  Expect(F, true, 5, 0, "", File, "/d", "_Z1fi");
  Expect(P.M->getGlobalVariable("g"), true, 77, 0, "gee", "/inc/g.h", "/inc", "");
  Expect(P.M->getGlobalVariable("plain"), false, 0, 0, "", "", "", "");
  Expect(P.fn("nodebug"), false, 0, 0, "", "", "", "nodebug");
  Expect(&*P.fn("nodebug")->arg_begin(), false, 0, 0, "", "", "", "nodebug");
  symrt_cover("locations");
}
static SourceCodeInfo anyInfo() {
  static const char *Code[] = {"", "x = 1;"}, *File[] = {"", "a.c", "/d/a.c", "/e/a.c", "ba.c", "/d/b.c"}, *Fn[] = {"f()", "g\"()"};
  SourceCodeInfo S;
  S.SourceCodeLine = Code[sym_pick<unsigned>("code", 0, 1)];
  S.SourceCodeFilename = File[sym_pick<unsigned>("file", 0, 5)];
  S.SourceCodeFunctionName = Fn[sym_pick<unsigned>("function", 0, 1)];
  S.Line = sym_pick<unsigned>("line", 0, 1);
  S.Column = sym_pick<unsigned>("column", 0, 1);
  return S;
}
SYM_GOAL(source_info) {
  auto A = anyInfo(), B = anyInfo();
  bool Same = A.SourceCodeLine == B.SourceCodeLine && A.Line == B.Line && A.Column == B.Column;
  symrt_check((A == B) == (Same && A.SourceCodeFilename == B.SourceCodeFilename) && (A != B) == !(A == B), "equality");
  auto Base = [](const std::string &F) { return F.substr(F.rfind('/') + 1); };
  if (!A.SourceCodeFilename.empty() && !B.SourceCodeFilename.empty())
    symrt_check(A.equivalentWith(B) == (Same && A.SourceCodeFunctionName == B.SourceCodeFunctionName && Base(A.SourceCodeFilename) == Base(B.SourceCodeFilename)),
                "equivalence up to the directory");
  symrt_check(A.empty() == A.SourceCodeLine.empty(), "empty");
}
SYM_GOAL(source_info_stored) {
  auto A = anyInfo();
  A.Line = sym_pick<unsigned>("big line", 0, 1) ? 4000000000u : 7;
  auto C = nlohmann::json::parse(nlohmann::json(A).dump()).get<SourceCodeInfo>();
  symrt_check(C == A && C.SourceCodeFunctionName == A.SourceCodeFunctionName, "a stored source location is loaded again");
}
