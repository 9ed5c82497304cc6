// The ready-made mapping of data-flow facts at call sites and stores.
#include "minillvm.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using Set = std::set<V>;

// An arbitrary relation on values, fixed on first use of each pair.
struct Rel {
  struct Tab {
    std::map<std::pair<V, V>, bool> T;
    const char *N;
  };
  std::shared_ptr<Tab> T;
  Rel(const char *N) : T(new Tab{{}, N}) {}
  bool operator()(V A, V B) const {
    auto It = T->T.find({A, B});
    if (It == T->T.end())
      It = T->T.emplace(std::make_pair(A, B), sym_pickbool(T->N)).first;
    return It->second;
  }
};

struct World {
  ml::Prog P;
  const llvm::Function *Caller, *Callee;
  const llvm::CallBase *CS = nullptr;
  const llvm::Instruction *Exit = nullptr;
  std::vector<V> All;
  static std::string text(unsigned NP, unsigned NA, const unsigned *Arg, bool SRet, bool Void, unsigned ExitK, bool Decl, bool VaList, bool Invoke) {
    static const char *Pool[] = {"%l", "%m", "@g", "null", "bitcast (i64* @h to i8*)", "%q"};
    bool VarArg = NA > NP;
    std::string T = "%struct.__va_list_tag = type { i32, i32, i8*, i8* }\n%S = type { i32 }\n@g = global i8 0\n@h = global i64 0\n"
                    "declare i32 @pers(...)\n";
    std::string Ret = Void ? "void" : "i8*";
    std::string Params;
    if (SRet)
      Params = "%S* sret(%S) %r";
    for (unsigned I = 0; I < NP; ++I)
      Params += (Params.empty() ? "" : ", ") + std::string("i8*") + (Decl ? "" : " %p" + std::to_string(I));
    if (VarArg)
      Params += Params.empty() ? "..." : ", ...";
    if (Decl)
      T += "declare " + Ret + " @f(" + ml::replaceAll(Params, "sret(%S) %r", "sret(%S)") + ")\n";
    else {
      T += "define " + Ret + " @f(" + Params + ") personality i32 (...)* @pers {\n  %x = alloca i8\n";
      if (VaList)
        T += "  %va = alloca [1 x %struct.__va_list_tag], align 16\n";
      if (ExitK == 3)
        T += "  %lp = landingpad { i8*, i32 } cleanup\n  resume { i8*, i32 } %lp\n}\n", T = ml::replaceAll(T, "  %lp = landingpad { i8*, i32 } cleanup\n  resume { i8*, i32 } %lp\n", "  resume { i8*, i32 } undef\n");
      else if (Void)
        T += "  ret void\n}\n";
      else
        T += std::string("  ret i8* ") + (ExitK == 0 ? "%x" : ExitK == 1 ? (NP ? "%p0" : "null") : "@g") + "\n}\n";
    }
    std::string FT = Ret + " (" + (SRet ? "%S*" : "");
    for (unsigned I = 0; I < NP; ++I)
      FT += (I || SRet ? ", " : "") + std::string("i8*");
    FT += (VarArg ? (NP || SRet ? ", ..." : "...") : "") + std::string(")");
    std::string Args = SRet ? "%S* sret(%S) %s" : "";
    for (unsigned I = 0; I < NA; ++I)
      Args += (Args.empty() ? "" : ", ") + std::string("i8* ") + Pool[Arg[I]];
    T += "define void @c(i8* %q) personality i32 (...)* @pers {\n  %l = alloca i8\n  %m = alloca i8\n  %s = alloca %S\n  ";
    if (!Void)
      T += "%res = ";
    T += std::string(Invoke ? "invoke " : "call ") + FT + " @f(" + Args + ")";
    if (Invoke)
      T += " to label %n unwind label %u\nu:\n  %lp = landingpad { i8*, i32 } cleanup\n  ret void\nn:\n";
    T += "\n  ret void\n}\n";
    return T;
  }
  World(const std::string &T) : P(T) {
    Caller = P.fn("c");
    Callee = P.fn("f");
    for (auto &F : *P.M) {
      for (auto &A : F.args())
        All.push_back(&A);
      for (auto &I : llvm::instructions(F)) {
        if (!I.getType()->isVoidTy())
          All.push_back(&I);
        if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I)) {
          CS = CB;
          for (auto &A : CB->args())
            if (llvm::isa<llvm::Constant>(A.get()) && !llvm::isa<llvm::GlobalVariable>(A.get()) && !llvm::is_contained(All, A.get()))
              All.push_back(A.get());
        }
      }
      if (&F == Callee && !F.isDeclaration())
        Exit = F.back().getTerminator();
    }
    for (auto &G : P.M->globals())
      All.push_back(&G);
    All.push_back(LLVMZeroValue::getInstance());
  }
  V pick(const char *N) const { return All[sym_pick<unsigned>(N, 0, All.size() - 1)]; }
};
static bool zero(V X) { return X == LLVMZeroValue::getInstance(); }
static bool global(V X) { return llvm::isa<llvm::Constant>(X) && !zero(X); }

static World world(const unsigned (*Shapes)[2], unsigned N, bool WantExit) {
  auto *Sh = Shapes[sym_pick<unsigned>("shape", 0, N - 1)];
  unsigned NP = Sh[0], NA = Sh[1];
  unsigned Arg[4];
  for (unsigned I = 0; I < NA; ++I)
    Arg[I] = sym_pick<unsigned>("arg", 0, NA > NP ? 1 : 3) + 1; // one of %m @g null constexpr
  // which kinds of call are looked at: with struct return, without a result
  unsigned K = sym_pick<unsigned>("kind", 0, 2);
  bool SRet = K == 2, Void = K >= 1;
  unsigned ExitK = WantExit ? sym_pick<unsigned>("exit", 0, 3) : 0;
  if (Void && (ExitK == 1 || ExitK == 2))
    symrt_end();
  bool Decl = !WantExit && NA == NP && sym_pickbool("declared only");
  bool VaList = NA > NP && sym_pickbool("uses va_list");
  return World(World::text(NP, NA, Arg, SRet, Void, ExitK, Decl, VaList, ExitK == 3));
}
static const unsigned Fixed[][2] = {{0, 0}, {1, 1}, {2, 2}};
static const unsigned Variadic[][2] = {{0, 1}, {1, 2}, {0, 2}};
// half of the option combinations suffice: each option on its own and all
static void options(bool &PG, bool &PZ) {
  unsigned O = sym_pick<unsigned>("options", 0, 2);
  PG = O != 1;
  PZ = O != 2;
}

// the ways to configure the callee mapping
static void callee(const unsigned (*Sh)[2]) {
  auto W = world(Sh, 3, false);
  bool PG, PZ;
  options(PG, PZ);
  bool Def = sym_pickbool("default predicate");
  Rel R("pass");
  auto FF = Def ? mapFactsToCallee<V, Set>(W.CS, W.Callee, std::equal_to<V>(), DefaultConstruct<V>(), PG, PZ)
                : mapFactsToCallee<V, Set>(W.CS, W.Callee, R, DefaultConstruct<V>(), PG, PZ);
  for (int Rep = 0; Rep < 1; ++Rep) {
    V S = W.pick("fact");
    auto Got = FF->computeTargets(S);
    Set Want;
    if (!W.Callee->isDeclaration()) {
      if (zero(S) ? PZ : global(S) && PG)
        Want.insert(S);
      auto Pred = [&](V A) { return Def ? A == S : R(A, S); };
      bool Rest = false;
      for (unsigned I = 0; I < W.CS->arg_size(); ++I) {
        if (I == 0 && W.CS->hasStructRetAttr())
          continue;
        if (I < W.Callee->arg_size()) {
          if (Pred(W.CS->getArgOperand(I)))
            Want.insert(W.Callee->getArg(I));
        } else if (!Rest)
          Rest = Pred(W.CS->getArgOperand(I));
      }
      if (Rest)
        for (auto &I : llvm::instructions(W.Callee))
          if (I.getName() == "va")
            Want.insert(&I);
    }
    symrt_check(Got == Want, "facts entering the callee");
    if (!Got.empty())
      symrt_cover("something enters the callee");
  }
}
SYM_GOAL(to_callee) { callee(Fixed); }
SYM_GOAL(to_callee_varargs) { callee(Variadic); }

static void caller(const unsigned (*Sh)[2]) {
  auto W = world(Sh, 3, true);
  bool PG, PZ;
  options(PG, PZ);
  unsigned Mode = sym_pick<unsigned>("predicates", 0, 2);
  Rel RP("pass parameter"), RR("pass result");
  unsigned Post = 0;
  auto Fn = [&Post](Set &) { ++Post; };
  auto FF = Mode == 0   ? mapFactsToCaller<V, Set>(W.CS, W.Exit, std::equal_to<V>(), std::equal_to<V>(), DefaultConstruct<V>(), PG, PZ, Fn)
            : Mode == 1 ? mapFactsToCaller<V, Set>(W.CS, W.Exit, RP, std::equal_to<V>(), DefaultConstruct<V>(), PG, PZ, Fn)
                        : mapFactsToCaller<V, Set>(W.CS, W.Exit, std::equal_to<V>(), RR, DefaultConstruct<V>(), PG, PZ, Fn);
  V S = W.pick("fact");
  auto Got = FF->computeTargets(S);
  Set Want;
  if (zero(S) ? PZ : global(S) && PG)
    Want.insert(S);
  auto Pred = [&](V A) { return Mode == 1 ? RP(A, S) : A == S; };
  V Va = nullptr;
  for (auto &I : llvm::instructions(W.Callee))
    if (I.getName() == "va")
      Va = &I;
  for (unsigned I = 0; I < W.CS->arg_size(); ++I)
    if (I < W.Callee->arg_size() ? Pred(W.Callee->getArg(I)) : Va && Pred(Va))
      Want.insert(W.CS->getArgOperand(I));
  if (auto *Ret = llvm::dyn_cast<llvm::ReturnInst>(W.Exit))
    if (auto *RV = Ret->getReturnValue())
      if (Mode == 2 ? RR(RV, S) : RV == S)
        Want.insert(W.CS);
  symrt_check(Got == Want, "facts returning to the caller");
  symrt_check(Post == 1, "results are handed to the post-processing once");
  if (!Got.empty())
    symrt_cover("something returns to the caller");
}
SYM_GOAL(to_caller) { caller(Fixed); }
SYM_GOAL(to_caller_varargs) { caller(Variadic); }

SYM_GOAL(alongside) {
  static const unsigned Sh[][2] = {{1, 1}, {2, 2}, {1, 2}};
  auto W = world(Sh, 3, false);
  bool PG = sym_pickbool("globals");
  bool Def = sym_pickbool("default predicate");
  Rel R("keep");
  auto Keep = [R](V A) { return R(A, A); };
  auto FF = Def ? mapFactsAlongsideCallSite<V, Set>(W.CS, TrueFn(), PG) : FlowFunctionPtrType<V, Set>(mapFactsAlongsideCallSite<V, Set>(W.CS, Keep, PG));
  for (int Rep = 0; Rep < 1; ++Rep) {
    V S = W.pick("fact");
    auto Got = FF->computeTargets(S);
    bool IsArg = false;
    for (auto &A : W.CS->args())
      IsArg |= A.get() == S;
    Set Want{S};
    if (zero(S)) {
      symrt_check(Got == Want, "the zero fact passes a call");
      continue;
    }
    if (global(S) && IsArg && PG && !Def) // both rules apply
      continue;
    if (global(S) ? !PG : IsArg && !Def && !Keep(S))
      Want.clear();
    symrt_check(Got == Want, "facts passing a call");
  }
}

SYM_GOAL(stores) {
  static const char *Ptrs[] = {"%a", "%pp", "@gp", "%c2", "%z"};
  static const char *Vals[] = {"%v", "@g", "null", "%q", "%w"};
  unsigned Pk = sym_pick<unsigned>("pointer", 0, 4), Vk = sym_pick<unsigned>("value", 0, 4);
  World W(std::string("@g = global i8 0\n@gp = global i8* null\ndefine void @f(){\n ret void\n}\ndefine void @c(i8** %pp, i8* %q, { i8*, i8* }* %st) {\n  %v = alloca i8\n  %a = alloca i8*\n"
                      "  %c1 = bitcast i8** %a to i64*\n  %c2 = bitcast i64* %c1 to i8**\n  %z = getelementptr { i8*, i8* }, { i8*, i8* }* %st, i64 0, i32 0\n"
                      "  %w = bitcast i8** %a to i8*\n  store i8* ") +
          Vals[Vk] + ", i8** " + Ptrs[Pk] + "\n  ret void\n}\n");
  const llvm::StoreInst *St = nullptr;
  for (auto &I : llvm::instructions(W.Caller))
    if (auto *X = llvm::dyn_cast<llvm::StoreInst>(&I))
      St = X;
  V Ptr = St->getPointerOperand(), Base = Ptr->stripPointerCasts();
  bool Given = sym_pickbool("with predicate");
  Rel R("generate");
  auto Pred = [R](V A) { return R(A, A); };
  auto FF = Given ? strongUpdateStore<decltype(Pred) &, Set>(St, Pred) : strongUpdateStore<Set>(St);
  for (int Rep = 0; Rep < 2; ++Rep) {
    V S = W.pick("fact");
    auto Got = FF->computeTargets(S);
    Set Want;
    if (S != Ptr && S != Base) {
      Want.insert(S);
      if (Given ? Pred(S) : S == St->getValueOperand())
        Want.insert({Ptr, Base});
    }
    symrt_check(Got == Want, "facts after a store");
  }
}

// the zero fact is one object of its own
SYM_GOAL(zero_fact) {
  auto W = world(Fixed + 1, 1, false);
  V S = W.pick("fact");
  bool Is = S == W.All.back();
  symrt_check(LLVMZeroValue::isLLVMZeroValue(S) == Is, "zero fact");
  symrt_check(LLVMZeroValue::getInstance() == LLVMZeroValue::getInstance(), "one zero fact");
  symrt_check(Is || S->getName() != LLVMZeroValue::getInstance()->getName(), "name");
}
