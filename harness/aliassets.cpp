// Alias sets: an equivalence on pointers that covers every overlap a run can
// produce, independent of the query order, and preserved by serialisation.
#include "minillvm.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "llvm/IR/ValueSymbolTable.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;

static AliasAnalysisType pickAA() {
  static const AliasAnalysisType T[] = {AliasAnalysisType::CFLAnders, AliasAnalysisType::CFLSteens, AliasAnalysisType::Basic};
  return T[sym_pick<unsigned>("analysis", 0, 2)];
}

// A function of pointer statements that is run while it is generated. Objects
// are numbered; the state maps slot objects to object numbers.
struct Gen {
  std::string Body;
  struct Ptr {
    std::string N;
    unsigned Obj;
    bool Addr = false; // an alloca
  };
  std::vector<Ptr> Vals;  // i32*
  std::vector<Ptr> Slots; // i32**
  std::map<unsigned, unsigned> Mem;
  unsigned N = 0;
  bool Forks = false; // a statement merged two unrelated pointers
  std::string fresh() { return "%v" + std::to_string(N++); }
  enum { Null = 0, A, B, G, O1, O2, Ext, SlotS, SlotGP, SlotO, H, Heap };
  Gen() {
    Body = "  %a = alloca i32\n  %b = alloca i32\n  %s = alloca i32*\n  store i32* null, i32** %s\n";
    Vals = {{"%a", A}, {"@g", G}, {"%p", 0}, {"%b", B}, {"%q", 0}};
    Slots = {{"%s", SlotS}, {"@gp", SlotGP}, {"%pp", 0}};
  }
  void env(unsigned E) {
    // what the caller passes
    static const unsigned P[][2] = {{O1, O2}, {O1, O1}, {G, O1}};
    Vals[2].Obj = P[E % 3][0];
    Vals[4].Obj = P[E % 3][1];
    Slots[2].Obj = E / 3 ? SlotGP : SlotO;
    Mem = {{SlotS, Null}, {SlotGP, O1}, {SlotO, O2}};
  }
  void copy(unsigned I, bool Cast) {
    auto R = fresh();
    auto O = Vals[I].Obj;
    if (Cast)
      Body += "  " + R + "c = bitcast i32* " + Vals[I].N + " to i8*\n  " + R + " = bitcast i8* " + R + "c to i32*\n";
    else
      Body += "  " + R + " = getelementptr i32, i32* " + Vals[I].N + ", i64 0\n";
    Vals.push_back({R, O});
  }
  void load(unsigned S) {
    auto R = fresh();
    Body += "  " + R + " = load i32*, i32** " + Slots[S].N + "\n";
    Vals.push_back({R, Mem[Slots[S].Obj]});
  }
  void store(unsigned I, unsigned S) {
    Body += "  store i32* " + Vals[I].N + ", i32** " + Slots[S].N + "\n";
    Mem[Slots[S].Obj] = Vals[I].Obj;
  }
  void select(unsigned I, unsigned J, bool First) {
    auto R = fresh();
    Body += "  " + R + " = select i1 %c, i32* " + Vals[I].N + ", i32* " + Vals[J].N + "\n";
    Vals.push_back({R, Vals[First ? I : J].Obj});
    Forks = true;
  }
  void ext(unsigned I, unsigned What) {
    // the callee may return its argument, a global or something new, and may
    // write the argument into the global slot
    auto R = fresh();
    Body += "  " + R + " = call i32* @ext(i32* " + Vals[I].N + ")\n";
    if (What & 4)
      Mem[SlotGP] = Vals[I].Obj;
    What &= 3;
    Vals.push_back({R, What == 0 ? Vals[I].Obj : What == 1 ? unsigned(G) : What == 2 ? unsigned(Ext) : Mem[SlotGP]});
  }
  void heap() {
    auto R = fresh();
    Body += "  " + R + "m = call i8* @malloc(i64 4)\n  " + R + " = bitcast i8* " + R + "m to i32*\n";
    Vals.push_back({R, Heap + N});
  }
  void slot(unsigned S) {
    auto R = fresh();
    Body += "  " + R + " = getelementptr i32*, i32** " + Slots[S].N + ", i64 0\n";
    Slots.push_back({R, Slots[S].Obj});
  }
  std::string text(const char *Other) {
    return "@g = global i32 0\n@gp = global i32* null\ndeclare i32* @ext(i32*)\ndeclare noalias i8* @malloc(i64)\n"
           "define void @f(i32* %p, i32* %q, i32** %pp, i1 %c) {\n" +
           Body + "  ret void\n}\n" + Other;
  }
};

static const char *Others[] = {
    "define i32* @h(i32* %x) {\n  store i32* %x, i32** @gp\n  %y = load i32*, i32** @gp\n  ret i32* %y\n}\n"
    "define i32* @w(i32* %x) {\n  %y = bitcast i32* %x to i8*\n  ret i32* %x\n}\n",
    "define i32* @h(i32* %x) {\n  %y = getelementptr i32, i32* %x, i64 0\n  ret i32* %y\n}\n"
    "define void @w(i32** %x) {\n  store i32* @g, i32** %x\n  ret void\n}\n"};

static std::vector<V> pointers(const llvm::Module &M) {
  std::vector<V> R;
  for (auto &G : M.globals())
    R.push_back(&G);
  for (auto &F : M)
    R.push_back(&F);
  for (auto &F : M) {
    for (auto &A : F.args())
      if (A.getType()->isPointerTy() && !F.isDeclaration())
        R.push_back(&A);
    for (auto &I : llvm::instructions(F))
      if (I.getType()->isPointerTy())
        R.push_back(&I);
  }
  return R;
}
static std::set<V> setOf(LLVMAliasSet &S, V P) {
  auto X = S.getAliasSet(P);
  return {X->begin(), X->end()};
}
static void equivalence(LLVMAliasSet &S, const std::vector<V> &Ps) {
  for (V P : Ps) {
    auto X = S.getAliasSet(P);
    symrt_check(X->count(P), "a pointer is in its own alias set");
    std::set<V> Xs(X->begin(), X->end());
    for (V Q : Xs)
      symrt_check(setOf(S, Q) == Xs, "members of an alias set have the same alias set");
    for (V Q : Ps)
      symrt_check((S.alias(P, Q) != AliasResult::NoAlias) == Xs.count(Q), "the alias query answers membership in the alias set");
  }
}
static void partitionIs(LLVMAliasSet &S, const std::vector<V> &Ps, std::map<V, unsigned> Class) {
  for (V P : Ps)
    for (V Q : Ps)
      symrt_check(setOf(S, P).count(Q) == (Class[P] == Class[Q]), "merging gives the finest partition that contains both");
}
static void covers(LLVMAliasSet &S, Gen &G, const llvm::Module &M) {
  auto *F = M.getFunction("f");
  auto val = [&](const std::string &N) -> V {
    if (N[0] == '@')
      return M.getNamedValue(N.substr(1));
    return F->getValueSymbolTable()->lookup(N.substr(1));
  };
  auto used = [&](const std::string &N) { // globals the function does not mention have no place in its sets
    return N[0] != '@' || G.Body.find(N + ",") != std::string::npos || G.Body.find(N + ")") != std::string::npos ||
           G.Body.find(N + "\n") != std::string::npos;
  };
  for (auto *L : {&G.Vals, &G.Slots})
    for (auto &P : *L)
      for (auto &Q : *L)
        if (P.Obj == Q.Obj && P.Obj != Gen::Null && used(P.N) && used(Q.N)) {
          if (getenv("SYM_LOUD") && S.alias(val(P.N), val(Q.N)) == AliasResult::NoAlias)
            llvm::errs() << G.Body << P.N << " and " << Q.N << " are object " << P.Obj << "\n";
          symrt_check(S.alias(val(P.N), val(Q.N)) != AliasResult::NoAlias, "pointers to the same object alias");
        }
}
static void sites(LLVMAliasSet &S, const std::vector<V> &Ps) {
  for (V P : Ps) {
    auto X = setOf(S, P);
    auto *PF = llvm::isa<llvm::Instruction>(P) ? llvm::cast<llvm::Instruction>(P)->getFunction()
               : llvm::isa<llvm::Argument>(P)  ? llvm::cast<llvm::Argument>(P)->getParent()
                                               : nullptr;
    for (bool Intra : {false, true}) {
      std::set<V> Want;
      for (V Q : X) {
        const llvm::Function *QF = nullptr;
        if (llvm::isa<llvm::AllocaInst>(Q))
          QF = llvm::cast<llvm::Instruction>(Q)->getFunction();
        else if (auto *C = llvm::dyn_cast<llvm::CallBase>(Q); C && C->getCalledFunction() && C->getCalledFunction()->getName() == "malloc")
          QF = C->getFunction();
        if (QF && (!Intra || QF == PF || llvm::isa<llvm::GlobalObject>(P)))
          Want.insert(Q);
        if (Intra && llvm::isa<llvm::Argument>(Q) && llvm::cast<llvm::Argument>(Q)->getParent() == PF)
          Want.insert(Q);
      }
      auto Got = S.getReachableAllocationSites(P, Intra);
      symrt_check(std::set<V>(Got->begin(), Got->end()) == Want, "the allocation sites are those in the alias set");
      for (V Q : Ps)
        symrt_check(S.isInReachableAllocationSites(P, Q, Intra) == Want.count(Q), "asking for one allocation site agrees with the list");
    }
  }
}

static void statement(Gen &G, const std::vector<unsigned> &Kinds, unsigned MaxVals, bool SelectTop = true) {
  unsigned NV = G.Vals.size();
  // the operands in play: the fixed ones and the newest
  auto anyVal = [&] {
    unsigned K = NV - 5 + MaxVals, P = sym_pick<unsigned>("value", 0, K - 1);
    return P < MaxVals ? P : P - MaxVals + 5;
  };
  auto anySlot = [&] { return sym_pick<unsigned>("slot", 0, G.Slots.size() - 1); };
  switch (Kinds[sym_pick<unsigned>("statement", 0, Kinds.size() - 1)]) {
  case 0:
    return G.copy(anyVal(), false);
  case 1:
    return G.copy(anyVal(), true);
  case 2:
    return G.load(anySlot());
  case 3: {
    unsigned I = anyVal();
    return G.store(I, anySlot());
  }
  case 4: {
    unsigned I = anyVal(), J = anyVal();
    if (I >= J)
      symrt_end();
    return G.select(I, J, sym_pickbool("first"));
  }
  case 5: {
    unsigned I = anyVal();
    static const unsigned Effects[] = {0, 1, 3, 6};
    return G.ext(I, Effects[sym_pick<unsigned>("effect", 0, 3)]);
  }
  case 6:
    return G.heap();
  case 7:
    return G.slot(anySlot());
  }
}
static void coverage(const std::vector<unsigned> &Kinds, unsigned K, unsigned MaxVals, bool Structure = false) {
  Gen G;
  static const unsigned Env[] = {0, 5, 4};
  G.env(Env[sym_pick<unsigned>("caller", 0, K > 2 ? 1 : 2)]);
  auto T = pickAA();
  for (unsigned I = 0; I < K; ++I)
    statement(G, Kinds, MaxVals);
  ml::quiet();
  ml::Prog P(G.text(""));
  LLVMProjectIRDB DB(P.M.get(), false);
  LLVMAliasSet S(&DB, true, T);
  covers(S, G, *P.M);
}
SYM_GOAL(cover2) { coverage({0, 2, 3, 5, 6, 7}, 2, 3); }
SYM_GOAL(cover3) { coverage({0, 2, 3}, 3, 2); }
SYM_GOAL(cover_select2) { coverage({4, 0, 3}, 2, 4); }

SYM_GOAL(structure) {
  Gen G;
  G.env(0);
  auto T = pickAA();
  unsigned O = sym_pick<unsigned>("other", 0, 1);
  statement(G, {0, 1, 2, 3, 4, 6}, 2);
  statement(G, {1, 3, 4}, 2);
  ml::quiet();
  ml::Prog P(G.text(Others[O]));
  LLVMProjectIRDB DB(P.M.get(), false);
  LLVMAliasSet S(&DB, sym_pickbool("lazy"), T);
  auto Ps = pointers(*P.M);
  equivalence(S, Ps);
  sites(S, Ps);
}
SYM_GOAL(lazy) {
  Gen G;
  G.env(0);
  unsigned O = sym_pick<unsigned>("other", 0, 1);
  auto T = pickAA();
  statement(G, {0, 2, 3, 4, 5, 6}, 3);
  ml::quiet();
  ml::Prog P(G.text(Others[O]));
  LLVMProjectIRDB DB(P.M.get(), false);
  LLVMAliasSet Lazy(&DB, true, T), Eager(&DB, false, T);
  auto Ps = pointers(*P.M);
  // any first query, then any second
  std::map<V, std::set<V>> Want;
  for (V X : Ps)
    Want[X] = setOf(Eager, X);
  unsigned A = sym_pick<unsigned>("first query", 0, Ps.size() - 1), B = (A + (1u << sym_pick<unsigned>("second query", 0, 3))) % Ps.size();
  symrt_check(setOf(Lazy, Ps[A]) == Want[Ps[A]], "a lazily computed alias set is the precomputed one");
  symrt_check(setOf(Lazy, Ps[B]) == Want[Ps[B]], "a lazily computed alias set is the precomputed one");
  symrt_check((Lazy.alias(Ps[A], Ps[B]) != AliasResult::NoAlias) == Want[Ps[A]].count(Ps[B]), "lazy alias queries agree with precomputed ones");
}

static const char *FiveText = "define void @f() {\n  %a = alloca i32\n  %b = alloca i32\n  %c = alloca i32\n  %d = alloca i32\n  %e = alloca i32\n  ret void\n}\n"
                              "define void @k(i32* %x) {\n  %y = alloca i32\n  ret void\n}\n";
struct Classes {
  std::map<V, unsigned> C;
  explicit Classes(const std::vector<V> &Ps) {
    for (V P : Ps)
      C[P] = C.size();
  }
  void join(V A, V B) {
    unsigned X = C[A], Y = C[B];
    for (auto &[P, K] : C)
      if (K == X)
        K = Y;
  }
};
static std::vector<V> locals(const llvm::Module &M) {
  std::vector<V> R;
  for (auto P : pointers(M))
    if (!llvm::isa<llvm::Function>(P))
      R.push_back(P);
  return R;
}
static void introduce(LLVMAliasSet &S, const std::vector<V> &Ps, Classes &C, unsigned N) {
  for (unsigned I = 0; I < N; ++I) {
    unsigned A = sym_pick<unsigned>("left", 0, 2), B = sym_pick<unsigned>("right", A + 1, 5);
    if (I % 2)
      std::swap(A, B);
    S.introduceAlias(Ps[A], Ps[B]);
    C.join(Ps[A], Ps[B]);
  }
}
SYM_GOAL(introduced) {
  ml::quiet();
  ml::Prog P(FiveText);
  LLVMProjectIRDB DB(P.M.get(), false);
  LLVMAliasSet S(&DB, sym_pickbool("lazy"));
  auto Ps = locals(*P.M);
  Classes C(Ps);
  introduce(S, Ps, C, 3);
  partitionIs(S, Ps, C.C);
  equivalence(S, Ps);
}
SYM_GOAL(merged) {
  ml::quiet();
  ml::Prog P(FiveText);
  LLVMProjectIRDB DB(P.M.get(), false);
  bool Lazy = sym_pickbool("lazy");
  LLVMAliasSet S(&DB, Lazy), O(&DB, !Lazy);
  auto Ps = locals(*P.M);
  Classes C(Ps);
  static const unsigned NS[] = {1, 1, 2, 2}, NO[] = {1, 2, 1, 2};
  unsigned N = sym_pick<unsigned>("histories", 0, 2);
  introduce(S, Ps, C, NS[N]);
  introduce(O, Ps, C, NO[N]);
  S.mergeWith(O);
  partitionIs(S, Ps, C.C);
  equivalence(S, Ps);
}
static bool named(V X) { return getMetaDataID(X) != "-1"; }
SYM_GOAL(stored) {
  ml::quiet();
  unsigned Name = sym_pick<unsigned>("name", 0, 2);
  static const char *Names[] = {"k", "k.part.1", "7"};
  std::string T = ml::replaceAll(FiveText, "@k(", "@\"" + std::string(Names[Name]) + "\"(");
  ml::Prog P("@g = global i32 0\n" + T);
  LLVMProjectIRDB DB(P.M.get(), true);
  bool Lazy = sym_pickbool("lazy");
  LLVMAliasSet S(&DB, Lazy);
  auto Ps = locals(*P.M);
  Classes C(Ps);
  introduce(S, Ps, C, 2);
  std::string Out;
  llvm::raw_string_ostream OS(Out);
  S.printAsJson(OS);
  LLVMAliasSet L(&DB, nlohmann::json::parse(OS.str()));
  auto fns = [](LLVMAliasSet &A) {
    auto V = A.getLLVMAliasSetData().AnalyzedFunctions;
    return std::set<std::string>(V.begin(), V.end());
  };
  symrt_check(fns(S) == fns(L), "the analysed functions survive storing and loading");
  partitionIs(L, Ps, C.C);
  equivalence(L, Ps);
}
SYM_GOAL(stored_program) {
  Gen G;
  G.env(0);
  unsigned O = sym_pick<unsigned>("other", 0, 1);
  auto T = pickAA();
  statement(G, {0, 2, 3, 4, 5, 6}, 3);
  statement(G, {3, 4}, 3);
  ml::quiet();
  ml::Prog P(G.text(Others[O]));
  LLVMProjectIRDB DB(P.M.get(), true);
  // functions not looked at yet are analysed anew after loading, with the
  // default analysis: only complete results are compared
  LLVMAliasSet S(&DB, false, T);
  auto Ps = locals(*P.M);
  std::string Out;
  llvm::raw_string_ostream OS(Out);
  S.printAsJson(OS);
  LLVMAliasSet L(&DB, nlohmann::json::parse(OS.str()));
  auto named = [](std::set<V> S) { // functions have no persistent id
    for (auto I = S.begin(); I != S.end();)
      I = getMetaDataID(*I) == "-1" ? S.erase(I) : ++I;
    return S;
  };
  for (V X : Ps)
    if (getenv("SYM_LOUD") && named(setOf(S, X)) != named(setOf(L, X))) {
      llvm::errs() << OS.str() << "\n" << *X << "\n was\n";
      for (V Y : setOf(S, X))
        llvm::errs() << "  " << *Y << "\n";
      llvm::errs() << "is\n";
      for (V Y : setOf(L, X))
        llvm::errs() << "  " << *Y << "\n";
    }
  for (V X : Ps)
    symrt_check(named(setOf(S, X)) == named(setOf(L, X)), "storing and loading keeps the alias sets");
}
