// Type-state analysis: the state of a handle at every statement is the state
// its protocol reaches along the paths to that statement.
#include "minillvm.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFCTXDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureHeapDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureMemoryDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

// Alias information that is exact for the programs with two handles: within a
// function, the values that are read from or written to one handle alias; the
// handles f and g share their object if there is a store of one's value to the
// other.
struct ExactAA;
namespace psr {
template <> struct AliasInfoTraits<ExactAA> : DefaultAATraits<V, I> {};
} // namespace psr
struct ExactAA : AliasInfoTraits<ExactAA> {
  bool Shared;
  std::map<V, AliasSetTy *> Sets;
  ExactAA(bool Shared) : Shared(Shared) {}
  V slot(V X) const {
    V R = X;
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(X))
      R = L->getPointerOperand();
    else
      for (auto *U : X->users())
        if (auto *S = llvm::dyn_cast<llvm::StoreInst>(U); S && S->getValueOperand() == X)
          R = S->getPointerOperand();
    if (Shared && R->getName() == "g")
      for (auto &Y : llvm::instructions(llvm::cast<llvm::Instruction>(R)->getFunction()))
        if (Y.getName() == "f")
          return &Y;
    return R;
  }
  AliasSetPtrTy getAliasSet(V X, I = nullptr) {
    auto *&S = Sets[X];
    if (!S) {
      S = new AliasSetTy();
      S->insert(X);
      const llvm::Function *F = nullptr;
      if (auto *Ins = llvm::dyn_cast<llvm::Instruction>(X))
        F = Ins->getFunction();
      else if (auto *A = llvm::dyn_cast<llvm::Argument>(X))
        F = A->getParent();
      if (F) {
        for (auto &A : F->args())
          if (A.getType() == X->getType() && slot(&A) == slot(X))
            S->insert(&A);
        for (auto &Y : llvm::instructions(F))
          if (Y.getType() == X->getType() && slot(&Y) == slot(X))
            S->insert(&Y);
      }
    }
    return AliasSetPtrTy(BoxedPtr<AliasSetTy>(&S));
  }
  AliasResult alias(V A, V B, I = nullptr) { return slot(A) == slot(B) ? AliasResult::MustAlias : AliasResult::NoAlias; }
  AllocationSiteSetPtrTy getReachableAllocationSites(V, bool = false, I = nullptr) { return std::make_unique<AliasSetTy>(); }
  bool isInReachableAllocationSites(V, V, bool = false, I = nullptr) { return false; }
  void mergeWith(const ExactAA &) {}
  void introduceAlias(V, V, I = nullptr, AliasResult = AliasResult::MustAlias) {}
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept { return AliasAnalysisType::Basic; }
  AnalysisProperties getAnalysisProperties() const noexcept { return AnalysisProperties::None; }
  bool isContextSensitive() const noexcept { return false; }
  bool isFieldSensitive() const noexcept { return false; }
};

enum St { Un, Ok, Gone, Err, NumSt }; // Gone: closed or released
struct FileIO {
  using Desc = CSTDFILEIOTypeStateDescription;
  using State = CSTDFILEIOState;
  static State state(St S) { return std::array{State::UNINIT, State::OPENED, State::CLOSED, State::ERROR}[S]; }
  static constexpr auto Bot = State::BOT;
  static constexpr auto Type = "%struct._IO_FILE";
  static St close(St S) { return S == Ok ? Gone : Err; }
  static St use(St S) { return S == Ok ? Ok : Err; }
  static constexpr auto Open = "call T* @fopen(i8* null, i8* null)", Reopen = "call T* @fdopen(i32 1, i8* null)", Close = "call i32 @fclose(T* X)",
                        Use = "call i32 @fgetc(T* X)", Put = "call i32 @fputc(i32 1, T* X)";
  static constexpr auto Decls = "declare T* @fopen(i8*, i8*)\ndeclare T* @fdopen(i32, i8*)\ndeclare i32 @fclose(T*)\ndeclare i32 @fgetc(T*)\ndeclare i32 @fputc(i32, T*)\n";
};
struct Kdf {
  using Desc = OpenSSLEVPKDFDescription;
  using State = OpenSSLEVPKDFState;
  static State state(St S) { return std::array{State::UNINIT, State::KDF_FETCHED, State::UNINIT, State::ERROR}[S]; }
  static constexpr auto Bot = State::BOT;
  static constexpr auto Type = "%struct.evp_kdf_st";
  static St close(St S) { return S == Ok ? Gone : Err; }
  static St use(St S) { return S; }
  static constexpr auto Open = "call T* @EVP_KDF_fetch(i8* null, i8* null, i8* null)", Reopen = Open, Close = "call i32 @EVP_KDF_free(T* X)",
                        Use = "call i32 @EVP_KDF_is_a(T* X)", Put = "call i32 @EVP_KDF_print(i32 1, T* X)";
  static constexpr auto Decls = "declare T* @EVP_KDF_fetch(i8*, i8*, i8*)\ndeclare i32 @EVP_KDF_free(T*)\ndeclare i32 @EVP_KDF_is_a(T*)\ndeclare i32 @EVP_KDF_print(i32, T*)\n";
};
enum Op { Open, Reopen, Close, Use, Put, Log, CloseFn, UseFn, MakeFn, MaybeFn, RecFn, IndFn, NumOps };

template <typename P> struct Program {
  std::string Text;
  unsigned Tmp = 0;
  Program() {
    Text = std::string(P::Type) + " = type { i32 }\ndeclare i1 @cond()\ndeclare void @log(T*)\n@ip = global void (T*)* @cl\n" + P::Decls;
    auto Fn = [&](const std::string &N, const std::string &Body) {
      Text += "define void @" + N + "(T* %p) {\n  %s = alloca T*\n  store T* %p, T** %s\n" + Body + "  ret void\n}\n";
    };
    std::string L = "  %1 = load T*, T** %s\n", C = "  %2 = " + ml::replaceAll(P::Close, "X", "%1") + "\n", U = "  %2 = " + ml::replaceAll(P::Use, "X", "%1") + "\n";
    Fn("cl", L + C);
    Fn("us", L + U);
    Fn("maybe", "  %c = call i1 @cond()\n  br i1 %c, label %T, label %X\nT:\n" + L + C + "  br label %X\nX:\n");
    Fn("rec", "  %c = call i1 @cond()\n  br i1 %c, label %T, label %E\nT:\n  %r = load T*, T** %s\n  call void @rec(T* %r)\n  ret void\nE:\n" + L + C);
    Text += std::string("define T* @mk() {\n  %s = alloca T*\n  %1 = ") + P::Open + "\n  store T* %1, T** %s\n  %2 = load T*, T** %s\n  ret T* %2\n}\n";
  }
  static std::set<St> next(Op O, St S) {
    switch (O) {
    case Open: case Reopen: case MakeFn: return {Ok};
    case Close: case CloseFn: case RecFn: return {P::close(S)};
    case Use: case Put: case UseFn: return {P::use(S)};
    case Log: return {S};
    case MaybeFn: return {S, P::close(S)};
    case IndFn: return {P::use(S), P::close(S)};
    default: abort();
    }
  }
  std::string stmt(Op O, const std::string &X, unsigned No) {
    std::string K = std::to_string(Tmp++), T = "%t" + K, R = "  %r" + K + " = ", M = ", !at !" + std::to_string(No) + "\n";
    auto Load = "  " + T + " = load T*, T** " + X + M;
    auto Call = [&](const char *C) { return Load + R + ml::replaceAll(C, "X", T) + "\n"; };
    auto Make = [&](const std::string &C) { return "  " + T + " = " + C + M + "  store T* " + T + ", T** " + X + "\n"; };
    auto Plain = [&](const std::string &F) { return Load + "  call void " + F + "(T* " + T + ")\n"; };
    switch (O) {
    case Open: return Make(P::Open);
    case Reopen: return Make(P::Reopen);
    case MakeFn: return Make("call T* @mk()");
    case Close: return Call(P::Close);
    case Use: return Call(P::Use);
    case Put: return Call(P::Put);
    case Log: return Plain("@log");
    case CloseFn: return Plain("@cl");
    case UseFn: return Plain("@us");
    case MaybeFn: return Plain("@maybe");
    case RecFn: return Plain("@rec");
    case IndFn: return "  %w" + K + " = load void (T*)*, void (T*)** @ip\n" + Plain("%w" + K);
    default: abort();
    }
  }
};
static CallGraph<I, const llvm::Function *> graph(llvm::Module &M) {
  CallGraphBuilder<I, const llvm::Function *> B;
  B.reserve(M.size());
  for (auto &F : M) {
    (void)B.addFunctionVertex(&F);
    for (auto &X : llvm::instructions(F))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&X)) {
        if (auto *C = CB->getCalledFunction()) {
          B.addCallEdge(CB, C);
        } else {
          B.addCallEdge(CB, M.getFunction("cl"));
          B.addCallEdge(CB, M.getFunction("us"));
        }
      }
  }
  return B.consumeCallGraph();
}
template <typename P> struct Report : AnalysisPrinterBase<IDETypeStateAnalysisDomain<typename P::Desc>> {
  std::set<std::pair<I, V>> Got;
  bool Wrong = false;
  void doOnResult(I N, V D, typename P::State S, DataFlowAnalysisType) override {
    Got.insert({N, D});
    Wrong |= S != typename P::Desc{}.error();
  }
};
// what may hold before each numbered statement of main, for each handle
using Expect = std::map<unsigned, std::map<std::string, std::set<St>>>;
template <typename P> static void check(std::string Text, const Expect &E, bool Exact, ExactAA *EA = nullptr) {
  for (unsigned K = 0; K < 8; ++K)
    Text += "!" + std::to_string(K) + " = !{i32 " + std::to_string(K) + "}\n";
  ml::Prog Pr(ml::replaceAll(Text, "T*", std::string(P::Type) + "*"));
  LLVMProjectIRDB DB(Pr.M.get(), true);
  LLVMBasedICFG ICF(graph(*Pr.M), &DB);
  LLVMAliasSet AS(&DB, false);
  typename P::Desc Desc;
  IDETypeStateAnalysis<typename P::Desc> A(&DB, EA ? LLVMAliasInfoRef(EA) : LLVMAliasInfoRef(&AS), &Desc, {"main"});
  IDESolver Solver(A, &ICF);
  Solver.solve();
  Report<P> Rep;
  A.setAnalysisPrinter(&Rep);
  Solver.emitTextReport();
  symrt_check(!Rep.Wrong, "only errors are reported");
  std::map<std::string, V> Handle;
  for (auto &X : llvm::instructions(*Pr.M->getFunction("main"))) {
    if (X.getName() == "f" || X.getName() == "g")
      Handle[X.getName().str()] = &X;
    if (auto *M = X.getMetadata("at")) {
      unsigned Id = llvm::cast<llvm::ConstantInt>(llvm::cast<llvm::ConstantAsMetadata>(M->getOperand(0))->getValue())->getZExtValue();
      if (!E.count(Id))
        continue;
      for (auto &[Name, S] : E.at(Id)) {
        auto H = Handle.at(Name);
        auto Got = Solver.resultAt(&X, H);
        auto Rs = Solver.resultsAt(&X);
        symrt_note("statement", Id);
        symrt_note("state", uint64_t(Got));
        std::set<typename P::State> Want;
        for (auto T : S)
          Want.insert(P::state(T));
        if (Want.size() == 1 && Exact) {
          symrt_check(Got == *Want.begin(), "the state is the one every path leads to");
        } else if (Want.size() == 1) {
          symrt_check(Got == *Want.begin() || Got == P::Bot, "the state covers every path");
        } else if (!Want.empty()) {
          symrt_check(Got == P::Bot, "different states of different paths are joined");
          symrt_cover("joined");
        }
        symrt_check(Rep.Got.count({&X, H}) == (Got == Desc.error()), "exactly the errors are reported");
        symrt_cover(Got == Desc.error() ? "error" : "no error");
      }
    }
  }
}
enum Shape { Straight, Branch, Loop };
template <typename P> static void single(std::vector<Op> Ops, unsigned Sh) {
  Program<P> Pr;
  Expect E;
  using Set = std::set<St>;
  auto Step = [&](Op O, const Set &In) {
    Set R;
    for (auto S : In)
      for (auto T : Pr.next(O, S))
        R.insert(T);
    return R;
  };
  auto Join = [](Set &A, const Set &B) { A.insert(B.begin(), B.end()); };
  unsigned N = Ops.size();
  std::string B = "define i32 @main() {\n  %f = alloca T*\n  %k = alloca i32\n";
  Set Now{Un};
  if (Sh == Loop) {
    std::vector<Set> At(N);
    Set Head = Now, Out;
    for (unsigned Round = 0; Round < 8; ++Round) {
      auto In = Head;
      for (unsigned K = 0; K + 1 < N; ++K) {
        Join(At[K], In);
        In = Step(Ops[K], In);
      }
      Join(Head, In);
      Join(Out, In);
    }
    B += "  br label %L\nL:\n";
    for (unsigned K = 0; K + 1 < N; ++K) {
      B += Pr.stmt(Ops[K], "%f", K);
      E[K]["f"] = At[K];
    }
    B += "  %c = call i1 @cond()\n  br i1 %c, label %L, label %X\nX:\n" + Pr.stmt(Ops[N - 1], "%f", N - 1);
    E[N - 1]["f"] = Out;
    Now = Step(Ops[N - 1], Out);
  } else {
    for (unsigned K = 0; K < N; ++K) {
      bool C = Sh == Branch && K == N - 2;
      if (C)
        B += "  %c = call i1 @cond()\n  br i1 %c, label %T, label %J\nT:\n";
      B += Pr.stmt(Ops[K], "%f", K);
      E[K]["f"] = Now;
      auto Next = Step(Ops[K], Now);
      if (C) {
        B += "  br label %J\nJ:\n";
        Join(Next, Now);
      }
      Now = Next;
    }
  }
  E[N]["f"] = Now;
  B += "  store i32 0, i32* %k, !at !" + std::to_string(N) + "\n  ret i32 0\n}\n";
  bool Exact = Sh == Straight;
  for (auto O : Ops)
    Exact &= O != MaybeFn && O != IndFn && O != RecFn;
  check<P>(Pr.Text + B, E, Exact);
}
static Op op(unsigned Lo = 0) { return Op(sym_pick<unsigned>("statement", Lo, NumOps - 1)); }
static Op api(unsigned Lo = 0) { return Op(sym_pick<unsigned>("statement", Lo, Log)); }
static unsigned shape() { return sym_pick<unsigned>("shape", 0, 2); }
SYM_GOAL(file) { single<FileIO>({op(), op(), op()}, shape()); }
SYM_GOAL(file_open) { single<FileIO>({Open, op(), op(), op()}, shape()); }
SYM_GOAL(kdf) { single<Kdf>({op(), op(), op()}, shape()); }
// two handles with objects of their own
template <typename P> static void both(unsigned N) {
  Program<P> Pr;
  Expect E;
  std::map<std::string, std::set<St>> Now{{"f", {Un}}, {"g", {Un}}};
  bool Exact = true;
  std::string B = "define i32 @main() {\n  %f = alloca T*\n  %g = alloca T*\n  %k = alloca i32\n";
  for (unsigned K = 0; K < N; ++K) {
    Op O = op();
    Exact &= O != MaybeFn && O != IndFn && O != RecFn;
    std::string X = sym_pickbool("second handle") ? "g" : "f";
    B += Pr.stmt(O, "%" + X, K);
    E[K] = Now;
    std::set<St> R;
    for (auto S : Now[X])
      for (auto T : Pr.next(O, S))
        R.insert(T);
    Now[X] = R;
  }
  E[N] = Now;
  B += "  store i32 0, i32* %k, !at !" + std::to_string(N) + "\n  ret i32 0\n}\n";
  ExactAA EA(false);
  check<P>(Pr.Text + B, E, Exact, &EA);
}
SYM_GOAL(two_files) { both<FileIO>(3); }
SYM_GOAL(two_kdfs) { both<Kdf>(2); }
// two handles of the same object, both read later (the analysis need not know
// the state of a handle that nobody reads)
SYM_GOAL(copied) {
  using P = FileIO;
  Program<P> Pr;
  Expect E;
  std::string B = "define i32 @main() {\n  %f = alloca T*\n  %g = alloca T*\n  %k = alloca i32\n";
  bool Mk = sym_pickbool("own factory");
  B += Pr.stmt(Mk ? MakeFn : Open, "%f", 0);
  B += "  %c0 = load T*, T** %f\n  store T* %c0, T** %g\n";
  std::set<St> Now{Ok};
  bool Exact = true;
  for (unsigned K = 1; K < 3; ++K) {
    Op O = op(Close);
    symrt_assume(O != MakeFn);
    Exact &= O != MaybeFn && O != IndFn && O != RecFn;
    B += Pr.stmt(O, sym_pickbool("second handle") ? "%g" : "%f", K);
    E[K] = {{"f", Now}, {"g", Now}};
    std::set<St> R;
    for (auto S : Now)
      for (auto T : Pr.next(O, S))
        R.insert(T);
    Now = R;
  }
  E[3] = {{"f", Now}, {"g", Now}};
  B += "  store i32 0, i32* %k, !at !3\n  %y = load T*, T** %f\n  %z = load T*, T** %g\n  ret i32 0\n}\n";
  ExactAA EA(true);
  check<P>(Pr.Text + B, E, Exact, &EA);
}

// ---- the protocols, as automata over names of states
// 'u' fresh, '?' unknown (bottom), '!' error
struct Rule {
  const char *Fn;
  int Param; // -1: creates
  const char *From, *To;
};
template <typename D, typename S = typename D::State>
static void table(const D &Desc, std::vector<std::pair<char, typename D::State>> Names, std::vector<Rule> Rules, const char *Type) {
  static const char *Other[] = {"", "fope", "fopenx", "main", "EVP_KDF", "CRYPTO_", "malloc"};
  unsigned K = sym_range<unsigned>("state", 0, Names.size() - 1);
  S From = Names[0].second;
  for (unsigned I = 1; I < Names.size(); ++I)
    if (K == I)
      From = Names[I].second;
  for (auto &R : Rules) {
    symrt_check(Desc.isAPIFunction(R.Fn), "a function of the protocol is known");
    symrt_check(Desc.isFactoryFunction(R.Fn) == (R.Param < 0) && Desc.isConsumingFunction(R.Fn) == (R.Param >= 0), "a function creates or uses a handle");
    symrt_check(Desc.getConsumerParamIdx(R.Fn) == (R.Param < 0 ? std::set<int>{} : std::set<int>{R.Param}), "the parameter that is used");
    symrt_check(Desc.getFactoryParamIdx(R.Fn) == (R.Param < 0 ? std::set<int>{-1} : std::set<int>{}), "the handle that is created");
    S Next = Desc.getNextState(R.Fn, From);
    for (unsigned I = 0; I < Names.size(); ++I)
      if (const char *P = std::strchr(R.From, Names[I].first)) {
        char C = R.To[P - R.From];
        S Want = Names[0].second;
        for (auto &N : Names)
          if (N.first == C)
            Want = N.second;
        symrt_check(K != I || Next == Want, "the next state is that of the protocol");
        if (K == I)
          symrt_cover("transition");
      }
  }
  for (auto *N : Other) {
    symrt_check(!Desc.isAPIFunction(N) && !Desc.isFactoryFunction(N) && !Desc.isConsumingFunction(N), "other functions are not part of the protocol");
    symrt_check(Desc.getConsumerParamIdx(N).empty() && Desc.getFactoryParamIdx(N).empty() && Desc.getNextState(N, From) == Desc.bottom(), "other functions do nothing known");
  }
  symrt_check(Desc.getTypeNameOfInterest() == Type, "the type of the handles");
  std::set<std::string> Texts{to_string(Desc.top()).str()};
  for (auto &N : Names) {
    symrt_check(Texts.insert(to_string(N.second).str()).second, "states have names of their own");
    if (N.first == '!')
      symrt_check(Desc.error() == N.second, "the error state");
    if (N.first == '?')
      symrt_check(Desc.bottom() == N.second, "the bottom state");
  }
}
SYM_GOAL(file_table) {
  using S = CSTDFILEIOState;
  std::vector<Rule> R{{"fopen", -1, "uocb", "oooo"}, {"fdopen", -1, "uocb", "oooo"}, {"fclose", 0, "uoc!?", "!c!!?"}};
  auto Uses = [&](int P, std::vector<const char *> Fns) {
    for (auto *F : Fns)
      R.push_back({F, P, "uoc!?", "!o!!?"});
  };
  Uses(0, {"fgetc", "fgetwc", "getc", "getwc", "_IO_getc", "fprintf", "fwprintf", "vfprintf", "vfwprintf", "__isoc99_fscanf", "fscanf", "fwscanf", "vfscanf", "vfwscanf",
           "fflush", "fseek", "ftell", "rewind", "fgetpos", "fsetpos", "fileno"});
  Uses(1, {"ungetc", "ungetwc", "fputc", "fputwc", "fputs", "putc", "putwc", "_IO_putc"});
  Uses(2, {"fgets"});
  Uses(3, {"fread", "fwrite"});
  CSTDFILEIOTypeStateDescription D;
  symrt_check(D.uninit() == S::UNINIT && D.start() == S::OPENED && D.top() == S::TOP, "special states");
  table(D, {{'u', S::UNINIT}, {'o', S::OPENED}, {'c', S::CLOSED}, {'!', S::ERROR}, {'?', S::BOT}}, R, "struct._IO_FILE");
}
SYM_GOAL(kdf_table) {
  using S = OpenSSLEVPKDFState;
  OpenSSLEVPKDFDescription D;
  symrt_check(D.uninit() == S::UNINIT && D.start() == S::KDF_FETCHED && D.top() == S::TOP, "special states");
  table(D, {{'u', S::UNINIT}, {'f', S::KDF_FETCHED}, {'!', S::ERROR}, {'?', S::BOT}}, {{"EVP_KDF_fetch", -1, "u?", "ff"}, {"EVP_KDF_free", 0, "uf!?", "!u!?"}}, "struct.evp_kdf_st");
}
SYM_GOAL(memory_table) {
  using S = OpenSSLSecureMemoryState;
  struct D : OpenSSLSecureMemoryDescription {};
  OpenSSLSecureMemoryDescription Desc;
  auto At = [](int K) { return static_cast<S>(K); };
  // TOP 42, BOT 0, ZEROED 1, FREED 2, ERROR 3, ALLOCATED 4
  symrt_check(Desc.uninit() == At(0) && Desc.start() == At(4) && Desc.top() == At(42), "special states");
  table(Desc, {{'?', At(0)}, {'z', At(1)}, {'f', At(2)}, {'!', At(3)}, {'a', At(4)}},
        {{"CRYPTO_malloc", -1, "?", "a"}, {"CRYPTO_zalloc", -1, "?", "z"}, {"CRYPTO_free", 0, "zf!a", "f!!!"}, {"OPENSSL_cleanse", 0, "zf!a", "z!!z"}}, "i8");
}
// ---- straight programs over handles of these protocols; the state of the
// first handle decides about the second one
struct Step {
  const char *Make, *Call; // stores into or reads the handle %h / %k
  unsigned Of;             // 0: %h, 1: %k
};
static std::string steps(std::string Types, std::vector<Step> Ss, std::vector<unsigned> Picked, std::string HT, std::string KT) {
  std::string B = Types + "define i32 @main() {\n  %h = alloca " + HT + "\n  %k = alloca " + KT + "\n  %n = alloca i32\n";
  for (unsigned I = 0; I < Picked.size(); ++I) {
    auto &S = Ss[Picked[I]];
    std::string N = std::to_string(I), A = S.Of ? "%k" : "%h", T = S.Of ? KT : HT;
    B += "  store i32 0, i32* %n, !at !" + N + "\n";
    std::string Txt = S.Make ? S.Make : S.Call;
    if (Txt.find("[H]") != std::string::npos)
      B += "  %h" + N + " = load " + HT + ", " + HT + "* %h\n";
    if (Txt.find("[K]") != std::string::npos)
      B += "  %k" + N + " = load " + KT + ", " + KT + "* %k\n";
    Txt = ml::replaceAll(ml::replaceAll(Txt, "[H]", HT + " %h" + N), "[K]", KT + " %k" + N);
    if (S.Make)
      B += "  %t" + N + " = " + Txt + "\n  store " + T + " %t" + N + ", " + T + "* " + A + "\n";
    else
      B += "  " + Txt + "\n";
  }
  B += "  store i32 0, i32* %n, !at !" + std::to_string(Picked.size()) + "\n  ret i32 0\n}\n";
  for (unsigned K = 0; K < 8; ++K)
    B += "!" + std::to_string(K) + " = !{i32 " + std::to_string(K) + "}\n";
  return B;
}
template <typename Fn> static void at(llvm::Module &M, Fn F) {
  for (auto &X : llvm::instructions(*M.getFunction("main")))
    if (auto *D = X.getMetadata("at"))
      F(llvm::cast<llvm::ConstantInt>(llvm::cast<llvm::ConstantAsMetadata>(D->getOperand(0))->getValue())->getZExtValue(), &X);
}
static V named(llvm::Module &M, const char *N) {
  for (auto &X : llvm::instructions(*M.getFunction("main")))
    if (X.getName() == N)
      return &X;
  abort();
}
static std::vector<unsigned> picks(unsigned N, unsigned Of) {
  std::vector<unsigned> R;
  for (unsigned K = 0; K < N; ++K)
    R.push_back(sym_pick<unsigned>("statement", 0, Of - 1));
  return R;
}
SYM_GOAL(kdf_context) {
  using S = OpenSSLEVPKDFCTXState;
  using F = OpenSSLEVPKDFState;
  enum { Fetch, FreeKdf, New, Params, Derive, FreeCtx, Print, Num };
  std::vector<Step> Ss{{"call %struct.evp_kdf_st* @EVP_KDF_fetch(i8* null, i8* null, i8* null)", nullptr, 0}, {nullptr, "call void @EVP_KDF_free([H])", 0},
                       {"call %struct.evp_kdf_ctx_st* @EVP_KDF_CTX_new([H])", nullptr, 1}, {nullptr, "call i32 @EVP_KDF_CTX_set_params([K], i8* null)", 1},
                       {nullptr, "call i32 @EVP_KDF_derive([K], i8* null, i64 4)", 1}, {nullptr, "call void @EVP_KDF_CTX_free([K])", 1}, {nullptr, "call void @print([K])", 1}};
  bool Table = sym_pickbool("automaton");
  auto P = picks(Table ? 0 : 4, Num);
  if (!Table && sym_pickbool("fetched"))
    P.insert(P.begin(), Fetch);
  ml::Prog Pr(steps("%struct.evp_kdf_st = type { i32 }\n%struct.evp_kdf_ctx_st = type { i32 }\ndeclare %struct.evp_kdf_st* @EVP_KDF_fetch(i8*, i8*, i8*)\n"
                    "declare void @EVP_KDF_free(%struct.evp_kdf_st*)\ndeclare %struct.evp_kdf_ctx_st* @EVP_KDF_CTX_new(%struct.evp_kdf_st*)\n"
                    "declare i32 @EVP_KDF_CTX_set_params(%struct.evp_kdf_ctx_st*, i8*)\ndeclare i32 @EVP_KDF_derive(%struct.evp_kdf_ctx_st*, i8*, i64)\n"
                    "declare void @EVP_KDF_CTX_free(%struct.evp_kdf_ctx_st*)\ndeclare void @print(%struct.evp_kdf_ctx_st*)\n",
                    Ss, P, "%struct.evp_kdf_st*", "%struct.evp_kdf_ctx_st*"));
  LLVMProjectIRDB DB(Pr.M.get(), true);
  LLVMBasedICFG ICF(graph(*Pr.M), &DB);
  ExactAA AA(false);
  OpenSSLEVPKDFDescription KD;
  IDETypeStateAnalysis<OpenSSLEVPKDFDescription> KA(&DB, LLVMAliasInfoRef(&AA), &KD, {"main"});
  IDESolver<IDETypeStateAnalysisDomain<OpenSSLEVPKDFDescription>> KS(KA, &ICF);
  KS.solve();
  OpenSSLEVPKDFCTXDescription CD(KS);
  IDETypeStateAnalysis<OpenSSLEVPKDFCTXDescription> CA(&DB, LLVMAliasInfoRef(&AA), &CD, {"main"});
  IDESolver<IDETypeStateAnalysisDomain<OpenSSLEVPKDFCTXDescription>> CS(CA, &ICF);
  CS.solve();
  F Kdf = F::UNINIT;
  S Ctx = S::UNINIT;
  at(*Pr.M, [&](unsigned No, I X) {
    symrt_note("statement", No);
    symrt_check(KS.resultAt(X, named(*Pr.M, "h")) == Kdf, "the state of the function is that of its protocol");
    symrt_check(CS.resultAt(X, named(*Pr.M, "k")) == Ctx, "the state of the context is that of its protocol");
    if (Ctx == S::ERROR)
      symrt_cover("error");
    if (No == P.size())
      return;
    bool Live = Ctx == S::CTX_ATTACHED || Ctx == S::PARAM_INIT || Ctx == S::DERIVED;
    switch (P[No]) {
    case Fetch: Kdf = F::KDF_FETCHED; break;
    case FreeKdf: Kdf = Kdf == F::KDF_FETCHED ? F::UNINIT : F::ERROR; break;
    case New: Ctx = Kdf == F::KDF_FETCHED ? S::CTX_ATTACHED : S::ERROR; break;
    case Params: Ctx = Live ? S::PARAM_INIT : S::ERROR; break;
    case Derive: Ctx = Live && Ctx != S::CTX_ATTACHED ? S::DERIVED : S::ERROR; if (Ctx == S::DERIVED) symrt_cover("derived"); break;
    case FreeCtx: Ctx = Live ? S::UNINIT : S::ERROR; break;
    default:;
    }
  });
  if (Table)
    table(CD, {{'u', S::UNINIT}, {'a', S::CTX_ATTACHED}, {'p', S::PARAM_INIT}, {'d', S::DERIVED}, {'!', S::ERROR}, {'?', S::BOT}},
        {{"EVP_KDF_CTX_new", -1, "uapd", "aaaa"}, {"EVP_KDF_CTX_set_params", 0, "uapd!", "!ppp!"}, {"EVP_KDF_derive", 0, "uapd!", "!!dd!"}, {"EVP_KDF_CTX_free", 0, "uapd!", "!uuu!"}},
        "struct.evp_kdf_ctx_st");
}
SYM_GOAL(secure_heap) {
  using S = OpenSSLSecureHeapState;
  enum { Init, Done, Malloc, Zalloc, Free, Clear, Print, Num };
  std::vector<Step> Ss{{nullptr, "call i32 @CRYPTO_secure_malloc_init(i64 4, i64 4)", 0}, {nullptr, "call i32 @CRYPTO_secure_malloc_done()", 0},
                       {"call i8* @CRYPTO_secure_malloc(i64 4, i8* null, i32 1)", nullptr, 0}, {"call i8* @CRYPTO_secure_zalloc(i64 4, i8* null, i32 1)", nullptr, 0},
                       {nullptr, "call void @CRYPTO_secure_free([H], i8* null, i32 1)", 0}, {nullptr, "call void @CRYPTO_secure_clear_free([H], i64 4, i8* null, i32 1)", 0},
                       {nullptr, "call void @print([H])", 0}};
  bool Table = sym_pickbool("automaton");
  auto P = picks(Table ? 0 : 4, Num);
  ml::Prog Pr(steps("declare i32 @CRYPTO_secure_malloc_init(i64, i64)\ndeclare i32 @CRYPTO_secure_malloc_done()\ndeclare i8* @CRYPTO_secure_malloc(i64, i8*, i32)\n"
                    "declare i8* @CRYPTO_secure_zalloc(i64, i8*, i32)\ndeclare void @CRYPTO_secure_free(i8*, i8*, i32)\n"
                    "declare void @CRYPTO_secure_clear_free(i8*, i64, i8*, i32)\ndeclare void @print(i8*)\n",
                    Ss, P, "i8*", "i32"));
  LLVMProjectIRDB DB(Pr.M.get(), true);
  LLVMBasedICFG ICF(graph(*Pr.M), &DB);
  ExactAA AA(false);
  IDESecureHeapPropagation HA(&DB, {"main"});
  IDESolver<IDESecureHeapPropagationAnalysisDomain> HS(HA, &ICF);
  HS.solve();
  OpenSSLSecureHeapDescription D(HS);
  IDETypeStateAnalysis<OpenSSLSecureHeapDescription> A(&DB, LLVMAliasInfoRef(&AA), &D, {"main"});
  IDESolver<IDETypeStateAnalysisDomain<OpenSSLSecureHeapDescription>> So(A, &ICF);
  So.solve();
  bool Up = false;
  S Now = S::UNINIT;
  at(*Pr.M, [&](unsigned No, I X) {
    symrt_note("statement", No);
    symrt_check((HS.resultAt(X, SecureHeapFact::INITIALIZED) == SecureHeapValue::INITIALIZED) == Up, "whether the secure heap is initialised");
    symrt_check(So.resultAt(X, named(*Pr.M, "h")) == Now, "the state of the memory is that of its protocol");
    symrt_cover(Now == S::ERROR ? "error" : Now == S::FREED ? "freed" : "other");
    if (No == P.size())
      return;
    switch (P[No]) {
    case Init: Up = true; break;
    case Done: Up = false; break;
    case Malloc: Now = Up ? S::ALLOCATED : S::ERROR; break;
    case Zalloc: Now = Up ? S::ZEROED : S::ERROR; break;
    case Free: Now = Up && Now == S::ZEROED ? S::FREED : S::ERROR; break;
    case Clear: Now = Up && (Now == S::ZEROED || Now == S::ALLOCATED) ? S::FREED : S::ERROR; break;
    default:;
    }
  });
  if (Table)
    table(D, {{'u', S::UNINIT}, {'a', S::ALLOCATED}, {'z', S::ZEROED}, {'f', S::FREED}, {'!', S::ERROR}, {'?', S::BOT}},
        {{"CRYPTO_secure_malloc", -1, "u", "a"}, {"CRYPTO_secure_zalloc", -1, "u", "z"}, {"CRYPTO_secure_free", 0, "uazf!", "!!f!!"}, {"CRYPTO_secure_clear_free", 0, "uazf!", "!ff!!"}}, "i8");
}
SYM_GOAL(secure_memory) {
  using S = OpenSSLSecureMemoryState;
  enum { Malloc, Zalloc, Free, Cleanse, Print, Num };
  std::vector<Step> Ss{{"call i8* @CRYPTO_malloc(i64 4, i8* null, i32 1)", nullptr, 0}, {"call i8* @CRYPTO_zalloc(i64 4, i8* null, i32 1)", nullptr, 0},
                       {nullptr, "call void @CRYPTO_free([H], i8* null, i32 1)", 0}, {nullptr, "call void @OPENSSL_cleanse([H], i64 4)", 0}, {nullptr, "call void @print([H])", 0}};
  auto P = picks(4, Num);
  symrt_assume(P[0] <= Zalloc); // memory is not used before it was allocated
  ml::Prog Pr(steps("declare i8* @CRYPTO_malloc(i64, i8*, i32)\ndeclare i8* @CRYPTO_zalloc(i64, i8*, i32)\ndeclare void @CRYPTO_free(i8*, i8*, i32)\n"
                    "declare void @OPENSSL_cleanse(i8*, i64)\ndeclare void @print(i8*)\n",
                    Ss, P, "i8*", "i32"));
  LLVMProjectIRDB DB(Pr.M.get(), true);
  LLVMBasedICFG ICF(graph(*Pr.M), &DB);
  ExactAA AA(false);
  OpenSSLSecureMemoryDescription D;
  IDETypeStateAnalysis<OpenSSLSecureMemoryDescription> A(&DB, LLVMAliasInfoRef(&AA), &D, {"main"});
  IDESolver<IDETypeStateAnalysisDomain<OpenSSLSecureMemoryDescription>> So(A, &ICF);
  So.solve();
  int Now = 0; // BOT 0, ZEROED 1, FREED 2, ERROR 3, ALLOCATED 4
  at(*Pr.M, [&](unsigned No, I X) {
    symrt_note("statement", No);
    symrt_check(int(So.resultAt(X, named(*Pr.M, "h"))) == Now, "the state of the memory is that of its protocol");
    symrt_cover(Now == 3 ? "error" : Now == 2 ? "freed" : "other");
    if (No == P.size())
      return;
    switch (P[No]) {
    case Malloc: Now = 4; break;
    case Zalloc: Now = 1; break;
    case Free: Now = Now == 1 ? 2 : 3; break;
    case Cleanse: Now = Now == 1 || Now == 4 ? 1 : 3; break;
    default:;
    }
  });
}
