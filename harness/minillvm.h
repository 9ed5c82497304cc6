// LLVM-level harness support: programs are LLVM IR text chosen by the solver,
// their integer constants are symbolic (the payload of the ConstantInt objects
// is a solver variable), and a small interpreter over the parsed module is the
// reference semantics.
#pragma once
#include "symrt.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

namespace ml {
inline void quiet() {
  int D = open("/dev/null", O_WRONLY);
  dup2(D, 1);
  if (!getenv("SYM_LOUD"))
    dup2(D, 2);
  close(D);
}

// ids of the placeholders @C0, @C1, ... in the text: distinct concrete numbers
// that fit the narrowest type in use
constexpr uint64_t PlaceBase = 101;
inline std::string replaceAll(std::string S, const std::string &A, const std::string &B) {
  for (size_t P = 0; (P = S.find(A, P)) != std::string::npos; P += B.size())
    S.replace(P, A.size(), B);
  return S;
}

struct Prog {
  llvm::LLVMContext *Ctx = nullptr;
  std::unique_ptr<llvm::Module> M;
  uint64_t C[8] = {};  // the symbolic constants, masked to their width
  unsigned NumC = 0;

  // Text uses $0..$7 for symbolic constants
  explicit Prog(std::string Text) {
    for (unsigned I = 0; I < 8; ++I)
      Text = replaceAll(Text, "$" + std::to_string(I), std::to_string(PlaceBase + I));
    Ctx = new llvm::LLVMContext(); // never freed: its constants are patched
    llvm::SMDiagnostic D;
    M = llvm::parseAssemblyString(Text, D, *Ctx);
    if (!M) {
      D.print("harness", llvm::errs());
      llvm::errs() << Text;
      abort();
    }
  }
  // makes the placeholder constants of type iW symbolic
  void symbolic(unsigned W, unsigned N) {
    for (unsigned I = 0; I < N; ++I) {
      uint64_t V = sym_any<uint64_t>("const");
      if (W < 64)
        V &= (uint64_t(1) << W) - 1;
      poke(W, I, V);
    }
  }
  void poke(unsigned W, unsigned I, uint64_t V) {
    auto *CI = llvm::ConstantInt::get(*Ctx, llvm::APInt(W, PlaceBase + I));
    auto &A = const_cast<llvm::APInt &>(CI->getValue());
    memcpy(const_cast<uint64_t *>(A.getRawData()), &V, 8);
    C[I] = V;
    if (I >= NumC)
      NumC = I + 1;
  }
  const llvm::Function *fn(const char *N) { return M->getFunction(N); }
};

inline uint64_t mask(unsigned W) { return W >= 64 ? ~uint64_t(0) : (uint64_t(1) << W) - 1; }
inline int64_t sext(uint64_t V, unsigned W) { return W >= 64 ? int64_t(V) : int64_t(V << (64 - W)) >> (64 - W); }

// what a run knows: integers are masked to their width, pointers are cell
// numbers
struct Interp {
  struct Frame {
    std::map<const llvm::Value *, uint64_t> Env;
  };
  std::vector<uint64_t> Cells{0};
  std::map<const llvm::Value *, uint64_t> Globals; // cell of each global
  bool UB = false;                                 // symbolic; sticky
  unsigned Steps = 0, MaxSteps = 60, Depth = 0, MaxDepth = 4;
  virtual ~Interp() = default;
  // called before every instruction
  virtual void at(const llvm::Instruction *I, Frame &F) {}
  // result of a declared function
  virtual uint64_t external(const llvm::CallBase *CB, Frame &F) {
    unsigned W = CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 0;
    if (!W)
      return 0;
    if (W == 1)
      return sym_bool("input");
    return sym_any<uint64_t>("input") & mask(W);
  }
  static unsigned width(const llvm::Value *V) {
    return V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 64;
  }
  void init(const llvm::Module &M) {
    for (auto &G : M.globals()) {
      Globals[&G] = Cells.size();
      uint64_t V = 0;
      if (G.hasInitializer())
        if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(G.getInitializer()))
          V = raw(CI);
      Cells.push_back(V);
    }
  }
  static uint64_t raw(const llvm::ConstantInt *CI) {
    uint64_t V;
    memcpy(&V, CI->getValue().getRawData(), 8);
    return V & mask(CI->getBitWidth());
  }
  uint64_t val(const llvm::Value *V, Frame &F) {
    if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(V))
      return raw(CI);
    if (llvm::isa<llvm::ConstantPointerNull>(V))
      return 0;
    if (llvm::isa<llvm::GlobalVariable>(V))
      return Globals.at(V);
    if (auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(V))
      return val(CE->getOperand(0), F);
    return F.Env.at(V);
  }
  uint64_t bin(unsigned Op, uint64_t A, uint64_t B, unsigned W, const llvm::Instruction *I) {
    using Ins = llvm::Instruction;
    uint64_t M = mask(W), R = 0;
    int64_t SA = sext(A, W), SB = sext(B, W);
    bool Min = (A == (uint64_t(1) << (W - 1))) & (B == M);
    bool NSW = false, NUW = false;
    if (I)
      if (auto *O = llvm::dyn_cast<llvm::OverflowingBinaryOperator>(I)) {
        NSW = O->hasNoSignedWrap();
        NUW = O->hasNoUnsignedWrap();
      }
    switch (Op) {
    case Ins::Add:
      R = (A + B) & M;
      if (NSW)
        UB |= (((sext(A ^ R, W)) & (sext(B ^ R, W))) < 0);
      if (NUW)
        UB |= R < A;
      return R;
    case Ins::Sub:
      R = (A - B) & M;
      if (NSW)
        UB |= ((sext(A ^ B, W)) & (sext(A ^ R, W))) < 0;
      if (NUW)
        UB |= A < B;
      return R;
    case Ins::Mul:
      R = (A * B) & M;
      if (NSW) {
        __int128 P = __int128(SA) * SB;
        UB |= P != sext(R, W);
      }
      return R;
    case Ins::UDiv:
    case Ins::URem:
    case Ins::SDiv:
    case Ins::SRem:
      UB |= B == 0;
      if (Op == Ins::SDiv || Op == Ins::SRem)
        UB |= Min;
      // keep the division itself defined
      {
        uint64_t D = B == 0 ? 1 : B;
        int64_t SD = sext(D, W);
        int64_t SN = Min ? 0 : SA;
        switch (Op) {
        case Ins::UDiv:
          return A / D;
        case Ins::URem:
          return A % D;
        case Ins::SDiv:
          return uint64_t(SN / SD) & M;
        default:
          return uint64_t(SN % SD) & M;
        }
      }
    case Ins::And:
      return A & B;
    case Ins::Or:
      return A | B;
    case Ins::Xor:
      return A ^ B;
    case Ins::Shl:
      UB |= B >= W;
      R = (A << (B & 63)) & M;
      if (NSW || NUW)
        UB = true;
      return R;
    case Ins::LShr:
      UB |= B >= W;
      return A >> (B & 63);
    case Ins::AShr:
      UB |= B >= W;
      return uint64_t(SA >> (B & 63)) & M;
    }
    abort();
  }
  static bool cmp(llvm::CmpInst::Predicate P, uint64_t A, uint64_t B, unsigned W) {
    int64_t SA = sext(A, W), SB = sext(B, W);
    switch (P) {
    case llvm::CmpInst::ICMP_EQ: return A == B;
    case llvm::CmpInst::ICMP_NE: return A != B;
    case llvm::CmpInst::ICMP_ULT: return A < B;
    case llvm::CmpInst::ICMP_ULE: return A <= B;
    case llvm::CmpInst::ICMP_UGT: return A > B;
    case llvm::CmpInst::ICMP_UGE: return A >= B;
    case llvm::CmpInst::ICMP_SLT: return SA < SB;
    case llvm::CmpInst::ICMP_SLE: return SA <= SB;
    case llvm::CmpInst::ICMP_SGT: return SA > SB;
    case llvm::CmpInst::ICMP_SGE: return SA >= SB;
    default: abort();
    }
  }
  uint64_t sat(const llvm::BinaryOpIntrinsic *B, uint64_t L, uint64_t R, unsigned W) {
    bool Signed = B->isSigned(), Add = B->getBinaryOp() == llvm::Instruction::Add;
    // W < 64
    int64_t A = Signed ? sext(L, W) : int64_t(L), C = Signed ? sext(R, W) : int64_t(R);
    int64_t V = Add ? A + C : A - C;
    int64_t Hi = Signed ? int64_t(mask(W) >> 1) : int64_t(mask(W)), Lo = Signed ? -Hi - 1 : 0;
    V = V > Hi ? Hi : V < Lo ? Lo : V;
    return uint64_t(V) & mask(W);
  }
  uint64_t run(const llvm::Function *Fn, const std::vector<uint64_t> &Args) {
    Frame F;
    if (++Depth > MaxDepth)
      symrt_end();
    unsigned K = 0;
    for (auto &A : Fn->args())
      F.Env[&A] = Args[K++];
    const llvm::BasicBlock *BB = &Fn->getEntryBlock(), *Prev = nullptr;
    for (;;) {
      const llvm::BasicBlock *Next = nullptr;
      for (auto &IR : *BB) {
        auto *I = &IR;
        if (++Steps > MaxSteps)
          symrt_end();
        at(I, F);
        if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(I)) {
          F.Env[I] = Cells.size();
          uint64_t N = A->getAllocatedType()->isArrayTy() ? A->getAllocatedType()->getArrayNumElements() : 1;
          for (uint64_t J = 1; J < N; ++J)
            Cells.push_back(sym_any<uint64_t>("uninit"));
          Cells.push_back(sym_any<uint64_t>("uninit") & mask(A->getAllocatedType()->isIntegerTy() ? A->getAllocatedType()->getIntegerBitWidth() : 64));
        } else if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I)) {
          Cells[val(S->getPointerOperand(), F)] = val(S->getValueOperand(), F);
        } else if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I)) {
          F.Env[I] = Cells[val(L->getPointerOperand(), F)];
        } else if (auto *B = llvm::dyn_cast<llvm::BinaryOperator>(I)) {
          F.Env[I] = bin(B->getOpcode(), val(B->getOperand(0), F), val(B->getOperand(1), F), width(B), B);
        } else if (auto *C = llvm::dyn_cast<llvm::ICmpInst>(I)) {
          F.Env[I] = cmp(C->getPredicate(), val(C->getOperand(0), F), val(C->getOperand(1), F), width(C->getOperand(0)));
        } else if (auto *Z = llvm::dyn_cast<llvm::ZExtInst>(I)) {
          F.Env[I] = val(Z->getOperand(0), F);
        } else if (auto *X = llvm::dyn_cast<llvm::SExtInst>(I)) {
          F.Env[I] = uint64_t(sext(val(X->getOperand(0), F), width(X->getOperand(0)))) & mask(width(X));
        } else if (auto *T = llvm::dyn_cast<llvm::TruncInst>(I)) {
          F.Env[I] = val(T->getOperand(0), F) & mask(width(T));
        } else if (auto *BC = llvm::dyn_cast<llvm::BitCastInst>(I)) {
          F.Env[I] = val(BC->getOperand(0), F);
        } else if (auto *G = llvm::dyn_cast<llvm::GetElementPtrInst>(I)) {
          F.Env[I] = val(G->getPointerOperand(), F) + (G->hasAllZeroIndices() ? 0 : sext(val(G->getOperand(G->getNumOperands() - 1), F), 64));
        } else if (auto *P = llvm::dyn_cast<llvm::PHINode>(I)) {
          F.Env[I] = val(P->getIncomingValueForBlock(Prev), F);
        } else if (auto *Se = llvm::dyn_cast<llvm::SelectInst>(I)) {
          F.Env[I] = val(Se->getCondition(), F) & 1 ? val(Se->getTrueValue(), F) : val(Se->getFalseValue(), F);
        } else if (auto *EV = llvm::dyn_cast<llvm::ExtractValueInst>(I)) {
          auto V = val(EV->getAggregateOperand(), F);
          F.Env[I] = EV->getIndices()[0] == 0 ? V : sym_bool("ovf"); // the flag is left open
        } else if (auto *BI = llvm::dyn_cast<llvm::BinaryOpIntrinsic>(I)) {
          auto L = val(BI->getLHS(), F), R = val(BI->getRHS(), F);
          unsigned W = width(BI->getLHS());
          F.Env[I] = llvm::isa<llvm::SaturatingInst>(BI) ? sat(BI, L, R, W) : bin(BI->getBinaryOp(), L, R, W, nullptr);
        } else if (auto *CB = llvm::dyn_cast<llvm::CallBase>(I)) {
          auto *Callee = CB->getCalledFunction();
          if (!Callee || Callee->isDeclaration()) {
            F.Env[I] = external(CB, F);
          } else {
            std::vector<uint64_t> A;
            for (auto &Arg : CB->args())
              A.push_back(val(Arg.get(), F));
            F.Env[I] = run(Callee, A);
          }
        } else if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(I)) {
          if (Br->isUnconditional())
            Next = Br->getSuccessor(0);
          else
            Next = symrt_conc(val(Br->getCondition(), F) & 1) ? Br->getSuccessor(0) : Br->getSuccessor(1);
        } else if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(I)) {
          --Depth;
          return R->getReturnValue() ? val(R->getReturnValue(), F) : 0;
        } else
          abort();
      }
      Prev = BB;
      BB = Next;
    }
  }
};
} // namespace ml
