// A small concrete interpreter for pointer programs: objects with byte
// offsets, function pointers, initialised globals (virtual tables in
// particular). Reports every executed instruction and call.
#pragma once
#include "minillvm.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <algorithm>
#include <set>

struct PtrInterp {
  using V = const llvm::Value *;
  using F = const llvm::Function *;
  const llvm::Module &M;
  const llvm::DataLayout &DL;
  std::vector<std::map<int64_t, uint64_t>> Objs{{}};
  std::map<V, uint64_t> Globals;
  std::vector<F> Fns;
  std::vector<std::pair<const llvm::CallBase *, F>> Calls; // in order
  std::set<F> Entered;
  unsigned Steps = 0, MaxSteps = 400, Depth = 0, MaxDepth = 8;
  static constexpr uint64_t FnTag = uint64_t(1) << 48;
  static constexpr int ObjShift = 24;

  virtual ~PtrInterp() = default;
  virtual void at(const llvm::Instruction *, std::map<V, uint64_t> &) {}
  virtual uint64_t external(const llvm::CallBase *CB, F Callee, const std::vector<uint64_t> &Args) {
    auto N = Callee->getName();
    if (N == "malloc" || N == "_Znwm")
      return fresh();
    if (CB->getType()->isIntegerTy(1))
      return symrt_conc(sym_pickbool("input"));
    return 0;
  }
  explicit PtrInterp(const llvm::Module &Mod) : M(Mod), DL(Mod.getDataLayout()) {
    for (auto &Fn : M)
      Fns.push_back(&Fn);
    for (auto &G : M.globals())
      Globals[&G] = fresh();
    for (auto &G : M.globals())
      if (G.hasInitializer())
        fill(Globals[&G], G.getInitializer());
  }
  uint64_t fresh() {
    Objs.emplace_back();
    return uint64_t(Objs.size() - 1) << ObjShift;
  }
  uint64_t &cell(uint64_t P) {
    if (!(P >> ObjShift) || P >= FnTag)
      symrt_end(); // undefined behaviour
    return Objs[P >> ObjShift][int64_t(P & ((1 << ObjShift) - 1))];
  }
  void fill(uint64_t P, const llvm::Constant *C) {
    if (auto *S = llvm::dyn_cast<llvm::ConstantStruct>(C)) {
      for (unsigned I = 0; I < S->getNumOperands(); ++I)
        fill(P + DL.getStructLayout(S->getType())->getElementOffset(I), S->getOperand(I));
    } else if (auto *A = llvm::dyn_cast<llvm::ConstantArray>(C)) {
      for (unsigned I = 0; I < A->getNumOperands(); ++I)
        fill(P + I * DL.getTypeAllocSize(A->getType()->getElementType()), A->getOperand(I));
    } else if (llvm::isa<llvm::ConstantAggregateZero>(C) || llvm::isa<llvm::ConstantDataSequential>(C) || llvm::isa<llvm::UndefValue>(C)) {
    } else
      cell(P) = val(C, nullptr);
  }
  uint64_t gep(const llvm::GEPOperator *G, std::map<V, uint64_t> *E) {
    uint64_t P = val(G->getPointerOperand(), E);
    for (auto It = llvm::gep_type_begin(G); It != llvm::gep_type_end(G); ++It) {
      if (auto *ST = It.getStructTypeOrNull())
        P += DL.getStructLayout(ST)->getElementOffset(unsigned(llvm::cast<llvm::ConstantInt>(It.getOperand())->getZExtValue()));
      else
        P += DL.getTypeAllocSize(It.getIndexedType()) * int64_t(int32_t(val(It.getOperand(), E)));
    }
    return P;
  }
  uint64_t val(V X, std::map<V, uint64_t> *E) {
    if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(X))
      return ml::Interp::raw(CI);
    if (llvm::isa<llvm::ConstantPointerNull>(X) || llvm::isa<llvm::UndefValue>(X))
      return 0;
    if (auto *Fn = llvm::dyn_cast<llvm::Function>(X))
      return FnTag | uint64_t(std::find(Fns.begin(), Fns.end(), Fn) - Fns.begin());
    if (auto *A = llvm::dyn_cast<llvm::GlobalAlias>(X))
      return val(A->getAliasee(), E);
    if (llvm::isa<llvm::GlobalVariable>(X))
      return Globals.at(X);
    if (auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(X)) {
      if (auto *G = llvm::dyn_cast<llvm::GEPOperator>(CE))
        return gep(G, E);
      return val(CE->getOperand(0), E);
    }
    return E->at(X);
  }
  uint64_t call(const llvm::CallBase *CB, F Callee, const std::vector<uint64_t> &Args) {
    Calls.push_back({CB, Callee});
    if (Callee->isDeclaration())
      return external(CB, Callee, Args);
    return run(Callee, Args);
  }
  uint64_t run(F Fn, const std::vector<uint64_t> &Args) {
    std::map<V, uint64_t> E;
    if (++Depth > MaxDepth)
      symrt_end();
    Entered.insert(Fn);
    unsigned K = 0;
    for (auto &A : Fn->args())
      E[&A] = K < Args.size() ? Args[K++] : 0;
    const llvm::BasicBlock *BB = &Fn->getEntryBlock(), *Prev = nullptr;
    for (;;) {
      const llvm::BasicBlock *Next = nullptr;
      for (auto &IR : *BB) {
        auto *I = &IR;
        if (++Steps > MaxSteps)
          symrt_end();
        at(I, E);
        if (llvm::isa<llvm::AllocaInst>(I))
          E[I] = fresh();
        else if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I))
          cell(val(S->getPointerOperand(), &E)) = val(S->getValueOperand(), &E);
        else if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I))
          E[I] = cell(val(L->getPointerOperand(), &E));
        else if (auto *G = llvm::dyn_cast<llvm::GEPOperator>(I))
          E[I] = gep(G, &E);
        else if (llvm::isa<llvm::CastInst>(I))
          E[I] = val(I->getOperand(0), &E);
        else if (auto *B = llvm::dyn_cast<llvm::BinaryOperator>(I)) {
          auto A = val(B->getOperand(0), &E), C = val(B->getOperand(1), &E);
          E[I] = (B->getOpcode() == llvm::Instruction::Add ? A + C : A - C) & ml::mask(ml::Interp::width(B));
        } else if (auto *C = llvm::dyn_cast<llvm::ICmpInst>(I))
          E[I] = ml::Interp::cmp(C->getPredicate(), val(C->getOperand(0), &E), val(C->getOperand(1), &E), ml::Interp::width(C->getOperand(0)));
        else if (auto *P = llvm::dyn_cast<llvm::PHINode>(I))
          E[I] = val(P->getIncomingValueForBlock(Prev), &E);
        else if (auto *Se = llvm::dyn_cast<llvm::SelectInst>(I))
          E[I] = val(val(Se->getCondition(), &E) & 1 ? Se->getTrueValue() : Se->getFalseValue(), &E);
        else if (auto *CB = llvm::dyn_cast<llvm::CallBase>(I)) {
          auto Tgt = val(CB->getCalledOperand(), &E);
          if (Tgt < FnTag)
            symrt_end();
          std::vector<uint64_t> A;
          for (auto &Arg : CB->args())
            A.push_back(Arg->getType()->isMetadataTy() ? 0 : val(Arg.get(), &E));
          E[I] = call(CB, Fns[Tgt & (FnTag - 1)], A);
          if (auto *Inv = llvm::dyn_cast<llvm::InvokeInst>(CB))
            Next = Inv->getNormalDest();
        } else if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(I)) {
          Next = Br->getSuccessor(Br->isConditional() && !(val(Br->getCondition(), &E) & 1) ? 1 : 0);
        } else if (auto *Sw = llvm::dyn_cast<llvm::SwitchInst>(I)) {
          auto X = val(Sw->getCondition(), &E);
          Next = Sw->getDefaultDest();
          for (auto &Case : Sw->cases())
            if (ml::Interp::raw(Case.getCaseValue()) == X)
              Next = Case.getCaseSuccessor();
        } else if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(I)) {
          --Depth;
          return R->getReturnValue() ? val(R->getReturnValue(), &E) : 0;
        } else
          symrt_end(); // unreachable
      }
      Prev = BB;
      BB = Next;
    }
  }
};
