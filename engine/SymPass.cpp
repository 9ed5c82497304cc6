// SymPass: LLVM-14 pass plugin.  Rewrites a module so that, next to every
// native computation, a symbolic expression of the same value is maintained
// (null = the value does not depend on a symbolic input).  The expressions,
// the path condition and the SMT queries live in symrt.cpp.
//
// Nothing in here knows about phasar: it instruments whatever clang lowered
// from the sources it was given.
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

using namespace llvm;

namespace {

struct Instrumenter {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  PointerType *P8;
  IntegerType *I1, *I8, *I32, *I64;
  Constant *Null;
  GlobalVariable *ArgArr, *RetArr, *RetTag;

  FunctionCallee FEnter, FCall, FExt, FRetGet, FRetSet, FBin, FICmp, FCast,
      FSelect, FLoad, FStore, FGep, FBranch, FSwitch, FConc, FConcMem, FClear,
      FMemcpy, FMemset, FIntr, FOvf, FByvalSet, FByvalGet, FClearMem;

  explicit Instrumenter(Module &M)
      : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    P8 = Type::getInt8PtrTy(C);
    I1 = Type::getInt1Ty(C);
    I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    Null = ConstantPointerNull::get(P8);
    auto *PP = P8->getPointerTo();
    auto *V = Type::getVoidTy(C);
    ArgArr = ext("__sym_args", ArrayType::get(P8, 64));
    RetArr = ext("__sym_ret", ArrayType::get(P8, 16));
    RetTag = ext("__sym_ret_tag", P8);
    FEnter = M.getOrInsertFunction("__sym_enter", PP, P8);
    FCall = M.getOrInsertFunction("__sym_call", V, P8, I32);
    FExt = M.getOrInsertFunction(
        "__sym_ext", FunctionType::get(V, {P8, P8, I32}, true));
    FRetGet = M.getOrInsertFunction("__sym_ret_get", PP, P8);
    FRetSet = M.getOrInsertFunction("__sym_ret_set", V, P8, I32);
    FBin = M.getOrInsertFunction("__sym_bin", P8, I32, P8, I64, P8, I64, I32);
    FICmp = M.getOrInsertFunction("__sym_icmp", P8, I32, P8, I64, P8, I64, I32);
    FCast = M.getOrInsertFunction("__sym_cast", P8, I32, P8, I64, I32, I32);
    FSelect = M.getOrInsertFunction("__sym_select", P8, P8, I32, P8, I64, P8,
                                    I64, I32);
    FLoad = M.getOrInsertFunction("__sym_load", P8, P8, P8, I32, I32);
    FStore = M.getOrInsertFunction("__sym_store", V, P8, P8, P8, I32, I32);
    FGep = M.getOrInsertFunction("__sym_gep", P8, P8, I64, P8, I64, I64);
    FBranch = M.getOrInsertFunction("__sym_branch", V, P8, I32);
    FSwitch = M.getOrInsertFunction("__sym_switch", V, P8, I64, I32, P8, I32);
    FConc = M.getOrInsertFunction("__sym_conc", V, P8, I64, P8);
    FConcMem = M.getOrInsertFunction("__sym_conc_mem", V, P8, P8, I64, P8);
    FClear = M.getOrInsertFunction("__sym_clear", V, P8, I64);
    FMemcpy =
        M.getOrInsertFunction("__sym_memcpy", V, P8, P8, P8, P8, I64, P8);
    FMemset =
        M.getOrInsertFunction("__sym_memset", V, P8, P8, I8, P8, I64, P8);
    FIntr = M.getOrInsertFunction("__sym_intr", P8, I32, P8, I64, P8, I64, I32);
    FOvf = M.getOrInsertFunction("__sym_ovf", P8, I32, P8, I64, P8, I64, I32);
    FByvalSet = M.getOrInsertFunction("__sym_byval_set", V, P8, I32, P8, I64);
    FByvalGet = M.getOrInsertFunction("__sym_byval_get", V, P8, I32, P8, I64);
  }

  GlobalVariable *ext(StringRef N, Type *T) {
    return cast<GlobalVariable>(M.getOrInsertGlobal(N, T));
  }

  // ---- leaves -------------------------------------------------------------
  void leafTypes(Type *T, uint64_t Off,
                 SmallVectorImpl<std::pair<Type *, uint64_t>> &Out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      const auto *L = DL.getStructLayout(S);
      for (unsigned I = 0; I < S->getNumElements(); ++I)
        leafTypes(S->getElementType(I), Off + L->getElementOffset(I), Out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      auto Sz = DL.getTypeAllocSize(A->getElementType());
      for (unsigned I = 0; I < A->getNumElements(); ++I)
        leafTypes(A->getElementType(), Off + I * Sz, Out);
    } else if (!T->isVoidTy() && !T->isTokenTy() && !T->isMetadataTy() &&
               !T->isLabelTy()) {
      Out.emplace_back(T, Off);
    }
  }
  unsigned numLeaves(Type *T) {
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy())
      return 0;
    if (!T->isAggregateType())
      return 1;
    SmallVector<std::pair<Type *, uint64_t>, 8> L;
    leafTypes(T, 0, L);
    return L.size();
  }
  // index of first leaf of sub-aggregate
  unsigned leafIndex(Type *T, ArrayRef<unsigned> Idx) {
    unsigned R = 0;
    for (unsigned I : Idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned J = 0; J < I; ++J)
          R += numLeaves(S->getElementType(J));
        T = S->getElementType(I);
      } else {
        auto *A = cast<ArrayType>(T);
        R += I * numLeaves(A->getElementType());
        T = A->getElementType();
      }
    }
    return R;
  }
  // bit width if the engine can represent it, else 0
  unsigned width(Type *T) {
    if (auto *I = dyn_cast<IntegerType>(T))
      return I->getBitWidth() <= 64 ? I->getBitWidth() : 0;
    if (T->isPointerTy())
      return 64;
    if (T->isFloatTy())
      return 32;
    if (T->isDoubleTy())
      return 64;
    return 0;
  }
  Value *asI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (auto *I = dyn_cast<IntegerType>(T)) {
      if (I->getBitWidth() == 64)
        return V;
      if (I->getBitWidth() < 64)
        return B.CreateZExt(V, I64);
      return B.CreateTrunc(V, I64);
    }
    if (T->isPointerTy())
      return B.CreatePtrToInt(V, I64);
    if (T->isFloatTy())
      return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isDoubleTy())
      return B.CreateBitCast(V, I64);
    return ConstantInt::get(I64, 0);
  }
  Value *asP8(IRBuilder<> &B, Value *V) { return B.CreatePointerCast(V, P8); }

  // ---- per function -------------------------------------------------------
  using Shadow = SmallVector<Value *, 1>;
  DenseMap<Value *, Shadow> Sh;
  Function *F = nullptr;
  SmallVector<std::pair<PHINode *, SmallVector<PHINode *, 1>>, 16> Phis;

  Value *sh(Value *V, unsigned I = 0) {
    if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V) ||
        isa<BasicBlock>(V))
      return Null;
    auto It = Sh.find(V);
    if (It == Sh.end() || I >= It->second.size())
      return Null;
    return It->second[I];
  }
  bool isNull(Value *S) { return S == Null; }
  bool allNull(Value *V) {
    if (isa<Constant>(V))
      return true;
    auto It = Sh.find(V);
    if (It == Sh.end())
      return true;
    for (auto *S : It->second)
      if (!isNull(S))
        return false;
    return true;
  }
  void setSh(Value *V, Value *S) {
    Sh[V].clear();
    Sh[V].push_back(S);
  }
  CallInst *rt(IRBuilder<> &B, FunctionCallee Fn, ArrayRef<Value *> A) {
    auto *CI = B.CreateCall(Fn, A);
    CI->setDebugLoc(DebugLoc());
    // inside functions with !dbg, calls to inlinable functions need !dbg; the
    // runtime is never inlined, so no location is required.
    return CI;
  }
  Constant *c32(uint32_t V) { return ConstantInt::get(I32, V); }
  Constant *c64(uint64_t V) { return ConstantInt::get(I64, V); }
  Constant *why(IRBuilder<> &B, StringRef S) {
    auto &G = WhyStr[S];
    if (!G) {
      auto *Str = ConstantDataArray::getString(C, S);
      G = new GlobalVariable(M, Str->getType(), true,
                             GlobalValue::PrivateLinkage, Str, "symwhy");
    }
    return ConstantExpr::getPointerCast(G, P8);
  }
  StringMap<GlobalVariable *> WhyStr;

  void conc(IRBuilder<> &B, Value *V, StringRef Why) {
    // concretise every leaf of V that may be symbolic
    if (allNull(V))
      return;
    if (V->getType()->isAggregateType()) {
      SmallVector<std::pair<Type *, uint64_t>, 8> L;
      leafTypes(V->getType(), 0, L);
      // recover leaf values through extractvalue
      SmallVector<unsigned, 4> Path;
      concAgg(B, V, V->getType(), Path, 0, Why);
      return;
    }
    Value *S = sh(V);
    if (!isNull(S))
      rt(B, FConc, {S, asI64(B, V), why(B, Why)});
  }
  unsigned concAgg(IRBuilder<> &B, Value *V, Type *T,
                   SmallVectorImpl<unsigned> &Path, unsigned Idx,
                   StringRef Why) {
    if (T->isAggregateType()) {
      unsigned N = T->isStructTy() ? T->getStructNumElements()
                                   : T->getArrayNumElements();
      for (unsigned I = 0; I < N; ++I) {
        Path.push_back(I);
        Idx = concAgg(B, V,
                      T->isStructTy() ? T->getStructElementType(I)
                                      : T->getArrayElementType(),
                      Path, Idx, Why);
        Path.pop_back();
      }
      return Idx;
    }
    Value *S = sh(V, Idx);
    if (!isNull(S))
      rt(B, FConc,
         {S, asI64(B, B.CreateExtractValue(V, Path)), why(B, Why)});
    return Idx + 1;
  }

  // ---- calls --------------------------------------------------------------
  void handleIntrinsic(IntrinsicInst *II) {
    IRBuilder<> B(II);
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline: {
      auto *D = II->getArgOperand(0), *S = II->getArgOperand(1),
           *N = II->getArgOperand(2);
      rt(B, FMemcpy,
         {asP8(B, D), sh(D), asP8(B, S), sh(S), asI64(B, N), sh(N)});
      return;
    }
    case Intrinsic::memset: {
      auto *D = II->getArgOperand(0), *S = II->getArgOperand(1),
           *N = II->getArgOperand(2);
      rt(B, FMemset, {asP8(B, D), sh(D), S, sh(S), asI64(B, N), sh(N)});
      return;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::umul_with_overflow: {
      auto *X = II->getArgOperand(0), *Y = II->getArgOperand(1);
      unsigned W = width(X->getType());
      if (isNull(sh(X)) && isNull(sh(Y)))
        return;
      if (!W) {
        conc(B, X, "wide-ovf");
        conc(B, Y, "wide-ovf");
        return;
      }
      unsigned K = 0, BinOp = 0;
      switch (II->getIntrinsicID()) {
      case Intrinsic::sadd_with_overflow: K = 0; BinOp = Instruction::Add; break;
      case Intrinsic::uadd_with_overflow: K = 1; BinOp = Instruction::Add; break;
      case Intrinsic::ssub_with_overflow: K = 2; BinOp = Instruction::Sub; break;
      case Intrinsic::usub_with_overflow: K = 3; BinOp = Instruction::Sub; break;
      case Intrinsic::smul_with_overflow: K = 4; BinOp = Instruction::Mul; break;
      default: K = 5; BinOp = Instruction::Mul; break;
      }
      auto *XV = asI64(B, X), *YV = asI64(B, Y);
      Shadow S;
      S.push_back(rt(B, FBin, {c32(BinOp), sh(X), XV, sh(Y), YV, c32(W)}));
      S.push_back(rt(B, FOvf, {c32(K), sh(X), XV, sh(Y), YV, c32(W)}));
      Sh[II] = S;
      return;
    }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin:
    case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::ctpop:
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat:
    case Intrinsic::bitreverse: {
      auto *X = II->getArgOperand(0);
      bool Two = II->arg_size() > 1 &&
                 II->getArgOperand(1)->getType() == X->getType();
      Value *Y = Two ? II->getArgOperand(1) : nullptr;
      if (isNull(sh(X)) && (!Y || isNull(sh(Y))))
        return;
      unsigned W = width(X->getType());
      unsigned K = ~0u;
      switch (II->getIntrinsicID()) {
      case Intrinsic::umin: K = 0; break;
      case Intrinsic::umax: K = 1; break;
      case Intrinsic::smin: K = 2; break;
      case Intrinsic::smax: K = 3; break;
      case Intrinsic::abs: K = 4; break;
      case Intrinsic::ctpop: K = 5; break;
      case Intrinsic::ctlz: K = 6; break;
      case Intrinsic::cttz: K = 7; break;
      case Intrinsic::bswap: K = 8; break;
      case Intrinsic::usub_sat: K = 9; break;
      default: break;
      }
      if (!W || K == ~0u || !X->getType()->isIntegerTy()) {
        conc(B, X, "intr");
        if (Y)
          conc(B, Y, "intr");
        return;
      }
      setSh(II, rt(B, FIntr,
                   {c32(K), sh(X), asI64(B, X), Y ? sh(Y) : Null,
                    Y ? asI64(B, Y) : c64(0), c32(W)}));
      return;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      auto *X = II->getArgOperand(0), *Y = II->getArgOperand(1),
           *Z = II->getArgOperand(2);
      if (isNull(sh(X)) && isNull(sh(Y)) && isNull(sh(Z)))
        return;
      unsigned W = width(X->getType());
      conc(B, Z, "fsh-amount");
      auto *ZC = dyn_cast<ConstantInt>(Z);
      if (!W || !ZC || ZC->getZExtValue() % W == 0) {
        conc(B, X, "fsh");
        conc(B, Y, "fsh");
        return;
      }
      unsigned A = ZC->getZExtValue() % W;
      if (II->getIntrinsicID() == Intrinsic::fshr)
        A = W - A;
      auto *XV = asI64(B, X), *YV = asI64(B, Y);
      auto *S1 = rt(B, FBin, {c32(Instruction::Shl), sh(X), XV, Null, c64(A), c32(W)});
      auto *S2 = rt(B, FBin, {c32(Instruction::LShr), sh(Y), YV, Null, c64(W - A), c32(W)});
      auto *V1 = asI64(B, B.CreateShl(X, A));
      auto *V2 = asI64(B, B.CreateLShr(Y, W - A));
      setSh(II, rt(B, FBin, {c32(Instruction::Or), S1, V1, S2, V2, c32(W)}));
      return;
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::ssa_copy:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::annotation:
      if (!allNull(II->getArgOperand(0)))
        setSh(II, sh(II->getArgOperand(0)));
      return;
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::stacksave:
    case Intrinsic::stackrestore:
    case Intrinsic::prefetch:
    case Intrinsic::donothing:
      return;
    default:
      if (isa<DbgInfoIntrinsic>(II))
        return;
      for (auto &A : II->args())
        conc(B, A, ("intr:" + II->getCalledFunction()->getName()).str());
      return;
    }
  }

  static bool noInspect(StringRef N) {
    // externals that never look at the bytes behind their pointer arguments in
    // a way that could influence the result (allocation, EH plumbing, tree
    // rebalancing which only touches concrete colours and links, ...)
    static const StringSet<> S = {
        "free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_Znwm", "_Znam",
        "malloc", "calloc", "__cxa_begin_catch", "__cxa_end_catch",
        "__cxa_allocate_exception", "__cxa_throw", "__cxa_free_exception",
        "__cxa_rethrow", "__cxa_atexit", "__cxa_guard_acquire",
        "__cxa_guard_release", "__cxa_guard_abort", "_Unwind_Resume",
        "__gxx_personality_v0", "_ZSt9terminatev", "__cxa_pure_virtual",
        "__clang_call_terminate", "__dynamic_cast",
        "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
        "_ZnwmSt11align_val_t", "__assert_fail", "abort", "exit", "_exit",
        "pthread_mutex_lock", "pthread_mutex_unlock",
        "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
        "pthread_rwlock_unlock", "memcpy", "memmove", "memset", "realloc",
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZNSt8__detail15_List_node_base7_M_hookEPS0_",
        "_ZNSt8__detail15_List_node_base9_M_unhookEv",
        "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_",
        "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm",
        "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm",
        "_ZN4llvm15SmallVectorBaseIjE8grow_podEPvmm",
        "_ZN4llvm15SmallVectorBaseIjE13mallocForGrowEmmRm",
        "_ZN4llvm15SmallVectorBaseImE8grow_podEPvmm",
        "_ZN4llvm15SmallVectorBaseImE13mallocForGrowEmmRm",
        "_ZN4llvm15allocate_bufferEmm", "_ZN4llvm17deallocate_bufferEPvmm",
    };
    return S.contains(N) || N.startswith("_ZSt") && N.contains("__throw_");
  }

  void handleCall(CallBase *CB) {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      handleIntrinsic(II);
      return;
    }
    IRBuilder<> B(CB);
    if (CB->isInlineAsm()) {
      for (auto &A : CB->args())
        conc(B, A, "asm");
      return;
    }
    auto *CF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    StringRef Name = CF ? CF->getName() : "";
    if (Name.startswith("__sym_"))
      return;
    if (CF && (Name == "memcpy" || Name == "memmove") && CB->arg_size() == 3) {
      auto *D = CB->getArgOperand(0), *S = CB->getArgOperand(1),
           *N = CB->getArgOperand(2);
      rt(B, FMemcpy,
         {asP8(B, D), sh(D), asP8(B, S), sh(S), asI64(B, N), sh(N)});
      return;
    }
    static const StringMap<StringRef> Redirect = {
        {"memcmp", "symlibc_memcmp"}, {"bcmp", "symlibc_bcmp"},
        {"strlen", "symlibc_strlen"}, {"strcmp", "symlibc_strcmp"},
        {"memchr", "symlibc_memchr"}, {"strtol", "symlibc_strtol"}};
    if (CF && CF->isDeclaration()) {
      auto It = Redirect.find(Name);
      if (It != Redirect.end()) {
        auto R = M.getOrInsertFunction(It->second, CF->getFunctionType());
        CB->setCalledFunction(R);
        CB->setAttributes({});
        CF = cast<Function>(R.getCallee());
        Name = CF->getName();
      }
    }
    Value *Callee = CB->getCalledOperand();
    if (!isa<Function>(Callee) && !isNull(sh(Callee)))
      conc(B, Callee, "callee");
    Value *CP = asP8(B, Callee);
    bool LocalDef = CF && !CF->isDeclarationForLinker();

    // arguments
    unsigned Slot = 0;
    bool Any = false;
    bool HasByval = false;
    for (unsigned I = 0; I < CB->arg_size(); ++I) {
      auto *A = CB->getArgOperand(I);
      if (!allNull(A))
        Any = true;
      if (CB->isByValArgument(I))
        HasByval = true;
    }
    if (HasByval)
      for (unsigned I = 0; I < CB->arg_size(); ++I)
        if (CB->isByValArgument(I))
          rt(B, FByvalSet,
             {CP, c32(I), asP8(B, CB->getArgOperand(I)),
              c64(DL.getTypeAllocSize(CB->getParamByValType(I)))});
    if (Any) {
      for (unsigned I = 0; I < CB->arg_size(); ++I) {
        auto *A = CB->getArgOperand(I);
        unsigned N = numLeaves(A->getType());
        for (unsigned L = 0; L < N; ++L, ++Slot) {
          if (Slot >= 64) {
            conc(B, A, "too-many-args");
            continue;
          }
          B.CreateStore(sh(A, L),
                        B.CreateConstInBoundsGEP2_32(ArgArr->getValueType(),
                                                     ArgArr, 0, Slot));
        }
      }
      rt(B, FCall, {CP, c32(std::min(Slot, 64u))});
    }
    // externals: symbolic bytes behind pointer arguments
    if (!LocalDef && !Name.startswith("symrt_") &&
        !Name.startswith("symlibc_") && !noInspect(Name)) {
      SmallVector<Value *, 8> A{CP, why(B, CF ? ("ext:" + Name).str() : std::string("ext:indirect")),
                                nullptr};
      unsigned N = 0;
      for (auto &Arg : CB->args())
        if (Arg->getType()->isPointerTy() && !isa<Constant>(Arg)) {
          // (pointer, bytes the static pointee type covers; 0 = unknown)
          A.push_back(asP8(B, Arg));
          Type *ET = Arg->getType()->getPointerElementType();
          uint64_t Sz = 0;
          if (ET->isSized() && ET != I8)
            Sz = DL.getTypeAllocSize(ET);
          A.push_back(c64(Sz));
          ++N;
        }
      A[2] = c32(N);
      if (N)
        rt(B, FExt, A);
    }
    // result
    unsigned RN = numLeaves(CB->getType());
    if (RN && !CB->use_empty() && RN <= 16) {
      if (CF && CF->isDeclaration() && noInspect(Name))
        return;
      if (auto *CI = dyn_cast<CallInst>(CB))
        if (CI->isMustTailCall())
          return;
      Instruction *IP;
      if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
        BasicBlock *ND = Inv->getNormalDest();
        IP = &*ND->getFirstInsertionPt();
      } else {
        IP = CB->getNextNode();
      }
      IRBuilder<> A(IP);
      auto *R = rt(A, FRetGet, {CP});
      Shadow S;
      for (unsigned I = 0; I < RN; ++I)
        S.push_back(A.CreateLoad(P8, A.CreateConstGEP1_32(P8, R, I)));
      Sh[CB] = S;
    }
  }

  void visit(Instruction *I) {
    IRBuilder<> B(I);
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      auto *X = BO->getOperand(0), *Y = BO->getOperand(1);
      if (isNull(sh(X)) && isNull(sh(Y)))
        return;
      unsigned W = width(I->getType());
      if (!W || !I->getType()->isIntegerTy()) {
        conc(B, X, "fp/wide-bin");
        conc(B, Y, "fp/wide-bin");
        return;
      }
      setSh(I, rt(B, FBin,
                  {c32(BO->getOpcode()), sh(X), asI64(B, X), sh(Y),
                   asI64(B, Y), c32(W)}));
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      auto *X = IC->getOperand(0), *Y = IC->getOperand(1);
      if (isNull(sh(X)) && isNull(sh(Y)))
        return;
      unsigned W = width(X->getType());
      if (!W) {
        conc(B, X, "wide-icmp");
        conc(B, Y, "wide-icmp");
        return;
      }
      setSh(I, rt(B, FICmp,
                  {c32(IC->getPredicate()), sh(X), asI64(B, X), sh(Y),
                   asI64(B, Y), c32(W)}));
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      auto *X = CI->getOperand(0);
      if (isNull(sh(X)))
        return;
      unsigned WF = width(X->getType()), WT = width(I->getType());
      switch (CI->getOpcode()) {
      case Instruction::Trunc:
      case Instruction::ZExt:
      case Instruction::SExt:
        if (!WF || !WT) {
          conc(B, X, "wide-cast");
          return;
        }
        setSh(I, rt(B, FCast,
                    {c32(CI->getOpcode()), sh(X), asI64(B, X), c32(WF),
                     c32(WT)}));
        return;
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast:
        if (WF && WF == WT)
          setSh(I, sh(X));
        else if (WF && WT)
          setSh(I, rt(B, FCast,
                      {c32(WT < WF ? Instruction::Trunc : Instruction::ZExt),
                       sh(X), asI64(B, X), c32(WF), c32(WT)}));
        else
          conc(B, X, "vec-cast");
        return;
      default:
        conc(B, X, "fp-cast");
        return;
      }
    }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
      auto *Cc = SI->getCondition(), *X = SI->getTrueValue(),
           *Y = SI->getFalseValue();
      if (Cc->getType()->isVectorTy())
        return;
      unsigned W = width(I->getType());
      if (W && !I->getType()->isAggregateType()) {
        if (isNull(sh(Cc)) && isNull(sh(X)) && isNull(sh(Y)))
          return;
        setSh(I, rt(B, FSelect,
                    {sh(Cc), B.CreateZExt(Cc, I32), sh(X), asI64(B, X), sh(Y),
                     asI64(B, Y), c32(W)}));
        return;
      }
      if (!isNull(sh(Cc)))
        rt(B, FBranch, {sh(Cc), B.CreateZExt(Cc, I32)});
      unsigned N = numLeaves(I->getType());
      if (allNull(X) && allNull(Y))
        return;
      Shadow S;
      for (unsigned L = 0; L < N; ++L)
        S.push_back(B.CreateSelect(Cc, sh(X, L), sh(Y, L)));
      Sh[I] = S;
      return;
    }
    if (auto *LI = dyn_cast<LoadInst>(I)) {
      auto *P = LI->getPointerOperand();
      Type *T = LI->getType();
      if (T->isVectorTy() || (!T->isAggregateType() && !width(T))) {
        rt(B, FConcMem,
           {asP8(B, P), sh(P), c64(DL.getTypeStoreSize(T)),
            why(B, "vec/wide-load")});
        return;
      }
      SmallVector<std::pair<Type *, uint64_t>, 4> L;
      leafTypes(T, 0, L);
      Shadow S;
      // the shadow load may concretise a symbolic address: do it first
      auto *Base = asP8(B, P);
      for (auto &[LT, Off] : L) {
        unsigned W = width(LT);
        if (!W) {
          rt(B, FConcMem,
             {B.CreateConstGEP1_64(I8, Base, Off), sh(P),
              c64(DL.getTypeStoreSize(LT)), why(B, "vec/wide-load")});
          S.push_back(Null);
          continue;
        }
        S.push_back(rt(B, FLoad,
                       {Off ? B.CreateConstGEP1_64(I8, Base, Off) : Base,
                        Off ? (Value *)Null : sh(P),
                        c32(DL.getTypeStoreSize(LT)), c32(W)}));
      }
      Sh[I] = S;
      return;
    }
    if (auto *SI = dyn_cast<StoreInst>(I)) {
      auto *P = SI->getPointerOperand();
      auto *V = SI->getValueOperand();
      Type *T = V->getType();
      auto *Base = asP8(B, P);
      if (T->isVectorTy() || (!T->isAggregateType() && !width(T))) {
        conc(B, V, "vec/wide-store");
        if (!isNull(sh(P)))
          conc(B, P, "addr");
        rt(B, FClear, {Base, c64(DL.getTypeStoreSize(T))});
        return;
      }
      SmallVector<std::pair<Type *, uint64_t>, 4> L;
      leafTypes(T, 0, L);
      unsigned Idx = 0;
      for (auto &[LT, Off] : L) {
        unsigned W = width(LT);
        auto *A = Off ? B.CreateConstGEP1_64(I8, Base, Off) : Base;
        if (!W)
          rt(B, FClear, {A, c64(DL.getTypeStoreSize(LT))});
        else
          rt(B, FStore,
             {A, Off ? (Value *)Null : sh(P), sh(V, Idx),
              c32(DL.getTypeStoreSize(LT)), c32(W)});
        ++Idx;
      }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (I->getType()->isVectorTy())
        return;
      bool Any = !isNull(sh(G->getPointerOperand()));
      for (auto &Ix : G->indices())
        Any |= !isNull(sh(Ix));
      if (!Any)
        return;
      Value *E = sh(G->getPointerOperand());
      Value *V = asI64(B, G->getPointerOperand());
      for (auto GTI = gep_type_begin(G), GE = gep_type_end(G); GTI != GE;
           ++GTI) {
        Value *Ix = GTI.getOperand();
        if (auto *ST = GTI.getStructTypeOrNull()) {
          uint64_t O = DL.getStructLayout(ST)->getElementOffset(
              cast<ConstantInt>(Ix)->getZExtValue());
          if (!O)
            continue;
          E = rt(B, FGep, {E, V, Null, c64(1), c64(O)});
          V = B.CreateAdd(V, c64(O));
          continue;
        }
        uint64_t Sz = DL.getTypeAllocSize(GTI.getIndexedType());
        if (auto *CI = dyn_cast<ConstantInt>(Ix))
          if (CI->isZero())
            continue;
        Value *IE = sh(Ix);
        unsigned W = width(Ix->getType());
        if (!isNull(IE) && W < 64)
          IE = rt(B, FCast,
                  {c32(Instruction::SExt), IE, asI64(B, Ix), c32(W), c32(64)});
        Value *IV = B.CreateSExtOrTrunc(Ix, I64);
        E = rt(B, FGep, {E, V, IE, IV, c64(Sz)});
        V = B.CreateAdd(V, B.CreateMul(IV, c64(Sz)));
      }
      setSh(I, E);
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isConditional() && !isNull(sh(Br->getCondition())) &&
          Br->getSuccessor(0) != Br->getSuccessor(1))
        rt(B, FBranch,
           {sh(Br->getCondition()), B.CreateZExt(Br->getCondition(), I32)});
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      auto *Cc = Sw->getCondition();
      if (isNull(sh(Cc)) || !Sw->getNumCases())
        return;
      unsigned W = width(Cc->getType());
      if (!W) {
        conc(B, Cc, "wide-switch");
        return;
      }
      // groups of case values per successor: [n, v1..vn, n, v1..vn, ..., 0]
      MapVector<BasicBlock *, SmallVector<uint64_t, 4>> Grp;
      for (auto &Cs : Sw->cases())
        if (Cs.getCaseSuccessor() != Sw->getDefaultDest())
          Grp[Cs.getCaseSuccessor()].push_back(
              Cs.getCaseValue()->getZExtValue());
      SmallVector<uint64_t, 32> Tab;
      for (auto &[BB, Vs] : Grp) {
        Tab.push_back(Vs.size());
        Tab.append(Vs.begin(), Vs.end());
      }
      auto *Arr = ConstantDataArray::get(C, ArrayRef<uint64_t>(Tab));
      auto *GV = new GlobalVariable(M, Arr->getType(), true,
                                    GlobalValue::PrivateLinkage, Arr, "symsw");
      rt(B, FSwitch,
         {sh(Cc), asI64(B, Cc), c32(W), ConstantExpr::getPointerCast(GV, P8),
          c32(Grp.size())});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      handleCall(CB);
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      auto *V = R->getReturnValue();
      if (!V)
        return;
      if (auto *Prev = R->getPrevNode())
        if (auto *PC = dyn_cast<CallInst>(Prev))
          if (PC->isMustTailCall())
            return;
      unsigned N = numLeaves(V->getType());
      if (!N || N > 16)
        return;
      if (allNull(V)) {
        B.CreateStore(Null, RetTag);
        return;
      }
      for (unsigned L = 0; L < N; ++L)
        B.CreateStore(sh(V, L), B.CreateConstInBoundsGEP2_32(
                                    RetArr->getValueType(), RetArr, 0, L));
      rt(B, FRetSet, {ConstantExpr::getPointerCast(F, P8), c32(N)});
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      auto *A = EV->getAggregateOperand();
      if (allNull(A))
        return;
      unsigned K = leafIndex(A->getType(), EV->getIndices());
      unsigned N = numLeaves(I->getType());
      Shadow S;
      for (unsigned L = 0; L < N; ++L)
        S.push_back(sh(A, K + L));
      Sh[I] = S;
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      auto *A = IV->getAggregateOperand(), *V = IV->getInsertedValueOperand();
      if (allNull(A) && allNull(V))
        return;
      unsigned K = leafIndex(A->getType(), IV->getIndices());
      unsigned NV = numLeaves(V->getType()), N = numLeaves(I->getType());
      Shadow S;
      for (unsigned L = 0; L < N; ++L)
        S.push_back(L >= K && L < K + NV ? sh(V, L - K) : sh(A, L));
      Sh[I] = S;
      return;
    }
    if (auto *Fz = dyn_cast<FreezeInst>(I)) {
      if (!allNull(Fz->getOperand(0)))
        Sh[I] = Sh[Fz->getOperand(0)];
      return;
    }
    if (auto *RMW = dyn_cast<AtomicRMWInst>(I)) {
      auto *P = RMW->getPointerOperand();
      conc(B, RMW->getValOperand(), "atomic");
      rt(B, FConcMem,
         {asP8(B, P), sh(P),
          c64(DL.getTypeStoreSize(RMW->getValOperand()->getType())),
          why(B, "atomic")});
      rt(B, FClear,
         {asP8(B, P),
          c64(DL.getTypeStoreSize(RMW->getValOperand()->getType()))});
      return;
    }
    if (auto *CX = dyn_cast<AtomicCmpXchgInst>(I)) {
      auto *P = CX->getPointerOperand();
      auto Sz = DL.getTypeStoreSize(CX->getNewValOperand()->getType());
      conc(B, CX->getNewValOperand(), "atomic");
      conc(B, CX->getCompareOperand(), "atomic");
      rt(B, FConcMem, {asP8(B, P), sh(P), c64(Sz), why(B, "atomic")});
      rt(B, FClear, {asP8(B, P), c64(Sz)});
      return;
    }
    if (auto *AI = dyn_cast<AllocaInst>(I)) {
      if (auto *N = dyn_cast<ConstantInt>(AI->getArraySize())) {
        IRBuilder<> A(I->getNextNode());
        // placed after the last entry-block alloca
        AllocasToClear.push_back({AI, DL.getTypeAllocSize(AI->getAllocatedType()) * N->getZExtValue()});
      } else {
        conc(B, AI->getArraySize(), "alloca");
      }
      return;
    }
    if (isa<PHINode>(I) || isa<LandingPadInst>(I) || isa<UnreachableInst>(I) ||
        isa<ResumeInst>(I) || isa<FenceInst>(I))
      return;
    // everything else (fp, vectors, indirectbr, va_arg): concretise operands
    for (auto &Op : I->operands())
      if (isa<Instruction>(Op) || isa<Argument>(Op))
        conc(B, Op, "other");
  }

  SmallVector<std::pair<AllocaInst *, uint64_t>, 16> AllocasToClear;

  void run(Function &Fn) {
    F = &Fn;
    Sh.clear();
    Phis.clear();
    AllocasToClear.clear();
    // the result of an invoke is picked up at the head of its normal
    // destination, which must not be shared with other predecessors
    SmallVector<InvokeInst *, 16> Invs;
    for (auto &I : instructions(Fn))
      if (auto *Inv = dyn_cast<InvokeInst>(&I))
        if (!Inv->getNormalDest()->getSinglePredecessor())
          Invs.push_back(Inv);
    for (auto *Inv : Invs)
      if (!Inv->getNormalDest()->getSinglePredecessor())
        SplitEdge(Inv->getParent(), Inv->getNormalDest());
    SmallVector<Instruction *, 64> Insts;
    // reverse post order so operands are visited before users (phis aside)
    ReversePostOrderTraversal<Function *> RPOT(&Fn);
    for (auto *BB : RPOT)
      for (auto &I : *BB)
        Insts.push_back(&I);
    // entry
    Instruction *IP = &*Fn.getEntryBlock().getFirstInsertionPt();
    while (isa<AllocaInst>(IP))
      IP = IP->getNextNode();
    IRBuilder<> B(IP);
    unsigned N = 0;
    for (auto &A : Fn.args())
      N += numLeaves(A.getType());
    bool Main = Fn.getName() == "main";
    if (N && !Main) {
      auto *R = rt(B, FEnter, {ConstantExpr::getPointerCast(&Fn, P8)});
      unsigned Slot = 0;
      for (auto &A : Fn.args()) {
        unsigned L = numLeaves(A.getType());
        Shadow S;
        for (unsigned I = 0; I < L; ++I, ++Slot) {
          if (A.use_empty() || Slot >= 64 || A.hasByValAttr() ||
              A.hasStructRetAttr()) {
            S.push_back(Null);
            continue;
          }
          S.push_back(B.CreateLoad(P8, B.CreateConstGEP1_32(P8, R, Slot)));
        }
        Sh[&A] = S;
        if (A.hasByValAttr())
          rt(B, FByvalGet,
             {ConstantExpr::getPointerCast(&Fn, P8), c32(A.getArgNo()),
              asP8(B, &A), c64(DL.getTypeAllocSize(A.getParamByValType()))});
      }
    }
    // allocas are cleared here, before anything is stored into them
    Instruction *ClearPt = B.CreateCall(
        Intrinsic::getDeclaration(&M, Intrinsic::donothing), {});
    // phis first
    for (auto *I : Insts)
      if (auto *P = dyn_cast<PHINode>(I)) {
        unsigned L = numLeaves(P->getType());
        SmallVector<PHINode *, 1> SP;
        Shadow S;
        IRBuilder<> PB(P);
        bool AllConst = true;
        for (auto &V : P->incoming_values())
          if (!isa<Constant>(V))
            AllConst = false;
        if (AllConst)
          continue;
        for (unsigned K = 0; K < L; ++K) {
          auto *NP = PB.CreatePHI(P8, P->getNumIncomingValues());
          SP.push_back(NP);
          S.push_back(NP);
        }
        Sh[P] = S;
        Phis.push_back({P, SP});
      }
    for (auto *I : Insts)
      visit(I);
    for (auto &[P, SP] : Phis)
      for (unsigned K = 0; K < SP.size(); ++K)
        for (unsigned J = 0; J < P->getNumIncomingValues(); ++J)
          SP[K]->addIncoming(sh(P->getIncomingValue(J), K),
                             P->getIncomingBlock(J));
    // drop phis that are trivially null (iterate: they feed each other)
    bool Changed = true;
    while (Changed) {
      Changed = false;
      for (auto &[P, SP] : Phis)
        for (auto *&NP : SP) {
          if (!NP)
            continue;
          bool Triv = true;
          for (auto &V : NP->incoming_values())
            if (V != Null && V != NP)
              Triv = false;
          if (Triv) {
            NP->replaceAllUsesWith(Null);
            NP->eraseFromParent();
            NP = nullptr;
            Changed = true;
          }
        }
    }
    if (!AllocasToClear.empty()) {
      IRBuilder<> A(ClearPt);
      for (auto &[AI, Sz] : AllocasToClear) {
        if (AI->getParent() == &Fn.getEntryBlock() && AI->isStaticAlloca())
          rt(A, FClear, {asP8(A, AI), c64(Sz)});
        else {
          IRBuilder<> AA(AI->getNextNode());
          rt(AA, FClear, {asP8(AA, AI), c64(Sz)});
        }
      }
    }
    ClearPt->eraseFromParent();
  }

  bool runModule() {
    SmallVector<Function *, 64> Fns;
    for (auto &Fn : M) {
      if (Fn.isDeclarationForLinker() || Fn.getName().startswith("__sym_") ||
          Fn.getName().startswith("symrt_") ||
          Fn.hasFnAttribute(Attribute::Naked))
        continue;
      Fns.push_back(&Fn);
    }
    SmallVector<Constant *, 64> Reg;
    for (auto *Fn : Fns) {
      run(*Fn);
      // (initialisers of inline variables are dropped by the linker where
      // another file has them too, and nothing calls them)
      if (Fn->getName() == "main" || (Fn->hasLocalLinkage() && Fn->hasComdat()))
        continue;
      // {fn, name, hit}
      auto *NameC = ConstantDataArray::getString(C, Fn->getName());
      auto *NG = new GlobalVariable(M, NameC->getType(), true,
                                    GlobalValue::PrivateLinkage, NameC, "symname");
      auto *Hit = new GlobalVariable(M, I8, false, GlobalValue::InternalLinkage,
                                     ConstantInt::get(I8, 0), "symhit");
      IRBuilder<> B(&*Fn->getEntryBlock().getFirstInsertionPt());
      B.CreateStore(ConstantInt::get(I8, 1), Hit);
      auto *ST = StructType::get(C, {P8, P8, P8});
      Reg.push_back(ConstantStruct::get(
          ST, {ConstantExpr::getPointerCast(Fn, P8),
               ConstantExpr::getPointerCast(NG, P8), Hit}));
    }
    if (!Reg.empty()) {
      auto *AT = ArrayType::get(Reg[0]->getType(), Reg.size());
      auto *GV =
          new GlobalVariable(M, AT, false, GlobalValue::InternalLinkage,
                             ConstantArray::get(AT, Reg), "__symreg_tab");
      GV->setSection("symreg");
      GV->setAlignment(Align(8));
      appendToUsed(M, {GV});
    }
    return true;
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Instrumenter(M).runModule();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) {
                  MPM.addPass(SymPass());
                });
          }};
}
