From 39558e3d0d2003139f266dbcede26ee7b1b25f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 01/48] fix: equal empty BitVectorSets must have equal hash
 values

---
 include/phasar/Utils/BitVectorSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..3e55138 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -304,7 +304,8 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
+    // An empty set may still hold (zero) bits, e.g. after erase()
+    if (BV.empty()) {
       return {};
     }
     auto Words = BV.Bits.getData();
-- 
2.43.0


From 0ae6a070d380dc429c6998479a734b3ec88ca0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 02/48] fix: StableVector must not keep using its first block
 after shrink_to_fit freed it

---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From 25158146699cb1bc765fa76a000252b78cd89f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:04 +0000
Subject: [PATCH 03/48] fix: Table::column could not be instantiated (non-const
 access to a const row)

---
 include/phasar/Utils/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/Utils/Table.h b/include/phasar/Utils/Table.h
index 24ac50a..d70be2f 100644
--- a/include/phasar/Utils/Table.h
+++ b/include/phasar/Utils/Table.h
@@ -124,8 +124,8 @@ public:
     // Returns a view of all mappings that have the given column key.
     std::unordered_map<R, V> Column;
     for (const auto &Row : Tab) {
-      if (Row.second.count(ColumnKey)) {
-        Column[Row.first] = Row.second[ColumnKey];
+      if (auto It = Row.second.find(ColumnKey); It != Row.second.end()) {
+        Column[Row.first] = It->second;
       }
     }
     return Column;
-- 
2.43.0


From 17646ac052f082794d836589b0927e29eff28fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 04/48] fix: remove_by_index kept elements with consecutive
 indices in non-random-access ranges

---
 include/phasar/Utils/Utilities.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/phasar/Utils/Utilities.h b/include/phasar/Utils/Utilities.h
index 6be3445..c2f04a1 100644
--- a/include/phasar/Utils/Utilities.h
+++ b/include/phasar/Utils/Utilities.h
@@ -237,9 +237,8 @@ It remove_by_index(It First, EndIt Last, IdxIt FirstIndex, IdxEndIt LastIndex) {
     for (auto I = First; I != Last; ++CurrIdx, ++I) {
       if (CurrIdx != *FirstIndex) {
         *First++ = std::move(*I);
-        if (++FirstIndex == LastIndex) {
-          return std::move(std::next(I), Last, First);
-        }
+      } else if (++FirstIndex == LastIndex) {
+        return std::move(std::next(I), Last, First);
       }
     }
     return First;
-- 
2.43.0


From 9cb08d3fad9f1df0acf65dc06986362fe0979791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 05/48] fix: the power set of the empty set contains the empty
 set

---
 include/phasar/Utils/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/Utilities.h b/include/phasar/Utils/Utilities.h
index c2f04a1..ee9cc62 100644
--- a/include/phasar/Utils/Utilities.h
+++ b/include/phasar/Utils/Utilities.h
@@ -77,8 +77,8 @@ std::set<std::set<T>> computePowerSet(const std::set<T> &S) {
         advance(It, J);
         Subset.insert(*It);
       }
-      Powerset.insert(Subset);
     }
+    Powerset.insert(std::move(Subset));
   }
   return Powerset;
 }
-- 
2.43.0


From 6fba2c2b3a579a973554fe62b8812a8418948696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 06/48] fix: StringIDLess treated all non-numeric ids as
 equivalent

---
 lib/Utils/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Utilities.cpp b/lib/Utils/Utilities.cpp
index 28e8d37..d48f6f5 100644
--- a/lib/Utils/Utilities.cpp
+++ b/lib/Utils/Utilities.cpp
@@ -102,7 +102,7 @@ bool StringIDLess::operator()(const std::string &Lhs,
   char *Endptr2;
   long LhsVal = strtol(Lhs.c_str(), &Endptr1, 10);
   long RhsVal = strtol(Rhs.c_str(), &Endptr2, 10);
-  if (Lhs.c_str() == Endptr1 && Lhs.c_str() == Endptr2) {
+  if (Lhs.c_str() == Endptr1 && Rhs.c_str() == Endptr2) {
     return Lhs < Rhs;
   }
   if (Lhs.c_str() == Endptr1 && Rhs.c_str() != Endptr2) {
-- 
2.43.0


From bb301004897067e6400e51d23591e4949b15599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 07/48] fix: MaybeUniquePtr could not be move-constructed

---
 include/phasar/Utils/MaybeUniquePtr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/phasar/Utils/MaybeUniquePtr.h b/include/phasar/Utils/MaybeUniquePtr.h
index fe086fc..8617858 100644
--- a/include/phasar/Utils/MaybeUniquePtr.h
+++ b/include/phasar/Utils/MaybeUniquePtr.h
@@ -78,9 +78,7 @@ public:
   constexpr MaybeUniquePtr(std::unique_ptr<TT> &&Owner) noexcept
       : MaybeUniquePtr(Owner.release(), true) {}
 
-  constexpr MaybeUniquePtr(MaybeUniquePtr &&Other) noexcept
-      : detail::MaybeUniquePtrBase<T, RequireAlignment>(
-            std::exchange(Other.Data, {})) {}
+  constexpr MaybeUniquePtr(MaybeUniquePtr &&Other) noexcept { swap(Other); }
 
   constexpr void swap(MaybeUniquePtr &Other) noexcept {
     std::swap(Data, Other.Data);
-- 
2.43.0


From 8045335a41c4ebba8ac31d9b8b8a51d7d7a9f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 08/48] fix: IDESolver lost facts after unbalanced returns at
 call sites and callees

With followReturnsPastSeeds, the value-computation phase seeded the zero
fact at unbalanced return sites with the top element ("unreachable"), so
nothing was propagated from there to call sites and callee start points.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..1e11ecf 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -791,7 +791,7 @@ protected:
     std::map<n_t, std::map<d_t, l_t>> AllSeeds = Seeds.getSeeds();
     for (n_t UnbalancedRetSite : UnbalancedRetSites) {
       if (AllSeeds.find(UnbalancedRetSite) == AllSeeds.end()) {
-        AllSeeds[UnbalancedRetSite][ZeroValue] = IDEProblem.topElement();
+        AllSeeds[UnbalancedRetSite][ZeroValue] = IDEProblem.bottomElement();
       }
     }
     // do processing
-- 
2.43.0


From 138b5ab9ba56e65c9c8b03046febe9fff834f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 09/48] fix: resuming an IDESolver that was cancelled after its
 last step popped an empty worklist

When cancellation is requested after the worklist ran empty, solveUntil,
solveWithTimeout and solveWithAsyncCancellation return std::nullopt;
continuing then called next() on the empty worklist.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 1e11ecf..723917b 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1756,7 +1756,10 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    if (WorkList.empty()) {
+      // The solver may have been interrupted after the last step
+      return false;
+    }
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
-- 
2.43.0


From ab59826d261bf965029ede3354de6d0da47033f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:12 +0000
Subject: [PATCH 10/48] fix: interruptible solving could hang with short
 cancellation-check intervals

The number of propagations between two cancellation checks is adapted to the
measured speed and could become zero, after which no progress was made
anymore.
---
 .../DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..8dc1981 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,8 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    // Note: nextN(0) makes no progress, so always perform at least one step
+    size_t NumIterations = std::max<size_t>(1, Interval.count() * 500);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -476,10 +478,13 @@ private:
       }
 
       // Adjust NumIterations
-      auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
-      auto NewNumIterations =
-          size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      if (DeltaTime.count() > 0) {
+        auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
+        auto NewNumIterations =
+            size_t(IterationsPerMilli * double(Interval.count()));
+        NumIterations =
+            std::max<size_t>(1, (NumIterations + 2 * NewNumIterations) / 3);
+      }
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From d08628d176c08de03ca6036158135e20d8c2e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 11/48] fix: JumpFunctions::removeFunction dropped every jump
 function of the target statement

---
 include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h b/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
index 85a80fe..23ea48d 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
@@ -177,6 +177,7 @@ public:
    * there anyway.
    */
   bool removeFunction(d_t SourceVal, n_t Target, d_t TargetVal) {
+    bool Removed = false;
     auto &SourceValToFunc = NonEmptyReverseLookup.get(Target, TargetVal);
     if (auto Find = std::find_if(
             SourceValToFunc.begin(), SourceValToFunc.end(),
@@ -185,6 +186,7 @@ public:
             });
         Find != SourceValToFunc.end()) {
       SourceValToFunc.erase(Find);
+      Removed = true;
     }
     auto &TargetValToFunc = NonEmptyForwardLookup.get(SourceVal, Target);
     if (auto Find = std::find_if(
@@ -195,7 +197,11 @@ public:
         Find != TargetValToFunc.end()) {
       TargetValToFunc.erase(Find);
     }
-    return NonEmptyLookupByTargetNode.erase(Target);
+    if (auto It = NonEmptyLookupByTargetNode.find(Target);
+        It != NonEmptyLookupByTargetNode.end()) {
+      It->second.remove(SourceVal, TargetVal);
+    }
+    return Removed;
   }
 
   /**
-- 
2.43.0


From 8affd0c92a4613328b3173f82d745cb9fdb83ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:18 +0000
Subject: [PATCH 12/48] fix: linear constant analysis computes integer
 operations in the width of their operands

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 47 +++++++++++++++----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..1db793b 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -95,19 +95,32 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
+ * @param BitWidth the width of the operands; results that are not representable
+ * as signed integer of this width are reported as BOTTOM
  * @return Result of binary operation
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned BitWidth) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
-  if (!LopPtr || !RopPtr) {
+  if (!LopPtr || !RopPtr || BitWidth > 64) {
     return Bottom{};
   }
 
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  const auto FitOrBottom = [BitWidth](int64_t Val) -> l_t {
+    if (!llvm::isIntN(BitWidth, Val)) {
+      return Bottom{};
+    }
+    return Val;
+  };
+  // Lop and Rop are sign-extended
+  const auto ULop = uint64_t(Lop) & llvm::maskTrailingOnes<uint64_t>(BitWidth);
+  const auto URop = uint64_t(Rop) & llvm::maskTrailingOnes<uint64_t>(BitWidth);
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
@@ -115,21 +128,26 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return FitOrBottom(Res);
 
   case llvm::Instruction::Sub:
     if (llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return FitOrBottom(Res);
 
   case llvm::Instruction::Mul:
     if (llvm::MulOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return FitOrBottom(Res);
 
   case llvm::Instruction::UDiv:
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return llvm::SignExtend64(ULop / URop, BitWidth);
+
   case llvm::Instruction::SDiv:
     if (Lop == std::numeric_limits<int64_t>::min() &&
         Rop == -1) { // Would produce and overflow, as the complement of min is
@@ -139,10 +157,18 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    return Lop / Rop;
+    return FitOrBottom(Lop / Rop);
 
   case llvm::Instruction::URem:
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return llvm::SignExtend64(ULop % URop, BitWidth);
+
   case llvm::Instruction::SRem:
+    if (Rop == -1) { // min % -1 overflows, all others are 0
+      return Lop == llvm::minIntN(BitWidth) ? l_t(Bottom{}) : l_t(0);
+    }
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
@@ -210,18 +236,21 @@ struct BinOp {
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 Lic->getBitWidth());
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(),
+                                 Ric->getBitWidth());
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source,
+                                 Lic->getBitWidth());
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From adb2492041071b6ae3694f1a4888e1f5268c495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 13/48] fix: linear constant analysis treats the overflow flag
 of arithmetic intrinsics as unknown

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1db793b..56376c5 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -380,7 +380,7 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     /// no error occured during the operation
     if (const auto *BinIntrinsic =
             llvm::dyn_cast<llvm::BinaryOpIntrinsic>(Agg)) {
-      if (Extract->getType()->isIntegerTy()) {
+      if (Extract->getIndices()[0] == 0 && Extract->getType()->isIntegerTy()) {
         return generateFlow(Curr, Agg);
       }
     }
-- 
2.43.0


From 23798f9f2f1d934703c4b8f9569e5222d32c7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 14/48] fix: linear constant analysis accounts for saturation
 in unsigned saturating intrinsics

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 56376c5..aa9a119 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -97,10 +97,12 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param rop right operand
  * @param BitWidth the width of the operands; results that are not representable
  * as signed integer of this width are reported as BOTTOM
+ * @param UnsignedSat whether the operation saturates at the unsigned bounds;
+ * saturated results are reported as BOTTOM
  * @return Result of binary operation
  */
 static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
-                               unsigned BitWidth) {
+                               unsigned BitWidth, bool UnsignedSat) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -125,13 +127,15 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
   int64_t Res;
   switch (Op) {
   case llvm::Instruction::Add:
-    if (llvm::AddOverflow(Lop, Rop, Res)) {
+    if ((UnsignedSat &&
+         URop > llvm::maskTrailingOnes<uint64_t>(BitWidth) - ULop) ||
+        llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
     return FitOrBottom(Res);
 
   case llvm::Instruction::Sub:
-    if (llvm::SubOverflow(Lop, Rop, Res)) {
+    if ((UnsignedSat && ULop < URop) || llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
     return FitOrBottom(Res);
@@ -218,10 +222,12 @@ struct BinOp {
 
   unsigned EdgeFunctionID, Op;
   d_t Lop, Rop, CurrNode;
+  bool UnsignedSat;
 
-  explicit BinOp(unsigned Op, d_t Lop, d_t Rop, d_t CurrNode) noexcept
+  explicit BinOp(unsigned Op, d_t Lop, d_t Rop, d_t CurrNode,
+                 bool UnsignedSat = false) noexcept
       : EdgeFunctionID(++CurrBinaryId), Op(Op), Lop(Lop), Rop(Rop),
-        CurrNode(CurrNode) {}
+        CurrNode(CurrNode), UnsignedSat(UnsignedSat) {}
 
   l_t computeTarget(l_t Source) const {
     static_assert(IsEdgeFunction<BinOp>);
@@ -237,7 +243,7 @@ struct BinOp {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
       return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
-                                 Lic->getBitWidth());
+                                 Lic->getBitWidth(), UnsignedSat);
     }
     if (Source == Bottom{}) {
       return Source;
@@ -245,12 +251,12 @@ struct BinOp {
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
       return executeBinOperation(Op, Source, Ric->getSExtValue(),
-                                 Ric->getBitWidth());
+                                 Ric->getBitWidth(), UnsignedSat);
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       return executeBinOperation(Op, Lic->getSExtValue(), Source,
-                                 Lic->getBitWidth());
+                                 Lic->getBitWidth(), UnsignedSat);
     }
 
     llvm::report_fatal_error(
@@ -276,7 +282,8 @@ struct BinOp {
   }
 
   bool operator==(const BinOp &BOP) const noexcept {
-    return BOP.Op == Op && BOP.Lop == Lop && BOP.Rop == Rop;
+    return BOP.Op == Op && BOP.Lop == Lop && BOP.Rop == Rop &&
+           BOP.UnsignedSat == UnsignedSat;
   }
 
   friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
@@ -298,7 +305,8 @@ struct BinOp {
 };
 
 auto hash_value(const BinOp &EF) noexcept {
-  return llvm::hash_combine(EF.Op, EF.Lop, EF.Rop, EF.CurrNode);
+  return llvm::hash_combine(EF.Op, EF.Lop, EF.Rop, EF.CurrNode,
+                            EF.UnsignedSat);
 }
 
 static_assert(is_llvm_hashable_v<BinOp>);
@@ -608,7 +616,9 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     }
 
     if (Curr == SuccNode && CurrNode != SuccNode) {
-      return lca::BinOp{OP, Lop, Rop, CurrNode};
+      return lca::BinOp{OP, Lop, Rop, CurrNode,
+                        llvm::isa<llvm::SaturatingInst>(BinIntrinsic) &&
+                            !BinIntrinsic->isSigned()};
     }
   }
   return EdgeIdentity<l_t>{};
-- 
2.43.0


From 7e191a89b1c3698d9ed1d520d862f85228d10418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 15/48] fix: linear constant analysis does not carry a value
 over to a different array element

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index aa9a119..f75ff56 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -353,7 +353,9 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
   }
 
   if (const auto *GEP = llvm::dyn_cast<llvm::GetElementPtrInst>(Curr)) {
-    if (GEP->getResultElementType()->isIntegerTy()) {
+    // A non-zero index leads to a different memory location
+    if (GEP->hasAllZeroIndices() &&
+        GEP->getResultElementType()->isIntegerTy()) {
       const auto *Op = GEP->getPointerOperand();
       return generateFlow(GEP, Op);
     }
-- 
2.43.0


From f8dc96036075a31700c3c23e42092f0957da2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 16/48] fix: LLVMBasedBackwardCFG mishandles its artificial
 return instructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..827fbe4 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -39,10 +39,8 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
-  if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+  if (const auto *Fun = BackwardRetToFunction.lookup(Inst)) {
+    return this->base_t::getStartPointsOfImpl(Fun);
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
@@ -108,7 +106,8 @@ bool LLVMBasedBackwardCFG ::isExitInstImpl(n_t Inst) const noexcept {
 }
 
 bool LLVMBasedBackwardCFG ::isStartPointImpl(n_t Inst) const noexcept {
-  return this->base_t::isExitInstImpl(Inst);
+  return !BackwardRetToFunction.count(Inst) &&
+         this->base_t::isExitInstImpl(Inst);
 }
 
 bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
-- 
2.43.0


From 17846ee5ddd94191050614e9881ab60d0f45ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 17/48] fix: LLVMBasedBackwardCFG::getAllControlFlowEdges
 returns the edges in forward direction

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 827fbe4..fe03e3b 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -69,19 +70,14 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From 93ff2021b9d495d548297543f1587eaa1edf37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 18/48] fix: branch-target queries of the CFGs skip debug
 instructions as getSuccsOf does

---
 .../ControlFlow/LLVMBasedBackwardCFG.cpp          |  9 +--------
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp       | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index fe03e3b..941f388 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -113,14 +113,7 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
-  }
-  return false;
+  return this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..71efd0b 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -198,15 +198,24 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFieldStoreImpl(
   return false;
 }
 
+static const llvm::Instruction *getFirstInst(const llvm::BasicBlock *BB,
+                                             bool IgnoreDbgInstructions) {
+  const auto *First = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
+    return First->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return First;
+}
+
 template <typename Derived>
 bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
     n_t Inst, n_t Succ) const noexcept {
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
     if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
+      return getFirstInst(B->getSuccessor(1), IgnoreDbgInstructions) == Succ;
     }
-    return &B->getSuccessor(0)->front() == Succ;
+    return getFirstInst(B->getSuccessor(0), IgnoreDbgInstructions) == Succ;
   }
   return false;
 }
@@ -216,7 +225,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (getFirstInst(BB, IgnoreDbgInstructions) == Succ) {
         return true;
       }
     }
-- 
2.43.0


From 4a24a0b62a238db61e88ee73ef6c567a38718c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 19/48] fix: getSpecialMemberFunctionType looks for codes
 outside of all identifiers and terminates

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 71efd0b..1d47e96 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -241,6 +241,9 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
     return SpecialMemberFunctionType::None;
   }
   llvm::StringRef FunctionName = Fun->getName();
+  if (!FunctionName.startswith("_Z")) {
+    return SpecialMemberFunctionType::None;
+  }
   /// TODO: this looks terrible and needs fix
   static constexpr std::pair<llvm::StringLiteral, SpecialMemberFunctionType>
       Codes[] = {{"C1", SpecialMemberFunctionType::Constructor},
@@ -280,11 +283,13 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
           ++I;
         }
         std::string ST(C, C + I);
-        if (Index.first <= std::distance(FunctionName.begin(), C) + stoul(ST)) {
+        const auto NameEnd =
+            std::distance(FunctionName.begin(), C) + I + stoul(ST);
+        if (Index.first < NameEnd) {
           NoName = false;
           break;
         }
-        C = C + *C;
+        C = FunctionName.begin() + NameEnd - 1;
       }
     }
     if (NoName) {
-- 
2.43.0


From 614900375d2fbf2d7a67170e04d2d60af207d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 20/48] fix: LLVMBasedBackwardICFG::allNonCallStartNodes does
 not cover the backward graph

---
 .../ControlFlow/LLVMBasedBackwardICFG.cpp     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
index f029a39..f56ba85 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
@@ -11,6 +11,9 @@
 
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
 
+#include "llvm/IR/InstIterator.h"
+#include "llvm/IR/InstrTypes.h"
+
 namespace psr {
 LLVMBasedBackwardICFG::LLVMBasedBackwardICFG(LLVMBasedICFG *ForwardICFG)
     : LLVMBasedBackwardCFG(*ForwardICFG->getIRDB(),
@@ -37,7 +40,21 @@ bool LLVMBasedBackwardICFG::isVirtualFunctionCallImpl(n_t Inst) const {
 
 auto LLVMBasedBackwardICFG::allNonCallStartNodesImpl() const
     -> std::vector<n_t> {
-  return ForwardICFG->allNonCallStartNodes();
+  std::vector<n_t> NonCallStartNodes;
+  for (const auto *Fun : ForwardICFG->getAllFunctions()) {
+    if (Fun->isDeclaration()) {
+      continue;
+    }
+    for (const auto &Inst : llvm::instructions(Fun)) {
+      if (!llvm::isa<llvm::CallBase>(Inst) && !isStartPoint(&Inst)) {
+        NonCallStartNodes.push_back(&Inst);
+      }
+    }
+    for (const auto *BackwardRet : getExitPointsOf(Fun)) {
+      NonCallStartNodes.push_back(BackwardRet);
+    }
+  }
+  return NonCallStartNodes;
 }
 
 auto LLVMBasedBackwardICFG::getCalleesOfCallAtImpl(n_t Inst) const noexcept
-- 
2.43.0


From 6987ed7b0633328e2214594ee911e4c2b90ebbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:35 +0000
Subject: [PATCH 21/48] fix: isStartPoint agrees with getStartPointsOf on
 functions that begin with debug instructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 26 +++++++++------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 1d47e96..3d00dc8 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -163,15 +163,20 @@ auto detail::LLVMBasedCFGImpl<Derived>::getExitPointsOfImpl(f_t Fun) const
   return {};
 }
 
+static const llvm::Instruction *getFirstInst(const llvm::BasicBlock *BB,
+                                             bool IgnoreDbgInstructions) {
+  const auto *First = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
+    return First->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return First;
+}
+
 template <typename Derived>
 bool detail::LLVMBasedCFGImpl<Derived>::isStartPointImpl(
     n_t Inst) const noexcept {
-  auto FirstInst = &Inst->getFunction()->front().front();
-  if (Inst == FirstInst) {
-    return true;
-  }
-  return llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
-         Inst == FirstInst->getNextNonDebugInstruction(false);
+  return Inst ==
+         getFirstInst(&Inst->getFunction()->front(), IgnoreDbgInstructions);
 }
 
 template <typename Derived>
@@ -198,15 +203,6 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFieldStoreImpl(
   return false;
 }
 
-static const llvm::Instruction *getFirstInst(const llvm::BasicBlock *BB,
-                                             bool IgnoreDbgInstructions) {
-  const auto *First = &BB->front();
-  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
-    return First->getNextNonDebugInstruction(false /*Only debug instructions*/);
-  }
-  return First;
-}
-
 template <typename Derived>
 bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
     n_t Inst, n_t Succ) const noexcept {
-- 
2.43.0


From 70557e5c54f8813ad25a25a8de7e10cac9c58425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:34 +0000
Subject: [PATCH 22/48] fix: LLVMAliasSet: do not let one pointer represent
 others of its type when merging may-alias pointers

The mayAlias relation is not transitive: with a, b = alloca; c = select a, b;
d = gep b, dropping the representative b left d out of b's alias set.
---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 72 +++++--------------------
 1 file changed, 12 insertions(+), 60 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..398dd75 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -344,71 +344,23 @@ static bool mayAlias(llvm::AAResults &AA, const llvm::DataLayout &DL,
 void LLVMAliasSet::addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
                               const llvm::Value *V,
                               std::vector<const llvm::Value *> &Reps) {
-  llvm::SmallVector<unsigned> ToMerge;
-
-  for (unsigned It = 0, End = Reps.size(); It < End; ++It) {
-    if (mayAlias(AA, DL, V, Reps[It])) {
-      ToMerge.push_back(It);
-    }
+  if (llvm::is_contained(Reps, V)) {
+    return;
   }
 
-  // If we find several alias sets that may alias V, we must merge them.
-  // However, we cannot simply remove all respective representants (except for
-  // one), because for interprocedural flows, LLVM assumes all possible
-  // aliases and i8* is treated as void* making every pointer-type a matching
-  // type.
-  // This destroys the transitivity of the mayAlias relation partially. We can
-  // still remove a representant, if we have another rep of the same type
-  // within the same alias set.
-
-  if (ToMerge.empty()) {
-    Reps.push_back(V);
-    addSingletonAliasSet(V);
-  } else if (ToMerge.size() == 1) {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    assert(PTS && "Only added to Reps together with a "
-                  "\"addSingletonAliasSet\" call");
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    if (V->getType() != Reps[ToMerge[0]]->getType()) {
-      Reps.push_back(V);
-    }
-
-  } else {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    llvm::SmallPtrSet<const llvm::Type *, 6> OccurringTypes{
-        Reps[ToMerge[0]]->getType()};
-    llvm::SmallVector<unsigned> ToRemove;
-
-    for (auto Idx : llvm::makeArrayRef(ToMerge).slice(1)) {
-      mergeAliasSets(PTS, AliasSets[Reps[Idx]]);
-      if (auto [Unused, Inserted] = OccurringTypes.insert(Reps[Idx]->getType());
-          !Inserted) {
-        ToRemove.push_back(Idx);
-      }
-    }
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    Reps.erase(remove_by_index(Reps, ToRemove.begin(), ToRemove.end()),
-               Reps.end());
+  addSingletonAliasSet(V);
 
-    if (auto [Unused, Inserted] = OccurringTypes.insert(V->getType());
-        Inserted) {
-      Reps.push_back(V);
+  // The mayAlias relation is not transitive, so no pointer can represent
+  // another one: V may alias only some members of an alias set. We only save
+  // the queries for pointers that are already known to share V's alias set.
+  for (const auto *Rep : Reps) {
+    if (AliasSets[Rep].get() != AliasSets[V].get() &&
+        mayAlias(AA, DL, V, Rep)) {
+      mergeAliasSets(V, Rep);
     }
   }
+
+  Reps.push_back(V);
 }
 
 static void addIfGlobal(llvm::DenseSet<const llvm::Value *> &UsedGlobals,
-- 
2.43.0


From 3f3fd6f762fd828f2953c7a866bcd53c6b2cf24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:34 +0000
Subject: [PATCH 23/48] fix: LLVMAliasSet::mergeWith merges all existing sets
 that an incoming set connects

Only the set of the first known element was extended, so members of the same
alias set could end up with different alias sets.
---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 29 +++++++------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 398dd75..b1dfdb1 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -607,29 +607,16 @@ void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
   // merge analyzed functions
   AnalyzedFunctions.insert(OtherPTI.AnalyzedFunctions.begin(),
                            OtherPTI.AnalyzedFunctions.end());
-  // merge points-to sets
+  // merge points-to sets; a set of other may connect several sets of this
+  llvm::SmallPtrSet<const AliasSetTy *, 8> Seen;
   for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
-    for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
-      }
+    if (!Seen.insert(Set.get()).second) {
+      continue;
     }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
+    addSingletonAliasSet(KeyPtr);
+    for (const auto *ElemPtr : *Set) {
+      addSingletonAliasSet(ElemPtr);
+      mergeAliasSets(KeyPtr, ElemPtr);
     }
   }
 }
-- 
2.43.0


From cbc019726a53ad46f15260d060ff2c1a556b442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 24/48] fix: fromMetaDataId: split argument ids at the last dot

The ids of the arguments of functions with a dot in their name could not be
resolved.
---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..eb2baed 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,8 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  // Function names may contain dots as well
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From 63513e5f3bcbdaec820dbb9135bddb37d20058d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 25/48] fix: LLVMAliasSet: store empty alias information such
 that it can be loaded

Without any alias set or analyzed function, the keys that the loader requires
were missing.
---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp     | 4 ++--
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp | 9 ++-------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index b1dfdb1..1ee3777 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -639,7 +639,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   nlohmann::json J;
 
   /// Serialize the AliasSets
-  auto &Sets = J["AliasSets"];
+  auto &Sets = J["AliasSets"] = nlohmann::json::array();
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
     auto PtsJson = nlohmann::json::array();
@@ -655,7 +655,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   }
 
   /// Serialize the AnalyzedFunctions
-  auto &Fns = J["AnalyzedFunctions"];
+  auto &Fns = J["AnalyzedFunctions"] = nlohmann::json::array();
   for (const auto *F : AnalyzedFunctions) {
     Fns.push_back(F->getName());
   }
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..78d182a 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -31,13 +31,8 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json JSON;
 
-  for (const auto &Curr : AliasSets) {
-    JSON["AliasSets"].push_back(Curr);
-  }
-
-  for (const auto &Curr : AnalyzedFunctions) {
-    JSON["AnalyzedFunctions"].push_back(Curr);
-  }
+  JSON["AliasSets"] = AliasSets;
+  JSON["AnalyzedFunctions"] = AnalyzedFunctions;
 
   OS << JSON << '\n';
 }
-- 
2.43.0


From 9a5349bb61f8fa7c1c95ae5d27d84b16939db3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 26/48] fix: LLVMBasedCallGraphBuilder: pass the points-to
 information on to the resolver

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From 756e6beb8ecda8ed321bee03c6371f8fcd612d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 27/48] fix: a call through a table of function pointers is not
 a virtual call

---
 .../ControlFlow/LLVMVFTableProvider.cpp           |  3 ++-
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp  | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp b/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
index b34384b..2a5a7c9 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
@@ -55,7 +55,8 @@ LLVMVFTableProvider::LLVMVFTableProvider(const LLVMProjectIRDB &IRDB)
     : LLVMVFTableProvider(*IRDB.getModule()) {}
 
 bool LLVMVFTableProvider::hasVFTable(const llvm::StructType *Type) const {
-  return TypeVFTMap.count(Type);
+  const auto *VFT = getVFTableOrNull(Type);
+  return VFT && !VFT->empty();
 }
 
 const LLVMVFTable *
diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e55edef..20e4228 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -48,7 +48,18 @@ std::optional<unsigned> psr::getVFTIndex(const llvm::CallBase *CallSite) {
   }
   const auto *GEP =
       llvm::dyn_cast<llvm::GetElementPtrInst>(Load->getPointerOperand());
-  if (GEP == nullptr) {
+  // the vtable is indexed as a plain array; anything else addresses an element
+  // of a user-defined struct or array
+  if (GEP == nullptr || GEP->getNumIndices() != 1) {
+    return std::nullopt;
+  }
+  // the vtable pointer is part of the receiver; otherwise, this is a
+  // user-defined table of function pointers
+  const auto *VTable = llvm::dyn_cast<llvm::LoadInst>(GEP->getPointerOperand());
+  const auto ReceiverIdx = unsigned(CallSite->hasStructRetAttr());
+  if (VTable == nullptr || CallSite->arg_size() <= ReceiverIdx ||
+      VTable->getPointerOperand()->stripPointerCasts() !=
+          CallSite->getArgOperand(ReceiverIdx)->stripPointerCasts()) {
     return std::nullopt;
   }
   if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(GEP->getOperand(1))) {
@@ -124,7 +135,7 @@ bool psr::isVirtualCall(const llvm::Instruction *Inst,
   if (!VTP.hasVFTable(RecType)) {
     return false;
   }
-  return getVFTIndex(CallSite) >= 0;
+  return getVFTIndex(CallSite).has_value();
 }
 
 namespace psr {
-- 
2.43.0


From 55a53bfc9a8017de0cc181407c4ee156252b74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 28/48] fix: RTAResolver: consider members, arrays, globals and
 heap objects without ctor call as allocated

---
 .../ControlFlow/Resolver/RTAResolver.cpp      | 96 ++++++++++++-------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..089a82e 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -94,6 +94,61 @@ auto RTAResolver::resolveVirtualCall(const llvm::CallBase *CallSite)
 
 std::string RTAResolver::str() const { return "RTA"; }
 
+namespace {
+void insertStructTypes(const llvm::Type *Ty, const LLVMTypeHierarchy &TH,
+                       llvm::DenseSet<const llvm::StructType *> &Into);
+
+/// Inserts the types of all objects that are members of an object of type
+/// StructTy. A base-class subobject is no object of its own, but has members as
+/// well
+void insertMemberTypes(const llvm::StructType *StructTy,
+                       const LLVMTypeHierarchy &TH,
+                       llvm::DenseSet<const llvm::StructType *> &Into) {
+  bool IsFirst = true;
+  for (const auto *ElemTy : StructTy->elements()) {
+    const auto *ElemStructTy = llvm::dyn_cast<llvm::StructType>(ElemTy);
+    if (IsFirst && ElemStructTy && TH.isSubType(ElemStructTy, StructTy)) {
+      insertMemberTypes(ElemStructTy, TH, Into);
+    } else {
+      insertStructTypes(ElemTy, TH, Into);
+    }
+    IsFirst = false;
+  }
+}
+
+/// Inserts all struct types, of which an object is created together with an
+/// object of type Ty
+void insertStructTypes(const llvm::Type *Ty, const LLVMTypeHierarchy &TH,
+                       llvm::DenseSet<const llvm::StructType *> &Into) {
+  while (const auto *ArrayTy = llvm::dyn_cast<llvm::ArrayType>(Ty)) {
+    Ty = ArrayTy->getElementType();
+  }
+
+  const auto *StructTy = llvm::dyn_cast<llvm::StructType>(Ty);
+  if (StructTy && Into.insert(StructTy).second) {
+    insertMemberTypes(StructTy, TH, Into);
+  }
+}
+
+/// Inserts all struct types, as which the memory V gets used
+void insertHeapStructTypes(const llvm::Value *V, const LLVMTypeHierarchy &TH,
+                           llvm::DenseSet<const llvm::StructType *> &Into) {
+  for (const auto *User : V->users()) {
+    if (const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User)) {
+      if (!Cast->getDestTy()->isPointerTy() ||
+          Cast->getDestTy()->isOpaquePointerTy()) {
+        continue;
+      }
+      insertStructTypes(Cast->getDestTy()->getNonOpaquePointerElementType(), TH,
+                        Into);
+    } else if (llvm::isa<llvm::GetElementPtrInst>(User)) {
+      // e.g. the array-cookie of new[]
+      insertHeapStructTypes(User, TH, Into);
+    }
+  }
+}
+} // namespace
+
 /// More or less copied from GeneralStatisticsAnalysis
 void RTAResolver::resolveAllocatedStructTypes() {
   if (!AllocatedStructTypes.empty()) {
@@ -102,47 +157,22 @@ void RTAResolver::resolveAllocatedStructTypes() {
 
   llvm::DenseSet<const llvm::StructType *> AllocatedStructTypes;
 
+  for (const auto &Glob : IRDB->getModule()->globals()) {
+    insertStructTypes(Glob.getValueType(), *TH, AllocatedStructTypes);
+  }
+
   for (const auto *Fun : IRDB->getAllFunctions()) {
     for (const auto &Inst : llvm::instructions(Fun)) {
       if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(&Inst)) {
-        if (const auto *StructTy =
-                llvm::dyn_cast<llvm::StructType>(Alloca->getAllocatedType())) {
-          AllocatedStructTypes.insert(StructTy);
-        }
+        insertStructTypes(Alloca->getAllocatedType(), *TH,
+                          AllocatedStructTypes);
       } else if (const auto *CallSite = llvm::dyn_cast<llvm::CallBase>(&Inst);
                  CallSite && CallSite->getCalledFunction()) {
         // check if an instance of a user-defined type is allocated on the
         // heap
 
-        if (!isHeapAllocatingFunction(CallSite->getCalledFunction())) {
-          continue;
-        }
-        /// TODO: Does this iteration over the users make sense?
-        /// After LLVM 15 we will probably not be able to access the
-        /// PointerElementType anyway...
-        for (const auto *User : Inst.users()) {
-          const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User);
-          if (!Cast || Cast->getDestTy()->isOpaquePointerTy() ||
-              !Cast->getDestTy()
-                   ->getNonOpaquePointerElementType()
-                   ->isStructTy()) {
-            continue;
-          }
-          // finally check for ctor call
-          for (const auto *User : Cast->users()) {
-            if (const auto *CTor = llvm::dyn_cast<llvm::CallBase>(User)) {
-              // potential call to the structures ctor
-              if (CTor->getCalledFunction() &&
-                  getNthFunctionArgument(CTor->getCalledFunction(), 0)
-                          ->getType() == Cast->getDestTy() &&
-                  !Cast->getDestTy()->isOpaquePointerTy()) {
-                if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(
-                        Cast->getDestTy()->getNonOpaquePointerElementType())) {
-                  AllocatedStructTypes.insert(StructTy);
-                }
-              }
-            }
-          }
+        if (isHeapAllocatingFunction(CallSite->getCalledFunction())) {
+          insertHeapStructTypes(CallSite, *TH, AllocatedStructTypes);
         }
       }
     }
-- 
2.43.0


From 5891e6128d00ea9fbec16ece655af9f37119dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 29/48] fix: DTAResolver: resolve virtual calls again when the
 type graph grows

---
 .../ControlFlow/Resolver/DTAResolver.h           |  3 ++-
 .../ControlFlow/LLVMBasedCallGraphBuilder.cpp    | 16 ++++++++--------
 .../ControlFlow/Resolver/DTAResolver.cpp         |  2 +-
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
index 371b6cf..f7c1b66 100644
--- a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
+++ b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
@@ -50,7 +50,8 @@ public:
 
   [[nodiscard]] bool
   mutatesHelperAnalysisInformation() const noexcept override {
-    return false;
+    // the type-graph grows with every function that gets processed
+    return true;
   }
 
 protected:
diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 55a2f59..94d0251 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -221,20 +221,20 @@ bool Builder::constructDynamicCall(const llvm::Instruction *CS) {
   assert(IndirectCalls.count(CallSite));
   auto &NumIndCalls = IndirectCalls[CallSite];
 
-  if (NumIndCalls >= PossibleTargets.size()) {
+  // Throw out already found targets
+  for (const auto *Tgt : *Callees) {
+    PossibleTargets.erase(Tgt);
+  }
+
+  if (PossibleTargets.empty()) {
     // No new targets found
     return false;
   }
 
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
-                       "Found " << PossibleTargets.size() - NumIndCalls
+                       "Found " << PossibleTargets.size()
                                 << " new possible target(s)");
-  NumIndCalls = PossibleTargets.size();
-
-  // Throw out already found targets
-  for (const auto *Tgt : *Callees) {
-    PossibleTargets.erase(Tgt);
-  }
+  NumIndCalls += PossibleTargets.size();
 
   Res->handlePossibleTargets(CallSite, PossibleTargets);
   // Insert possible target inside the graph and add the link with
diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
index eed1094..0fb737f 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
@@ -83,7 +83,7 @@ bool DTAResolver::heuristicAntiConstructorVtablePos(
     // If it doesn't contain vtable, there is no reason to call this class in
     // the DTA graph, so no need to add it
     if (StructTy->isStructTy()) {
-      if (VTP->hasVFTable(llvm::dyn_cast<llvm::StructType>(StructTy))) {
+      if (!VTP->hasVFTable(llvm::dyn_cast<llvm::StructType>(StructTy))) {
         return false;
       }
     }
-- 
2.43.0


From 1ae75c0911f846c4e66466638a591cd286e55f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 30/48] fix: CallGraphData: make the empty call graph loadable;
 skip unknown instruction ids

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 lib/ControlFlow/CallGraphData.cpp      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..84db00c 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  auto JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
-- 
2.43.0


From e3668fd7844f3badb5cf242ad6e2dbe7a83845d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 31/48] fix: Resolver::create: allow constructing the type
 hierarchy on the fly

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index 20e4228..15fc99e 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -208,13 +208,10 @@ std::unique_ptr<Resolver> Resolver::create(CallGraphAnalysisType Ty,
   case CallGraphAnalysisType::NORESOLVE:
     return std::make_unique<NOResolver>(IRDB, VTP);
   case CallGraphAnalysisType::CHA:
-    assert(TH != nullptr);
     return std::make_unique<CHAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::RTA:
-    assert(TH != nullptr);
     return std::make_unique<RTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::DTA:
-    assert(TH != nullptr);
     return std::make_unique<DTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::VTA:
     llvm::report_fatal_error(
-- 
2.43.0


From 2b2cc541613e6ab3ad23e3c58225e293e84ebb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 32/48] fix: GlobalCtorsDtorsModel: run the registered dtors
 first and in reverse registration order

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index e6a5324..7c96e98 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -16,6 +16,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/IR/IRBuilder.h"
+#include "llvm/IR/InstIterator.h"
 
 #include <functional>
 
@@ -82,12 +83,19 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
     return CE->getOperand(0);
   };
 
-  for (auto *User : CxaAtExitFn->users()) {
-    auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
-    if (!Call) {
-      continue;
+  // Note: The use-list of CxaAtExitFn has an arbitrary order, but the dtors must
+  // be called in reverse order of their registration
+  llvm::SmallVector<const llvm::CallBase *, 4> Registrations;
+  for (const auto &Fun : Mod) {
+    for (const auto &Inst : llvm::instructions(Fun)) {
+      const auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+      if (Call && Call->getCalledOperand() == CxaAtExitFn) {
+        Registrations.push_back(Call);
+      }
     }
+  }
 
+  for (const auto *Call : Registrations) {
     auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
         getConstantBitcastArgument(Call->getArgOperand(0)));
     auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
@@ -182,7 +190,9 @@ static llvm::Function *createDtorCallerForModule(
 
   auto *RegisteredDtorCaller = createDtorCallerForModule(Mod, RegisteredDtors);
   // auto It =
-  GlobalDtors.emplace(0, RegisteredDtorCaller);
+  // The dtors registered with __cxa_atexit are called by exit(), i.e., before
+  // any function from llvm.global_dtors
+  GlobalDtors.emplace(SIZE_MAX, RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
   return RegisteredDtorCaller;
@@ -358,6 +368,8 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
     return llvm::StringSwitch<bool>(FunctionName)
         .Cases(ModelName, DtorModelName, DtorsCallerName, UserEntrySelectorName,
                true)
+        // The dtors-caller gets suffixed with the name of its module
+        .StartsWith("__psrGlobalDtorsCaller.", true)
         .Default(false);
   }
 
-- 
2.43.0


From e1894572c0d7f9cdc69adbff7e21969d2d3e27c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:38 +0000
Subject: [PATCH 33/48] fix: mapFactsToCaller: do not propagate the zero value
 when not requested

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..95d9c83 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From 9df8a08f0f0acdca525e1a322d8a2de821cbc6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:19 +0000
Subject: [PATCH 34/48] fix: SourceCodeInfo: load the function name that was
 stored; compare whole file names

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 01dd076..e648f7a 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -293,21 +293,20 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
     return false;
   }
 
-  auto Pos = SourceCodeFilename.find_last_of(
-      std::filesystem::path::preferred_separator);
-  if (Pos == std::string::npos) {
-    Pos = 0;
-  }
+  auto GetBaseName = [](llvm::StringRef FileName) {
+    // Note: npos + 1 == 0
+    return FileName.drop_front(
+        FileName.rfind(std::filesystem::path::preferred_separator) + 1);
+  };
 
-  return llvm::StringRef(Other.SourceCodeFilename)
-      .endswith(llvm::StringRef(SourceCodeFilename)
-                    .slice(Pos + 1, llvm::StringRef::npos));
+  return GetBaseName(Other.SourceCodeFilename) ==
+         GetBaseName(SourceCodeFilename);
 }
 
 void psr::from_json(const nlohmann::json &J, SourceCodeInfo &Info) {
   J.at("sourceCodeLine").get_to(Info.SourceCodeLine);
   J.at("sourceCodeFileName").get_to(Info.SourceCodeFilename);
-  if (auto Fn = J.find("sourceCode"); Fn != J.end()) {
+  if (auto Fn = J.find("sourceCodeFunctionName"); Fn != J.end()) {
     Fn->get_to(Info.SourceCodeFunctionName);
   }
   J.at("line").get_to(Info.Line);
-- 
2.43.0


From 5953ff658addb406890f737b3a215ea5414a2d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 35/48] fix: do not forget the taint of a formal parameter
 after its only use

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..2cba87a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -183,9 +183,15 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
+/// Whether a fact is not needed anymore after the single use of Val.
+/// Formal parameters still need to be mapped back to the caller.
+static bool canKillAfterUse(d_t Val) {
+  return llvm::isa<llvm::Instruction>(Val) && !Val->hasNUsesOrMore(2);
+}
+
 static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
                                                                   d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+  if (!canKillAfterUse(From)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -202,8 +208,8 @@ static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
 
 static IFDSTaintAnalysis::FlowFunctionPtrType
 transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
-  bool KillFrom1 = !From1->hasNUsesOrMore(2);
-  bool KillFrom2 = !From2->hasNUsesOrMore(2);
+  bool KillFrom1 = canKillAfterUse(From1);
+  bool KillFrom2 = canKillAfterUse(From2);
 
   if (KillFrom1) {
     if (KillFrom2) {
@@ -270,7 +276,7 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (!canKillAfterUse(Store->getValueOperand())) {
       Gen.insert(Store->getValueOperand());
     }
 
-- 
2.43.0


From 546c49f361e65c93d2be1617d74463c0473810b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 36/48] fix: let sanitizers remove taints at calls

---
 .../TaintConfig/TaintConfigUtilities.h        |  6 +++
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 42 ++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
index aa7941d..f283ded 100644
--- a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
+++ b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
@@ -79,6 +79,12 @@ template <typename ContainerTy,
 void collectSanitizedFacts(ContainerTy &Dest, const LLVMTaintConfig &Config,
                            const llvm::CallBase *CB,
                            const llvm::Function *Callee) {
+  const auto &Callback = Config.getRegisteredSanitizerCallBack();
+  if (Callback) {
+    auto CBFacts = Callback(CB);
+    Dest.insert(CBFacts.begin(), CBFacts.end());
+  }
+
   for (unsigned I = 0, End = Callee->arg_size(); I < End; ++I) {
     if (Config.isSanitizer(Callee->getArg(I))) {
       Dest.insert(CB->getArgOperand(I));
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 2cba87a..67d28c3 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -35,6 +35,7 @@
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <iterator>
 #include <utility>
 
 namespace psr {
@@ -365,9 +366,41 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
+  auto FF = mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
     return HasDeclOnly || !Arg->getType()->isPointerTy();
   });
+
+  // Facts that get killed, regardless of which callee is actually called
+  container_type Kill;
+  for (const auto *Callee : Callees) {
+    container_type CalleeKill;
+    collectSanitizedFacts(CalleeKill, *Config, CS, Callee);
+    if (Callee == Callees.front()) {
+      Kill = std::move(CalleeKill);
+      continue;
+    }
+    for (auto It = Kill.begin(); It != Kill.end();) {
+      It = CalleeKill.count(*It) ? std::next(It) : Kill.erase(It);
+    }
+  }
+  populateWithMustAliases(Kill, CallSite);
+
+  if (CS->hasStructRetAttr()) {
+    // SRet is guaranteed to be written to by the call.
+    Kill.insert(CS->getArgOperand(0));
+  }
+
+  if (Kill.empty()) {
+    return FF;
+  }
+
+  return lambdaFlow(
+      [FF{std::move(FF)}, Kill{std::move(Kill)}](d_t Source) -> container_type {
+        if (Kill.count(Source)) {
+          return {};
+        }
+        return FF->computeTargets(Source);
+      });
 }
 
 auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
@@ -468,7 +501,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -481,6 +515,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From 4d1266c2edf849ae6c367bb7c9e97ff03195d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 37/48] fix: analyze the callee of calls that return a struct
 through a pointer

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 67d28c3..0dc0ba9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -434,14 +434,6 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // populateWithMayAliases(Leak, CallSite);
   populateWithMustAliases(Kill, CallSite);
 
-  if (CS->hasStructRetAttr()) {
-    const auto *SRet = CS->getArgOperand(0);
-    if (!Gen.count(SRet)) {
-      // SRet is guaranteed to be written to by the call. If it does not
-      // generate it, we can freely kill it
-      Kill.insert(SRet);
-    }
-  }
   if (Gen.empty() && Leak.empty() && Kill.empty()) {
     if (Llvmfdff.contains(DestFun)) {
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
@@ -475,6 +467,16 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
     // not found
     return nullptr;
   }
+
+  if (CS->hasStructRetAttr()) {
+    const auto *SRet = CS->getArgOperand(0);
+    if (!Gen.count(SRet)) {
+      // SRet is guaranteed to be written to by the call. If it does not
+      // generate it, we can freely kill it
+      Kill.insert(SRet);
+    }
+  }
+
   if (Gen.empty()) {
     if (!Leak.empty() || !Kill.empty()) {
       return lambdaFlow([Leak{std::move(Leak)}, Kill{std::move(Kill)}, this,
-- 
2.43.0


From 09df391f9a675f02f1783c34e9e45744d1f50688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 38/48] fix: apply library summaries to variadic arguments, and
 only to existing ones

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp         | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 0dc0ba9..37a0c3d 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -439,19 +439,21 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
       // it is fine to capture a reference here:
       const auto &DestFunFacts = Llvmfdff.getFactsForFunction(DestFun);
-      return lambdaFlow([CallSite, DestFun,
-                         &DestFunFacts](d_t Source) -> container_type {
+      return lambdaFlow([CallSite, &DestFunFacts](d_t Source) -> container_type {
         std::set<d_t> Facts;
         const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
-        for (const auto &[Arg, DestParam] :
-             llvm::zip(CS->args(), DestFun->args())) {
+        // Note: The call may pass variadic arguments that do not have a
+        // corresponding formal parameter
+        for (const auto &Arg : CS->args()) {
           if (Source == Arg.get()) {
-            auto VecFacts = DestFunFacts.find(DestParam.getArgNo());
+            auto VecFacts = DestFunFacts.find(CS->getArgOperandNo(&Arg));
             if (VecFacts != DestFunFacts.end()) {
               for (const auto &VecFact : VecFacts->second) {
                 if (const auto *Param = std::get_if<library_summary::Parameter>(
                         &VecFact.Fact)) {
-                  Facts.insert(CS->getArgOperand(Param->Index));
+                  if (Param->Index < CS->arg_size()) {
+                    Facts.insert(CS->getArgOperand(Param->Index));
+                  }
                 } else {
                   Facts.insert(CallSite);
                 }
-- 
2.43.0


From 8be48741cc95aeec036b38b98f3145e72a5007e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 39/48] fix: add sprintf to the libc summary, and correct
 snprintf

---
 lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
index aa6c64f..f1f3d77 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
@@ -1504,9 +1504,16 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("sinhl", 0, ReturnValue{});
 
   // snprintf
-  Sum.addElement("snprintf", 1, Parameter{1});
-  Sum.addElement("snprintf", 1, Parameter{2});
-  Sum.addElement("snprintf", 1, Parameter{3});
+  Sum.addElement("snprintf", 2, Parameter{0});
+  Sum.addElement("snprintf", 3, Parameter{0});
+  Sum.addElement("snprintf", 4, Parameter{0});
+  Sum.addElement("snprintf", 5, Parameter{0});
+
+  // sprintf
+  Sum.addElement("sprintf", 1, Parameter{0});
+  Sum.addElement("sprintf", 2, Parameter{0});
+  Sum.addElement("sprintf", 3, Parameter{0});
+  Sum.addElement("sprintf", 4, Parameter{0});
 
   // sqrt
   Sum.addElement("sqrt", 0, ReturnValue{});
-- 
2.43.0


From 9a022f069223a22915e0412fbf6c4b2dcc92fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 40/48] fix: do not dereference end() for parameters without
 data-flow facts

---
 .../PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
index e40d109..4384385 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
@@ -47,7 +47,9 @@ public:
     auto It = Fdff.find(FuncKey);
     if (It != Fdff.end()) {
       auto Itt = It->second.find(Index);
-      return Itt->second;
+      if (Itt != It->second.end()) {
+        return Itt->second;
+      }
     }
 
     return getDefaultValue<std::vector<DataFlowFact>>();
-- 
2.43.0


From 128e4f33ed88adaa6f49af30cb862c918737bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 41/48] fix: ignore functions of the debug info that are not in
 the module

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index c7465cd..5dea4fc 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -37,7 +37,10 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
     if (SubProgram->isDistinct() && !SubProgram->getLinkageName().empty() &&
         (SubProgram->getName() == Name ||
          SubProgram->getLinkageName() == Name)) {
-      FnDefs.push_back(IRDB.getFunction(SubProgram->getLinkageName()));
+      // The function may have been inlined and removed from the module
+      if (const auto *F = IRDB.getFunction(SubProgram->getLinkageName())) {
+        FnDefs.push_back(F);
+      }
     }
   }
   DIF.reset();
-- 
2.43.0


From f7fee39553c903c97a65c115bd29d17c16f3451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 42/48] fix: generatesValuesAt ignores operands of calls, like
 forAllGeneratedValuesAt

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 5dea4fc..df3075f 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -410,10 +410,11 @@ bool LLVMTaintConfig::generatesValuesAtImpl(
     return true;
   }
 
+  // See forAllGeneratedValuesAtImpl() on why to ignore the operands of calls
   return SourceValues.count(Inst) ||
-         llvm::any_of(Inst->operand_values(), [this](const auto *Op) {
+         (!Callee && llvm::any_of(Inst->operand_values(), [this](const auto *Op) {
            return SourceValues.count(Op);
-         });
+         }));
 }
 
 bool LLVMTaintConfig::mayLeakValuesAtImpl(const llvm::Instruction *Inst,
-- 
2.43.0


From 62a266f7348d26c15da817360539ccc4de1fcd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 43/48] fix: only calls to a function return its value

---
 .../TaintConfig/LLVMTaintConfig.cpp           | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index df3075f..8f15d94 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -63,6 +63,13 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
   return FnDefs;
 }
 
+/// Whether Use is the called operand of a call, i.e., not an argument, or the
+/// like
+static bool isCallTo(const llvm::Use &Use) {
+  const auto *Call = llvm::dyn_cast<llvm::CallBase>(Use.getUser());
+  return Call && Call->isCallee(&Use);
+}
+
 void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
                                       const TaintConfigData &Config) {
   for (const auto &FunDesc : Config.Functions) {
@@ -118,8 +125,10 @@ void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
       addTaintCategory(Fun->getArg(Idx), TaintCategory::Sanitizer);
     }
     // handle a function's return value
-    for (const auto &User : Fun->users()) {
-      addTaintCategory(User, FunDesc.ReturnCat);
+    for (const auto &Use : Fun->uses()) {
+      if (isCallTo(Use)) {
+        addTaintCategory(Use.getUser(), FunDesc.ReturnCat);
+      }
     }
   }
 }
@@ -213,9 +222,15 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
             // get annotation string an remove prefix "psr."
             auto AnnotationStr = A.getAnnotationString().substr(4);
             const auto *Fun = A.getFunction();
-            for (const auto &User : Fun->users()) {
-              if (llvm::isa<llvm::CallBase>(User)) {
-                addTaintCategory(User, AnnotationStr);
+            if (!Fun) {
+              // an annotated global variable
+              addTaintCategory(Struct->getOperand(0)->stripPointerCasts(),
+                               AnnotationStr);
+              continue;
+            }
+            for (const auto &Use : Fun->uses()) {
+              if (isCallTo(Use)) {
+                addTaintCategory(Use.getUser(), AnnotationStr);
               }
             }
           }
-- 
2.43.0


From b0bca3f7679632f47f99be2e0ed499efd4b23260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:12 +0000
Subject: [PATCH 44/48] fix: tell the members of different structs apart in the
 taint config

---
 .../TaintConfig/LLVMTaintConfig.cpp           | 63 ++++++++++---------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 8f15d94..8b09f10 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -133,6 +133,24 @@ void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
   }
 }
 
+/// Whether Ty is the IR type that represents a struct with the given
+/// source-code name, e.g. %struct.Name, %class.ns::Name, or %struct.Name.42
+static bool isStructWithName(const llvm::Type *Ty, llvm::StringRef Name) {
+  const auto *StTy = llvm::dyn_cast<llvm::StructType>(Ty);
+  if (!StTy || !StTy->hasName()) {
+    return false;
+  }
+  auto TyName = StTy->getName();
+  if (!TyName.consume_front("struct.")) {
+    TyName.consume_front("class.");
+  }
+  TyName = TyName.take_until([](char C) { return C == '.'; });
+  // The IR types do not contain template arguments
+  return TyName.consume_back(Name.take_until([](char C) {
+    return C == '<';
+  })) && (TyName.empty() || TyName.endswith("::"));
+}
+
 LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
                                  const TaintConfigData &Config) {
   // handle functions
@@ -140,29 +158,20 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
 
   // handle variables
   // scope can be a function name or a struct.
-  std::unordered_map<const llvm::Type *, const std::string> StructConfigMap;
-
-  // read all struct types from config
-  for (const auto &VarDesc : Config.Variables) {
-    llvm::DebugInfoFinder DIF;
-    const auto *M = Code.getModule();
-
+  const auto *M = Code.getModule();
+  llvm::DebugInfoFinder DIF;
+  if (!Config.Variables.empty()) {
     DIF.processModule(*M);
-    for (const auto &Ty : DIF.types()) {
-      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type &&
-          Ty->getName().equals(VarDesc.Scope)) {
-        for (const auto &LlvmStructTy : M->getIdentifiedStructTypes()) {
-          StructConfigMap.insert(
-              std::pair<const llvm::Type *, const std::string>(LlvmStructTy,
-                                                               VarDesc.Name));
-        }
-      }
-    }
-    DIF.reset();
   }
+
   // add corresponding Allocas or getElementPtr instructions to the taint
   // category
   for (const auto &VarDesc : Config.Variables) {
+    bool HasStructScope = llvm::any_of(DIF.types(), [&](const auto *Ty) {
+      return Ty->getTag() == llvm::dwarf::DW_TAG_structure_type &&
+             Ty->getName().equals(VarDesc.Scope);
+    });
+
     for (const auto &Fun : Code.getAllFunctions()) {
       for (const auto &I : llvm::instructions(Fun)) {
         if (const auto *DbgDeclare = llvm::dyn_cast<llvm::DbgDeclareInst>(&I)) {
@@ -172,19 +181,15 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
               LocalVar->getLine() == VarDesc.Line) {
             addTaintCategory(DbgDeclare->getAddress(), VarDesc.Cat);
           }
-        } else if (!StructConfigMap.empty()) {
+        } else if (HasStructScope) {
           // Ignorning line numbers for getElementPtr instructions
           if (const auto *Gep = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
-            const auto *StType =
-                llvm::dyn_cast<llvm::StructType>(Gep->getSourceElementType());
-            if (StType && StructConfigMap.count(StType)) {
-              auto VarName = StructConfigMap.at(StType);
-              // using substr to cover the edge case in which same variable
-              // name is present as a local variable and also as a struct
-              // member variable. (Ex. JsonConfig/fun_member_02.cpp)
-              if (Gep->getName().substr(0, VarName.size()).equals(VarName)) {
-                addTaintCategory(Gep, VarDesc.Cat);
-              }
+            // using substr to cover the edge case in which same variable
+            // name is present as a local variable and also as a struct
+            // member variable. (Ex. JsonConfig/fun_member_02.cpp)
+            if (isStructWithName(Gep->getSourceElementType(), VarDesc.Scope) &&
+                Gep->getName().startswith(VarDesc.Name)) {
+              addTaintCategory(Gep, VarDesc.Cat);
             }
           }
         }
-- 
2.43.0


From 531f08a3879174d192239fcb564aac1c6126b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:12 +0000
Subject: [PATCH 45/48] fix: find annotated values that need no cast

---
 lib/PhasarLLVM/Utils/Annotation.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/Annotation.cpp b/lib/PhasarLLVM/Utils/Annotation.cpp
index 07b5127..8fb5165 100644
--- a/lib/PhasarLLVM/Utils/Annotation.cpp
+++ b/lib/PhasarLLVM/Utils/Annotation.cpp
@@ -75,20 +75,21 @@ llvm::StringRef VarAnnotation::retrieveString(unsigned Idx) const {
 const llvm::Value *VarAnnotation::getOriginalValueOrOriginalArg(
     const llvm::Value *AnnotatedValue) {
 
+  const auto *Value = AnnotatedValue;
+  // values that are no i8* are casted for the annotation
   if (const auto *BitCast =
           llvm::dyn_cast<llvm::BitCastOperator>(AnnotatedValue)) {
     // this may be already the original value
-    const auto *Value = BitCast->getOperand(0);
-    // check if that values originates from a formal parameter
-    for (const auto &User : Value->users()) {
-      if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
-          Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
-        return Store->getValueOperand();
-      }
+    Value = BitCast->getOperand(0);
+  }
+  // check if that values originates from a formal parameter
+  for (const auto &User : Value->users()) {
+    if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
+        Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
+      return Store->getValueOperand();
     }
-    return Value;
   }
-  return nullptr;
+  return Value;
 }
 
 GlobalAnnotation::GlobalAnnotation(
-- 
2.43.0


From 2cee868fcb17184213f05218e34682f9f3ec61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:57 +0000
Subject: [PATCH 46/48] fix: map uninitialized pointer parameters back to
 indirect call sites

---
 .../Problems/IFDSUninitializedVariables.cpp      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 68e360b..bda6c47 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -300,7 +300,7 @@ IFDSUninitializedVariables::getCallFlowFunction(
 IFDSUninitializedVariables::FlowFunctionPtrType
 IFDSUninitializedVariables::getRetFlowFunction(
     IFDSUninitializedVariables::n_t CallSite,
-    IFDSUninitializedVariables::f_t /*CalleeFun*/,
+    IFDSUninitializedVariables::f_t CalleeFun,
     IFDSUninitializedVariables::n_t ExitStmt,
     IFDSUninitializedVariables::n_t /*RetSite*/) {
   if (llvm::isa<llvm::CallInst>(CallSite) ||
@@ -308,9 +308,11 @@ IFDSUninitializedVariables::getRetFlowFunction(
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     struct UVFF : FlowFunction<IFDSUninitializedVariables::d_t> {
       const llvm::CallBase *Call;
+      const llvm::Function *Callee;
       const llvm::Instruction *Exit;
-      UVFF(const llvm::CallBase *C, const llvm::Instruction *E)
-          : Call(C), Exit(E) {}
+      UVFF(const llvm::CallBase *C, const llvm::Function *F,
+           const llvm::Instruction *E)
+          : Call(C), Callee(F), Exit(E) {}
       std::set<IFDSUninitializedVariables::d_t>
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
@@ -321,11 +323,11 @@ IFDSUninitializedVariables::getRetFlowFunction(
         //----------------------------------------------------------------------
         // Handle pointer/reference parameters
         //----------------------------------------------------------------------
-        if (Call->getCalledFunction()) {
+        if (Callee) {
           unsigned I = 0;
-          for (const auto &Arg : Call->getCalledFunction()->args()) {
+          for (const auto &Arg : Callee->args()) {
             // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
-            if (&Arg == Source && Arg.getType()->isPointerTy()) {
+            if (I < Call->arg_size() && &Arg == Source && Arg.getType()->isPointerTy()) {
               Ret.insert(Call->getArgOperand(I));
             }
             I++;
@@ -336,7 +338,7 @@ IFDSUninitializedVariables::getRetFlowFunction(
         return Ret;
       }
     };
-    return std::make_shared<UVFF>(CS, ExitStmt);
+    return std::make_shared<UVFF>(CS, CalleeFun, ExitStmt);
   }
   // kill everything else
   return killAllFlows();
-- 
2.43.0


From 8b42d101d6712949c95b30cb2a36a30c66478136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:41 +0000
Subject: [PATCH 47/48] fix: solve problems whose facts print as StringRef

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 723917b..8846341 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1552,7 +1552,7 @@ public:
         } else {
           // Get the fact-ID
           D1FactId = G.getFactID(D1Fact);
-          std::string D1Label = DToString(D1Fact);
+          std::string D1Label(DToString(D1Fact));
 
           // Get or create the fact subgraph
           D1FSG = FG->getOrCreateFactSG(D1FactId, D1Label);
@@ -1570,7 +1570,7 @@ public:
           if (!IDEProblem.isZeroValue(D2Fact)) {
             // Get the fact-ID
             D2FactId = G.getFactID(D2Fact);
-            std::string D2Label = DToString(D2Fact);
+            std::string D2Label(DToString(D2Fact));
             DOTNode D2 = {FuncName, D2Label, N2StmtId, D2FactId, false, true};
             std::string EFLabel;
             auto EFVec = IntermediateEdgeFunctions[std::make_tuple(
@@ -1655,7 +1655,7 @@ public:
         } else {
           // Get the fact-ID
           D1FactId = G.getFactID(D1Fact);
-          std::string D1Label = DToString(D1Fact);
+          std::string D1Label(DToString(D1Fact));
           D1 = {FNameOfN1, D1Label, N1StmtId, D1FactId, false, true};
           // FG should already exist even for single statement functions
           if (!G.containsFactSG(FNameOfN1, D1FactId)) {
@@ -1674,7 +1674,7 @@ public:
           } else {
             // Get the fact-ID
             D2FactId = G.getFactID(D2Fact);
-            std::string D2Label = DToString(D2Fact);
+            std::string D2Label(DToString(D2Fact));
             D2 = {FNameOfN2, D2Label, N2StmtId, D2FactId, false, true};
             // FG should already exist even for single statement functions
             if (!G.containsFactSG(FNameOfN2, D2FactId)) {
-- 
2.43.0


From 6743ccd16fe543a7a6e2998617a758cdc4905a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:41 +0000
Subject: [PATCH 48/48] fix: secure heap counted as shut down after it was
 initialised again

---
 .../DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp
index 225b701..c469c60 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp
@@ -89,7 +89,9 @@ IDESecureHeapPropagation::getCallToRetFlowFunction(
 
   if (const auto *Callee = CS->getCalledFunction()) {
     if (Callee->getName() == InitializerFn) {
-      return generateFromZero(SecureHeapFact::INITIALIZED);
+      // forget that the heap may have been shut down before
+      return generateFlowAndKillAllOthers(SecureHeapFact::INITIALIZED,
+                                          SecureHeapFact::ZERO);
     }
   }
   return identityFlow();
-- 
2.43.0

