From ec6418d3371795dd0f5bd01862359b4da5dc5edb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 01/43] Add guarded worklist scheduling hooks for deterministic
 simulation (PHASAR_SIM_HOOKS)

---
 .../DataFlow/IfdsIde/Solver/IDESolver.h       |  3 +
 .../DataFlow/Mono/Solver/InterMonoSolver.h    |  2 +
 .../DataFlow/Mono/Solver/IntraMonoSolver.h    |  2 +
 include/phasar/Utils/SimHooks.h               | 58 +++++++++++++++++++
 .../ControlFlow/LLVMBasedCallGraphBuilder.cpp |  2 +
 5 files changed, 67 insertions(+)
 create mode 100644 include/phasar/Utils/SimHooks.h

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..7942d7f 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -39,6 +39,7 @@
 #include "phasar/Utils/JoinLattice.h"
 #include "phasar/Utils/Logger.h"
 #include "phasar/Utils/PAMMMacros.h"
+#include "phasar/Utils/SimHooks.h"
 #include "phasar/Utils/Table.h"
 #include "phasar/Utils/Utilities.h"
 
@@ -819,6 +820,7 @@ protected:
     // Phase II(i)
     submitInitialValues();
     while (!ValuePropWL.empty()) {
+      PHASAR_SIM_PICK_BACK("IDESolver::ValuePropWL", ValuePropWL);
       auto NAndD = std::move(ValuePropWL.back());
       ValuePropWL.pop_back();
       valuePropagationTask(std::move(NAndD));
@@ -1757,6 +1759,7 @@ private:
 
   bool doNext() {
     assert(!WorkList.empty());
+    PHASAR_SIM_PICK_BACK("IDESolver::WorkList", WorkList);
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
diff --git a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
index 0be77db..889d7e1 100644
--- a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
+++ b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
@@ -19,6 +19,7 @@
 
 #include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"
 #include "phasar/DataFlow/Mono/InterMonoProblem.h"
+#include "phasar/Utils/SimHooks.h"
 
 #include <deque>
 #include <unordered_map>
@@ -358,6 +359,7 @@ public:
   virtual void solve() {
     initialize();
     while (!Worklist.empty()) {
+      PHASAR_SIM_PICK_FRONT("InterMonoSolver::Worklist", Worklist);
       std::pair<n_t, n_t> Edge = Worklist.front();
       Worklist.pop_front();
       auto Src = Edge.first;
diff --git a/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h b/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
index ac46b90..eda7edf 100644
--- a/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
+++ b/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
@@ -19,6 +19,7 @@
 
 #include "phasar/DataFlow/Mono/IntraMonoProblem.h"
 #include "phasar/Utils/BitVectorSet.h"
+#include "phasar/Utils/SimHooks.h"
 
 #include <deque>
 #include <unordered_map>
@@ -76,6 +77,7 @@ public:
     // step 2: Iteration (updating Worklist and Analysis)
     while (!Worklist.empty()) {
       // llvm::outs() << "worklist size: " << Worklist.size() << "\n";
+      PHASAR_SIM_PICK_FRONT("IntraMonoSolver::Worklist", Worklist);
       std::pair<n_t, n_t> Edge = Worklist.front();
       Worklist.pop_front();
       n_t Src = Edge.first;
diff --git a/include/phasar/Utils/SimHooks.h b/include/phasar/Utils/SimHooks.h
new file mode 100644
index 0000000..3ee74cc
--- /dev/null
+++ b/include/phasar/Utils/SimHooks.h
@@ -0,0 +1,58 @@
+/******************************************************************************
+ * Scheduling hooks for deterministic simulation.
+ *
+ * The fixpoint algorithms in PhASAR keep their pending work in worklists. By
+ * default, these hooks expand to nothing. If PHASAR_SIM_HOOKS is defined, an
+ * external simulator decides which pending element is processed next.
+ *****************************************************************************/
+
+#ifndef PHASAR_UTILS_SIMHOOKS_H
+#define PHASAR_UTILS_SIMHOOKS_H
+
+#ifdef PHASAR_SIM_HOOKS
+
+#include <cstddef>
+#include <utility>
+
+/// Provided by the simulator. Selects one out of the NumPending pending
+/// elements of the worklist WorklistName. Must return a value < NumPending;
+/// DefaultIdx is the element that would be processed without simulator.
+extern "C" size_t phasarSimPickNext(const char *WorklistName, size_t NumPending,
+                                    size_t DefaultIdx);
+
+/// To be called before removing the last element from the worklist WL
+#define PHASAR_SIM_PICK_BACK(NAME, WL)                                         \
+  do {                                                                         \
+    if ((WL).size() > 1) {                                                     \
+      using std::swap;                                                         \
+      auto SimIdx = phasarSimPickNext(NAME, (WL).size(), (WL).size() - 1);     \
+      if (SimIdx + 1 != (WL).size()) {                                         \
+        swap((WL)[SimIdx], (WL)[(WL).size() - 1]);                             \
+      }                                                                        \
+    }                                                                          \
+  } while (false)
+
+/// To be called before removing the first element from the worklist WL
+#define PHASAR_SIM_PICK_FRONT(NAME, WL)                                        \
+  do {                                                                         \
+    if ((WL).size() > 1) {                                                     \
+      using std::swap;                                                         \
+      auto SimIdx = phasarSimPickNext(NAME, (WL).size(), 0);                   \
+      if (SimIdx != 0) {                                                       \
+        swap((WL)[SimIdx], (WL)[0]);                                           \
+      }                                                                        \
+    }                                                                          \
+  } while (false)
+
+#else
+
+#define PHASAR_SIM_PICK_BACK(NAME, WL)                                         \
+  do {                                                                         \
+  } while (false)
+#define PHASAR_SIM_PICK_FRONT(NAME, WL)                                        \
+  do {                                                                         \
+  } while (false)
+
+#endif
+
+#endif // PHASAR_UTILS_SIMHOOKS_H
diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..c258837 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -9,6 +9,7 @@
 #include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 #include "phasar/Utils/PAMMMacros.h"
+#include "phasar/Utils/SimHooks.h"
 #include "phasar/Utils/Soundness.h"
 #include "phasar/Utils/Utilities.h"
 
@@ -72,6 +73,7 @@ auto Builder::buildCallGraph(Soundness S) -> LLVMBasedCallGraph {
   do {
     FixpointReached = true;
     while (!FunctionWL.empty()) {
+      PHASAR_SIM_PICK_BACK("CallGraphBuilder::FunctionWL", FunctionWL);
       const llvm::Function *F = FunctionWL.pop_back_val();
       FixpointReached &= processFunction(F);
     }
-- 
2.43.0


From 5cf3ed6f8450c858c80452170b24557811fb73f5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 02/43] fix: allow resuming an IDESolver that was interrupted
 after its last step

A cancellation request may be observed when the worklist is already
exhausted. The documented way to go on (continueSolving(), continueUntil(),
...) then called doNext() on an empty worklist.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 7942d7f..165cbe4 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1758,7 +1758,10 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    if (WorkList.empty()) {
+      // The solving process may have been interrupted after the last step
+      return false;
+    }
     PHASAR_SIM_PICK_BACK("IDESolver::WorkList", WorkList);
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
-- 
2.43.0


From 3e9027fa67769b54a865a1e21858f7842a6521c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 03/43] fix: keep the interruptible IDE solver making progress
 between cancellation checks

With a slow step, a zero Interval, or a clock that did not advance between
two checks, the number of iterations until the next check could become zero
(or the result of converting inf/NaN to size_t), such that the solver kept
polling the cancellation request without ever performing a step.
---
 .../IfdsIde/Solver/IDESolverAPIMixin.h        | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..a6ce90e 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,15 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    //
+    // Always keep the number of iterations between two checks within
+    // [1, MaxNumIterations]: performing no iterations would never reach the
+    // fixpoint
+    static constexpr double MaxNumIterations = double(size_t(1) << 60);
+    auto ClampNumIterations = [](double Num) {
+      return size_t(std::clamp(Num, 1.0, MaxNumIterations));
+    };
+    size_t NumIterations = ClampNumIterations(double(Interval.count()) * 500);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -475,11 +484,14 @@ private:
         return false;
       }
 
-      // Adjust NumIterations
-      auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
-      auto NewNumIterations =
-          size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      // Adjust NumIterations. No adjustment possible, if no time has elapsed
+      if (DeltaTime.count() > 0) {
+        auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
+        auto NewNumIterations =
+            ClampNumIterations(IterationsPerMilli * double(Interval.count()));
+        NumIterations =
+            std::max<size_t>((NumIterations + 2 * NewNumIterations) / 3, 1);
+      }
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From fb6b0ba1d361af6e50398a93a1aa7882a434d62f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 04/43] Let the guarded scheduling hook observe every worklist
 step

---
 include/phasar/Utils/SimHooks.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/Utils/SimHooks.h b/include/phasar/Utils/SimHooks.h
index 3ee74cc..2c500d4 100644
--- a/include/phasar/Utils/SimHooks.h
+++ b/include/phasar/Utils/SimHooks.h
@@ -23,7 +23,7 @@ extern "C" size_t phasarSimPickNext(const char *WorklistName, size_t NumPending,
 /// To be called before removing the last element from the worklist WL
 #define PHASAR_SIM_PICK_BACK(NAME, WL)                                         \
   do {                                                                         \
-    if ((WL).size() > 1) {                                                     \
+    if (!(WL).empty()) {                                                       \
       using std::swap;                                                         \
       auto SimIdx = phasarSimPickNext(NAME, (WL).size(), (WL).size() - 1);     \
       if (SimIdx + 1 != (WL).size()) {                                         \
@@ -35,7 +35,7 @@ extern "C" size_t phasarSimPickNext(const char *WorklistName, size_t NumPending,
 /// To be called before removing the first element from the worklist WL
 #define PHASAR_SIM_PICK_FRONT(NAME, WL)                                        \
   do {                                                                         \
-    if ((WL).size() > 1) {                                                     \
+    if (!(WL).empty()) {                                                       \
       using std::swap;                                                         \
       auto SimIdx = phasarSimPickNext(NAME, (WL).size(), 0);                   \
       if (SimIdx != 0) {                                                       \
-- 
2.43.0


From 693ba5f3e98b33fee026bd87b484de772413e531 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 05/43] fix: compare every pointer with every alias set in
 LLVMAliasSet

mayAlias is not transitive, so dropping representatives of the same type made
alias() answer NoAlias for pointers that hold the same address
---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 73 +++++--------------------
 1 file changed, 14 insertions(+), 59 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..6bf6037 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -20,6 +20,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/ADT/DenseSet.h"
+#include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/Analysis/AliasAnalysis.h"
@@ -344,71 +345,25 @@ static bool mayAlias(llvm::AAResults &AA, const llvm::DataLayout &DL,
 void LLVMAliasSet::addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
                               const llvm::Value *V,
                               std::vector<const llvm::Value *> &Reps) {
-  llvm::SmallVector<unsigned> ToMerge;
-
-  for (unsigned It = 0, End = Reps.size(); It < End; ++It) {
-    if (mayAlias(AA, DL, V, Reps[It])) {
-      ToMerge.push_back(It);
-    }
+  if (llvm::is_contained(Reps, V)) {
+    return;
   }
 
-  // If we find several alias sets that may alias V, we must merge them.
-  // However, we cannot simply remove all respective representants (except for
-  // one), because for interprocedural flows, LLVM assumes all possible
-  // aliases and i8* is treated as void* making every pointer-type a matching
-  // type.
-  // This destroys the transitivity of the mayAlias relation partially. We can
-  // still remove a representant, if we have another rep of the same type
-  // within the same alias set.
-
-  if (ToMerge.empty()) {
-    Reps.push_back(V);
-    addSingletonAliasSet(V);
-  } else if (ToMerge.size() == 1) {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    assert(PTS && "Only added to Reps together with a "
-                  "\"addSingletonAliasSet\" call");
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    if (V->getType() != Reps[ToMerge[0]]->getType()) {
-      Reps.push_back(V);
-    }
-
-  } else {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    llvm::SmallPtrSet<const llvm::Type *, 6> OccurringTypes{
-        Reps[ToMerge[0]]->getType()};
-    llvm::SmallVector<unsigned> ToRemove;
-
-    for (auto Idx : llvm::makeArrayRef(ToMerge).slice(1)) {
-      mergeAliasSets(PTS, AliasSets[Reps[Idx]]);
-      if (auto [Unused, Inserted] = OccurringTypes.insert(Reps[Idx]->getType());
-          !Inserted) {
-        ToRemove.push_back(Idx);
-      }
-    }
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
+  addSingletonAliasSet(V);
 
-    Reps.erase(remove_by_index(Reps, ToRemove.begin(), ToRemove.end()),
-               Reps.end());
+  // If we find several alias sets that may alias V, we must merge them.
+  // Note that the mayAlias relation is not transitive, i.e., a pointer that may
+  // alias V does not necessarily alias all other pointers in V's alias set. So,
+  // we cannot let one pointer represent the others from its alias set and have
+  // to compare V with all pointers that are not yet in V's alias set.
 
-    if (auto [Unused, Inserted] = OccurringTypes.insert(V->getType());
-        Inserted) {
-      Reps.push_back(V);
+  for (const auto *Rep : Reps) {
+    if (!AliasSets[V]->count(Rep) && mayAlias(AA, DL, V, Rep)) {
+      mergeAliasSets(V, Rep);
     }
   }
+
+  Reps.push_back(V);
 }
 
 static void addIfGlobal(llvm::DenseSet<const llvm::Value *> &UsedGlobals,
-- 
2.43.0


From 6501b8fa0785558ab1448c870ca937ae360eaeca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 06/43] fix: re-resolve virtual calls in DTA when its type
 graph has grown

The type graph is extended while functions are processed, so call sites that
were resolved early missed callees, depending on the processing order
---
 include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
index 371b6cf..edbfd4a 100644
--- a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
+++ b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
@@ -50,7 +50,9 @@ public:
 
   [[nodiscard]] bool
   mutatesHelperAnalysisInformation() const noexcept override {
-    return false;
+    // otherInst() adds links to the TypeGraph while functions are being
+    // processed. So, call-sites that are already resolved may get new targets
+    return true;
   }
 
 protected:
-- 
2.43.0


From b9ad2bc256a5fefdc66e2af0739f032b454117bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 07/43] fix: pass the alias information to the OTF resolver in
 buildLLVMBasedCallGraph

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index c258837..2edfb07 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -285,7 +285,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From e7f6c5c18ed587fcb8566dc59fb012a5ac56285a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 08/43] fix: keep functions when saving and loading
 LLVMAliasSet

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 32 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 6bf6037..00015cb 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -96,6 +96,28 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB, bool UseLazyEvaluation,
           << std::chrono::steady_clock::now().time_since_epoch().count());
 }
 
+// Functions do not have a metadata-id, so refer to them by their name
+static std::string getAliasId(const llvm::Value *V) {
+  if (const auto *F = llvm::dyn_cast<llvm::Function>(V)) {
+    return ("@" + F->getName()).str();
+  }
+  return getMetaDataID(V);
+}
+
+// The alias-set of a function that aliases nothing else need not be stored
+static bool isSingletonFunction(const LLVMAliasInfo::AliasSetTy &PTS) {
+  return PTS.size() == 1 && llvm::isa<llvm::Function>(*PTS.begin());
+}
+
+// Reverses getAliasId
+static const llvm::Value *fromAliasId(const LLVMProjectIRDB &IRDB,
+                                      llvm::StringRef Id) {
+  if (Id.consume_front("@")) {
+    return IRDB.getFunction(Id);
+  }
+  return fromMetaDataId(IRDB, Id);
+}
+
 LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
                            const nlohmann::json &SerializedPTS)
     : PTA(*IRDB, true) {
@@ -119,7 +141,7 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
     auto PTS = Owner.acquire();
     for (const auto &Alias : PtsJson) {
       const auto AliasStr = Alias.get<std::string>();
-      const auto *Inst = fromMetaDataId(*IRDB, AliasStr);
+      const auto *Inst = fromAliasId(*IRDB, AliasStr);
       if (!Inst) {
         PHASAR_LOG_LEVEL(WARNING, "Invalid Value-Id: " << AliasStr);
         continue;
@@ -660,12 +682,12 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
     auto PtsJson = nlohmann::json::array();
     for (const auto *Alias : *PTS) {
-      auto Id = getMetaDataID(Alias);
+      auto Id = getAliasId(Alias);
       if (Id != "-1") {
         PtsJson.push_back(std::move(Id));
       }
     }
-    if (!PtsJson.empty()) {
+    if (!PtsJson.empty() && !isSingletonFunction(*PTS)) {
       Sets.push_back(std::move(PtsJson));
     }
   }
@@ -686,12 +708,12 @@ LLVMAliasSetData LLVMAliasSet::getLLVMAliasSetData() const {
 
     std::vector<std::string> PtsJson{};
     for (const auto *Alias : *PTS) {
-      auto Id = getMetaDataID(Alias);
+      auto Id = getAliasId(Alias);
       if (Id != "-1") {
         PtsJson.push_back(std::move(Id));
       }
     }
-    if (!PtsJson.empty()) {
+    if (!PtsJson.empty() && !isSingletonFunction(*PTS)) {
       Data.AliasSets.push_back(std::move(PtsJson));
     }
   }
-- 
2.43.0


From cdcf1eb4ca1792f33e8439a596cc97a2d1ebdf3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 09/43] fix: make an empty LLVMTypeHierarchyData loadable

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
index 5247e8f..34b2db8 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
@@ -17,10 +17,10 @@ namespace psr {
 static LLVMTypeHierarchyData getDataFromJson(const nlohmann::json &Json) {
   LLVMTypeHierarchyData Data;
   Data.PhasarConfigJsonTypeHierarchyID =
-      Json["PhasarConfigJsonTypeHierarchyID"];
+      Json.at("PhasarConfigJsonTypeHierarchyID");
 
   for (const auto &[Key, ValueArray] :
-       Json[Data.PhasarConfigJsonTypeHierarchyID]
+       Json.at(Data.PhasarConfigJsonTypeHierarchyID)
            .get<nlohmann::json::object_t>()) {
     Data.TypeGraph.try_emplace(Key, std::vector<std::string>{});
 
@@ -38,6 +38,7 @@ void LLVMTypeHierarchyData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json Json;
 
   Json["PhasarConfigJsonTypeHierarchyID"] = PhasarConfigJsonTypeHierarchyID;
+  Json[PhasarConfigJsonTypeHierarchyID] = nlohmann::json::object();
 
   for (const auto &Curr : TypeGraph) {
     auto &DataPos =
-- 
2.43.0


From a92b111c1fc34854caba26684c77df5d0faf50c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 10/43] fix: make an empty LLVMAliasSetData loadable

---
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..c0bf5a2 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -17,11 +17,11 @@ namespace psr {
 static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
   LLVMAliasSetData Data;
 
-  for (const auto &Value : Json["AliasSets"]) {
+  for (const auto &Value : Json.at("AliasSets")) {
     Data.AliasSets.push_back(Value.get<std::vector<std::string>>());
   }
 
-  for (const auto &Value : Json["AnalyzedFunctions"]) {
+  for (const auto &Value : Json.at("AnalyzedFunctions")) {
     Data.AnalyzedFunctions.push_back(Value.get<std::string>());
   }
 
@@ -31,6 +31,9 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json JSON;
 
+  JSON["AliasSets"] = nlohmann::json::array();
+  JSON["AnalyzedFunctions"] = nlohmann::json::array();
+
   for (const auto &Curr : AliasSets) {
     JSON["AliasSets"].push_back(Curr);
   }
-- 
2.43.0


From 6b9b90f850c26bc03246f11202425a5a361b65fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 11/43] fix: make an empty CallGraphData loadable

---
 lib/ControlFlow/CallGraphData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..58f019e 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  nlohmann::json JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
-- 
2.43.0


From d380be7fc49f3b3e0bffa41b05b3de43caf90930 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 12/43] fix: make an empty LLVMVFTableData loadable

---
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
index 69d2a8d..947538b 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
@@ -17,7 +17,7 @@ namespace psr {
 static LLVMVFTableData getDataFromJson(const nlohmann::json &Json) {
   LLVMVFTableData Data;
 
-  for (const auto &Curr : Json["VFT"]) {
+  for (const auto &Curr : Json.at("VFT")) {
     Data.VFT.push_back(Curr);
   }
 
@@ -27,6 +27,8 @@ static LLVMVFTableData getDataFromJson(const nlohmann::json &Json) {
 void LLVMVFTableData::printAsJson(llvm::raw_ostream &OS) const {
   nlohmann::json JSON;
 
+  JSON["VFT"] = nlohmann::json::array();
+
   for (const auto &Curr : VFT) {
     JSON["VFT"].push_back(Curr);
   }
-- 
2.43.0


From 69d8f0b379a8b6c3224fb1fbf864ec0955a99329 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 13/43] fix: skip unknown subtypes when loading a
 LLVMTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 23dbdcc..b4d2484 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -121,7 +121,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
     auto Vtx = TypeVertexMap.at(SrcType);
     for (const auto &CurrEdge : SerElement.getValue()) {
       const auto *DestType = NameToStructType[CurrEdge];
-      if (!SrcType) {
+      if (!DestType) {
         continue;
       }
       auto DestVtx = TypeVertexMap.at(DestType);
-- 
2.43.0


From 7e01df8d70447dd5f18406419e44f4e6ac69b1b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 14/43] fix: skip unknown call-sites when loading a CallGraph

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
-- 
2.43.0


From 05aa2ca93c33f088b8f9d86a26e263c3121778e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 15/43] fix: resolve argument ids of functions with a dot in
 their name

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..1522d91 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,7 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From 6975ff344ed692893f0582653e6b12601a1c9a51 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:11:14 +0000
Subject: [PATCH 16/43] fix: complete a loaded LLVMAliasSet with the default
 alias analysis

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 00015cb..e4e8dd4 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -120,7 +120,7 @@ static const llvm::Value *fromAliasId(const LLVMProjectIRDB &IRDB,
 
 LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
                            const nlohmann::json &SerializedPTS)
-    : PTA(*IRDB, true) {
+    : PTA(*IRDB, true, AliasAnalysisType::CFLAnders) {
   assert(IRDB != nullptr);
   // Assume, we already have validated the json schema
 
-- 
2.43.0


From def37ce544cd6432c3511a6a05be1b9ab0b64c05 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 17/43] fix: compute linear constants in the width and
 signedness of the operation

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 48 ++++++++++++++++---
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..8ba2796 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -95,9 +95,11 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
+ * @param Width bit width of the operands
  * @return Result of binary operation
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned Width) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -108,28 +110,45 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  if (Width == 0 || Width > 64) {
+    return Bottom{};
+  }
+
+  // The constants are kept sign-extended to 64 bits
+  const auto FitsWidth = [Width](int64_t Val) {
+    return llvm::SignExtend64(Val, Width) == Val;
+  };
+  const auto ZeroExtend = [Width](int64_t Val) {
+    return uint64_t(Val) & llvm::maskTrailingOnes<uint64_t>(Width);
+  };
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
   case llvm::Instruction::Add:
-    if (llvm::AddOverflow(Lop, Rop, Res)) {
+    if (llvm::AddOverflow(Lop, Rop, Res) || !FitsWidth(Res)) {
       return Bottom{};
     }
     return Res;
 
   case llvm::Instruction::Sub:
-    if (llvm::SubOverflow(Lop, Rop, Res)) {
+    if (llvm::SubOverflow(Lop, Rop, Res) || !FitsWidth(Res)) {
       return Bottom{};
     }
     return Res;
 
   case llvm::Instruction::Mul:
-    if (llvm::MulOverflow(Lop, Rop, Res)) {
+    if (llvm::MulOverflow(Lop, Rop, Res) || !FitsWidth(Res)) {
       return Bottom{};
     }
     return Res;
 
   case llvm::Instruction::UDiv:
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return llvm::SignExtend64(ZeroExtend(Lop) / ZeroExtend(Rop), Width);
+
   case llvm::Instruction::SDiv:
     if (Lop == std::numeric_limits<int64_t>::min() &&
         Rop == -1) { // Would produce and overflow, as the complement of min is
@@ -139,13 +158,24 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
+    if (!FitsWidth(Lop / Rop)) {
+      return Bottom{};
+    }
     return Lop / Rop;
 
   case llvm::Instruction::URem:
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return llvm::SignExtend64(ZeroExtend(Lop) % ZeroExtend(Rop), Width);
+
   case llvm::Instruction::SRem:
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
+    if (Rop == -1) { // min % -1 overflows as well
+      return 0;
+    }
     return Lop % Rop;
 
   case llvm::Instruction::And:
@@ -205,23 +235,27 @@ struct BinOp {
     PHASAR_LOG_LEVEL(DEBUG, "Curr Node : " << llvmIRToString(CurrNode));
     PHASAR_LOG_LEVEL(DEBUG, ' ');
 
+    const unsigned Width = Lop->getType()->getScalarSizeInBits();
+
     if (LLVMZeroValue::isLLVMZeroValue(CurrNode) &&
         llvm::isa<llvm::ConstantInt>(Lop) &&
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 Width);
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(),
+                                 Width);
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source, Width);
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From 2d1cc1b1a4b85dae0ae61a4503ff7bbde6c9813a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 18/43] fix: a value the constant analysis does not model may
 be anything

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 8ba2796..2dd3450 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -391,6 +391,11 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     }
   }
 
+  if (Curr->getType()->isIntegerTy() && !llvm::isa<llvm::CallBase>(Curr)) {
+    // Not modeled (casts, selects, phis, ...), so the value may be anything
+    return generateFromZero(Curr);
+  }
+
   return identityFlow();
 }
 
@@ -554,6 +559,11 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
     return lca::BinOp(OP, Lop, Rop, CurrNode);
   }
 
+  // A value that we do not model
+  if (Curr == SuccNode && isZeroValue(CurrNode)) {
+    return AllBottom<l_t>{};
+  }
+
   PHASAR_LOG_LEVEL(DEBUG, "Case: Edge identity.");
   PHASAR_LOG_LEVEL(DEBUG, ' ');
   return EdgeIdentity<l_t>{};
-- 
2.43.0


From 2ed2d112b207b85cd1e06a27a09e6c0ecefd7755 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 19/43] fix: taints of arguments and of values used in loops
 survive a single use

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..999c4bf 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -183,9 +183,19 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
-static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
-                                                                  d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+/// Whether we will not see Val anymore after Use, so that it is safe to kill it.
+/// Arguments, globals and values from other basic blocks may still be relevant
+/// for the caller, other functions, or the next loop iteration.
+static bool isDeadAfterUse(const llvm::Value *Val,
+                           const llvm::Instruction *Use) noexcept {
+  const auto *Inst = llvm::dyn_cast<llvm::Instruction>(Val);
+  return Inst && !Inst->hasNUsesOrMore(2) &&
+         Inst->getParent() == Use->getParent();
+}
+
+static IFDSTaintAnalysis::FlowFunctionPtrType
+transferAndKillFlow(const llvm::Instruction *To, d_t From) {
+  if (!isDeadAfterUse(From, To)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -201,9 +211,9 @@ static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
 }
 
 static IFDSTaintAnalysis::FlowFunctionPtrType
-transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
-  bool KillFrom1 = !From1->hasNUsesOrMore(2);
-  bool KillFrom2 = !From2->hasNUsesOrMore(2);
+transferAndKillTwoFlows(const llvm::Instruction *To, d_t From1, d_t From2) {
+  bool KillFrom1 = isDeadAfterUse(From1, To);
+  bool KillFrom2 = isDeadAfterUse(From2, To);
 
   if (KillFrom1) {
     if (KillFrom2) {
@@ -270,7 +280,7 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (!isDeadAfterUse(Store->getValueOperand(), Store)) {
       Gen.insert(Store->getValueOperand());
     }
 
-- 
2.43.0


From eddd20864b3f16049f9a391019004e16743876d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 20/43] fix: taint pointers whose content is loaded later in
 the same block

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 999c4bf..2c27f74 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -156,6 +156,17 @@ void IFDSTaintAnalysis::populateWithMayAliases(
   for (const auto *Fact : Facts) {
     auto Aliases = PT.getAliasSet(Fact);
     for (const auto *Alias : *Aliases) {
+      if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Alias)) {
+        // Handle at least one level of indirection...
+        // Note: This also holds for loads that come later in the same block, as
+        // they are only tainted, if their pointer operand is.
+        const auto *PointerOp = Load->getPointerOperand()->stripPointerCasts();
+        if (Load->getFunction() == Context->getFunction() &&
+            !canSkipAtContext(PointerOp, Context)) {
+          Tmp.insert(PointerOp);
+        }
+      }
+
       if (canSkipAtContext(Alias, Context)) {
         continue;
       }
@@ -164,12 +175,6 @@ void IFDSTaintAnalysis::populateWithMayAliases(
         continue;
       }
 
-      if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Alias)) {
-        // Handle at least one level of indirection...
-        const auto *PointerOp = Load->getPointerOperand()->stripPointerCasts();
-        Tmp.insert(PointerOp);
-      }
-
       Tmp.insert(Alias);
     }
   }
-- 
2.43.0


From 5e15e65477c9cfb3224229821744c6134d335d4a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:54:11 +0000
Subject: [PATCH 21/43] fix: keep linear constants across calls that may target
 a function without a body

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 2dd3450..ae71cd5 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -431,7 +431,10 @@ IDELinearConstantAnalysis::getRetFlowFunction(n_t CallSite, f_t /*CalleeFun*/,
 IDELinearConstantAnalysis::FlowFunctionPtrType
 IDELinearConstantAnalysis::getCallToRetFlowFunction(
     n_t CallSite, n_t /*RetSite*/, llvm::ArrayRef<f_t> Callees) {
-  if (llvm::all_of(Callees, [](f_t Fun) { return Fun->isDeclaration(); })) {
+  // Facts survive calls to functions without a body; such functions may also be
+  // among several callees
+  if (Callees.empty() ||
+      llvm::any_of(Callees, [](f_t Fun) { return Fun->isDeclaration(); })) {
     return identityFlow();
   }
 
-- 
2.43.0


From 8295fc600f86fac35d7b7bf4d232fe96193d7b31 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:54:11 +0000
Subject: [PATCH 22/43] fix: return the typestate of a parameter that was
 passed on to another function

---
 .../IfdsIde/Problems/IDETypeStateAnalysis.cpp    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
index 4580fda..0ed4729 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
@@ -164,14 +164,22 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
       Res.insert(CS);
     }
 
-    // Collect all relevant alloca's to map into caller context
+    // Collect all relevant alloca's to map into caller context, as well as the
+    // caller's own parameters that alias an actual parameter: they were killed
+    // during call-to-return and carry the state on to the caller's callers.
     {
-      container_type RelAllocas;
+      container_type RelFacts;
       for (const auto *Fact : Res) {
         const auto &Allocas = getRelevantAllocas(Fact);
-        RelAllocas.insert(Allocas.begin(), Allocas.end());
+        RelFacts.insert(Allocas.begin(), Allocas.end());
+        for (const auto *Alias : getWMAliasSet(Fact)) {
+          const auto *Arg = llvm::dyn_cast<llvm::Argument>(Alias);
+          if (Arg && Arg->getParent() == CS->getFunction()) {
+            RelFacts.insert(Arg);
+          }
+        }
       }
-      Res.insert(RelAllocas.begin(), RelAllocas.end());
+      Res.insert(RelFacts.begin(), RelFacts.end());
     }
 
     return Res;
-- 
2.43.0


From 7238e15413169143cfd3d67a49f6ec27688249b3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 23/43] fix: let the backward CFG mirror the forward CFG at
 artificial exits, branches and debug intrinsics

---
 .../ControlFlow/LLVMBasedBackwardCFG.cpp      | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..ea46628 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -39,10 +40,8 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
-  if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+  if (const auto *Fun = BackwardRetToFunction.lookup(Inst)) {
+    return this->base_t::getStartPointsOfImpl(Fun);
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
@@ -71,13 +70,8 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
@@ -108,7 +102,8 @@ bool LLVMBasedBackwardCFG ::isExitInstImpl(n_t Inst) const noexcept {
 }
 
 bool LLVMBasedBackwardCFG ::isStartPointImpl(n_t Inst) const noexcept {
-  return this->base_t::isExitInstImpl(Inst);
+  return !BackwardRetToFunction.count(Inst) &&
+         this->base_t::isExitInstImpl(Inst);
 }
 
 bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
@@ -118,14 +113,8 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
-  }
-  return false;
+  return !BackwardRetToFunction.count(Succ) &&
+         this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
-- 
2.43.0


From 188ded5b1a30e5748bef0c83357ebe1ee84b49ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 24/43] fix: judge branch targets and start points in
 LLVMBasedCFG consistently with its successors

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..8365bca 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -170,7 +170,8 @@ bool detail::LLVMBasedCFGImpl<Derived>::isStartPointImpl(
   if (Inst == FirstInst) {
     return true;
   }
-  return llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
+  return IgnoreDbgInstructions &&
+         llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
          Inst == FirstInst->getNextNonDebugInstruction(false);
 }
 
@@ -216,7 +217,12 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      const auto *First = &BB->front();
+      if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
+        First =
+            First->getNextNonDebugInstruction(false /*Only debug instructions*/);
+      }
+      if (First == Succ) {
         return true;
       }
     }
-- 
2.43.0


From 4d187217959c73945918b01a24dce6b8c79d7a61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 25/43] fix: treat resume as an exit statement, as
 getExitPointsOf does

---
 include/phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h     | 2 +-
 .../IfdsIde/Problems/IDEInstInteractionAnalysis.h        | 3 +--
 .../IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp        | 4 ++--
 .../IDEGeneralizedLCA/MapFactsToCallerFlowFunction.cpp   | 9 +++++----
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp       | 4 ++--
 .../IfdsIde/Problems/IFDSUninitializedVariables.cpp      | 3 ++-
 6 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h b/include/phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h
index a3134c7..fa668c7 100644
--- a/include/phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h
+++ b/include/phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h
@@ -71,7 +71,7 @@ protected:
     return llvm::isa<llvm::CallBase>(Inst);
   }
   [[nodiscard]] bool isExitInstImpl(n_t Inst) const noexcept {
-    return llvm::isa<llvm::ReturnInst>(Inst);
+    return llvm::isa<llvm::ReturnInst, llvm::ResumeInst>(Inst);
   }
   [[nodiscard]] bool isStartPointImpl(n_t Inst) const noexcept;
   [[nodiscard]] bool isFieldLoadImpl(n_t Inst) const noexcept;
diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
index b4410d1..76c9383 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
@@ -865,8 +865,7 @@ public:
     //
     if (isZeroValue(ExitNode) && RetNode == CallSite) {
       const auto *Ret = llvm::dyn_cast<llvm::ReturnInst>(ExitInst);
-      if (const auto *CD =
-              llvm::dyn_cast<llvm::ConstantData>(Ret->getReturnValue())) {
+      if (Ret && llvm::isa<llvm::ConstantData>(Ret->getReturnValue())) {
         // Check if the user has registered a fact generator function
         l_t UserEdgeFacts = bvSetFrom(invoke_or_default(EdgeFactGen, ExitInst));
         return IIAAKillOrReplaceEFCache.createEdgeFunction(
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
index f5b799d..6320754 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
@@ -419,7 +419,7 @@ IDEExtendedTaintAnalysis::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
 
   const auto *Call = llvm::cast<llvm::CallBase>(CallSite);
   return lambdaFlow([this, Call, CalleeFun,
-                     ExitStmt{llvm::cast<llvm::ReturnInst>(ExitStmt)},
+                     ExitStmt{llvm::dyn_cast<llvm::ReturnInst>(ExitStmt)},
                      PTC{ArgAliasCache(PT, Call->arg_size(),
                                        HasPreciseAliasInfo)}](
                         d_t Source) mutable -> std::set<d_t> {
@@ -458,7 +458,7 @@ IDEExtendedTaintAnalysis::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
     }
     // For now, ignore mapping back varargs
     d_t RetVal;
-    if (ExitStmt->getReturnValue() &&
+    if (ExitStmt && ExitStmt->getReturnValue() &&
         equivalent(Source, RetVal = makeFlowFact(ExitStmt->getReturnValue()))) {
       Ret.insert(FactFactory.withOffsets(makeFlowFact(Call), Source - RetVal));
     }
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/MapFactsToCallerFlowFunction.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/MapFactsToCallerFlowFunction.cpp
index 731a7ec..ab01dbd 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/MapFactsToCallerFlowFunction.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/MapFactsToCallerFlowFunction.cpp
@@ -21,7 +21,7 @@ namespace psr::glca {
 MapFactsToCallerFlowFunction::MapFactsToCallerFlowFunction(
     const llvm::CallBase *CallSite, const llvm::Instruction *ExitStmt,
     const llvm::Function *Callee)
-    : CallSite(CallSite), ExitStmt(llvm::cast<llvm::ReturnInst>(ExitStmt)),
+    : CallSite(CallSite), ExitStmt(llvm::dyn_cast<llvm::ReturnInst>(ExitStmt)),
       Callee(Callee) {
   for (unsigned Idx = 0; Idx < CallSite->arg_size(); ++Idx) {
     Actuals.push_back(CallSite->getArgOperand(Idx));
@@ -70,9 +70,10 @@ MapFactsToCallerFlowFunction::computeTargets(const llvm::Value *Source) {
     }
   }
   // Collect return value facts
-  if (Source == ExitStmt->getReturnValue() ||
-      (LLVMZeroValue::isLLVMZeroValue(Source) && ExitStmt->getReturnValue() &&
-       isConstant(ExitStmt->getReturnValue()))) {
+  if (ExitStmt &&
+      (Source == ExitStmt->getReturnValue() ||
+       (LLVMZeroValue::isLLVMZeroValue(Source) && ExitStmt->getReturnValue() &&
+        isConstant(ExitStmt->getReturnValue())))) {
     Res.insert(CallSite);
   }
   return Res;
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index ae71cd5..e03df31 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -593,8 +593,8 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
     n_t /*RetSite*/, d_t RetNode) {
   // Case: Returning constant integer
   if (isZeroValue(ExitNode) && !isZeroValue(RetNode)) {
-    const auto *Return = llvm::cast<llvm::ReturnInst>(ExitStmt);
-    auto *ReturnValue = Return->getReturnValue();
+    const auto *Return = llvm::dyn_cast<llvm::ReturnInst>(ExitStmt);
+    auto *ReturnValue = Return ? Return->getReturnValue() : nullptr;
     if (auto *CI = llvm::dyn_cast_or_null<llvm::ConstantInt>(ReturnValue)) {
       auto IntConst = CI->getSExtValue();
       return lca::GenConstant{IntConst};
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 68e360b..734f4fa 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -315,7 +315,8 @@ IFDSUninitializedVariables::getRetFlowFunction(
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
         std::set<IFDSUninitializedVariables::d_t> Ret;
-        if (Exit->getNumOperands() > 0 && Exit->getOperand(0) == Source) {
+        if (llvm::isa<llvm::ReturnInst>(Exit) && Exit->getNumOperands() > 0 &&
+            Exit->getOperand(0) == Source) {
           Ret.insert(Call);
         }
         //----------------------------------------------------------------------
-- 
2.43.0


From 89b992ab9e3a795aaa1ffbf2f9ecef37e4ac1867 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 26/43] fix: LLVMAliasSet::mergeWith joins all sets that
 overlap with a set of the other alias info

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 29 +++++++------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index e4e8dd4..959bb9c 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -632,29 +632,16 @@ void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
   // merge analyzed functions
   AnalyzedFunctions.insert(OtherPTI.AnalyzedFunctions.begin(),
                            OtherPTI.AnalyzedFunctions.end());
-  // merge points-to sets
+  // merge points-to sets; a set of other may overlap with several sets of this
+  llvm::DenseSet<const AliasSetTy *> Merged;
   for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
-    for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
-      }
+    if (!Merged.insert(Set.get()).second) {
+      continue;
     }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
+    addSingletonAliasSet(KeyPtr);
+    for (const auto *ElemPtr : *Set) {
+      addSingletonAliasSet(ElemPtr);
+      mergeAliasSets(KeyPtr, ElemPtr);
     }
   }
 }
-- 
2.43.0


From e727ffa0d18ce4cee70d59ce677993aaa40b14cf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 27/43] fix: recognise the per-module caller of registered
 destructors as generated

---
 lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index e6a5324..22fa98c 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -356,8 +356,9 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
   if (F.hasName()) {
     llvm::StringRef FunctionName = F.getName();
     return llvm::StringSwitch<bool>(FunctionName)
-        .Cases(ModelName, DtorModelName, DtorsCallerName, UserEntrySelectorName,
-               true)
+        .Cases(ModelName, DtorModelName, UserEntrySelectorName, true)
+        // the name of the module is appended
+        .StartsWith(DtorsCallerName, true)
         .Default(false);
   }
 
-- 
2.43.0


From 277b35e96d929462380b415beb6e1f948a4277db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 28/43] fix: model registered destructors in reverse order of
 their registration, before llvm.global_dtors

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index 22fa98c..68c4691 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -16,6 +16,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/IR/IRBuilder.h"
+#include "llvm/IR/InstIterator.h"
 
 #include <functional>
 
@@ -62,10 +63,12 @@ collectGlobalDtors(const llvm::Module &Mod) {
 }
 
 static llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-collectRegisteredDtorsForModule(const llvm::Module &Mod) {
+collectRegisteredDtorsForModule(
+    llvm::Module &Mod,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
   // NOLINTNEXTLINE
   llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-      RegisteredDtors, RegisteredLocalStaticDtors;
+      RegisteredDtors;
 
   auto *CxaAtExitFn = Mod.getFunction("__cxa_atexit");
   if (!CxaAtExitFn) {
@@ -82,31 +85,46 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
     return CE->getOperand(0);
   };
 
-  for (auto *User : CxaAtExitFn->users()) {
-    auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
-    if (!Call) {
-      continue;
-    }
-
+  auto RegisterDtor = [&](const llvm::CallBase *Call) {
     auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
         getConstantBitcastArgument(Call->getArgOperand(0)));
     auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
 
-    if (!DtorOp || !DtorArgOp) {
-      continue;
+    if (DtorOp && DtorArgOp) {
+      RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
     }
+  };
 
-    if (Call->getFunction()->getName().contains("__cxx_global_var_init")) {
-      RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
-    } else {
-      RegisteredLocalStaticDtors.emplace_back(DtorOp, DtorArgOp);
+  // Destructors of global variables are registered in the order in which the
+  // global ctors execute their initializers
+  llvm::SmallPtrSet<const llvm::Function *, 8> Visited;
+  auto CollectFrom = [&](const llvm::Function *Fun, auto &CollectFrom) -> void {
+    if (!Visited.insert(Fun).second) {
+      return;
+    }
+    for (const auto &Inst : llvm::instructions(Fun)) {
+      const auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+      const auto *Callee = Call ? Call->getCalledFunction() : nullptr;
+      if (!Callee) {
+        continue;
+      }
+      if (Callee == CxaAtExitFn) {
+        RegisterDtor(Call);
+      } else if (Callee->getName().contains("__cxx_global_var_init")) {
+        CollectFrom(Callee, CollectFrom);
+      }
     }
+  };
+
+  for (auto [unused, Ctor] : GlobalCtors) {
+    CollectFrom(Ctor, CollectFrom);
   }
 
   // Destructors of local static variables are registered last, no matter where
   // they are declared in the source code
-  RegisteredDtors.append(RegisteredLocalStaticDtors.begin(),
-                         RegisteredLocalStaticDtors.end());
+  for (const auto &Fun : Mod) {
+    CollectFrom(&Fun, CollectFrom);
+  }
 
   return RegisteredDtors;
 }
@@ -166,11 +184,12 @@ static llvm::Function *createDtorCallerForModule(
 
 [[nodiscard]] static llvm::Function *collectRegisteredDtors(
     std::multimap<size_t, llvm::Function *, std::greater<>> &GlobalDtors,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors,
     llvm::Module &Mod) {
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
                        "Collect Registered Dtors for Module " << Mod.getName());
 
-  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod);
+  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod, GlobalCtors);
 
   if (RegisteredDtors.empty()) {
     return nullptr;
@@ -182,7 +201,8 @@ static llvm::Function *createDtorCallerForModule(
 
   auto *RegisteredDtorCaller = createDtorCallerForModule(Mod, RegisteredDtors);
   // auto It =
-  GlobalDtors.emplace(0, RegisteredDtorCaller);
+  // Registered dtors are called at exit, before any of the llvm.global_dtors
+  GlobalDtors.emplace(SIZE_MAX, RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
   return RegisteredDtorCaller;
@@ -224,7 +244,8 @@ llvm::Function *GlobalCtorsDtorsModel::buildModel(
   auto &M = *IRDB.getModule();
   auto GlobalCtors = collectGlobalCtors(M);
   auto GlobalDtors = collectGlobalDtors(M);
-  auto *RegisteredDtorCaller = collectRegisteredDtors(GlobalDtors, M);
+  auto *RegisteredDtorCaller =
+      collectRegisteredDtors(GlobalDtors, GlobalCtors, M);
   if (RegisteredDtorCaller) {
     IRDB.insertFunction(RegisteredDtorCaller);
   }
-- 
2.43.0


From 5bb593289d132c7872980f334d7520f1af23b04f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 29/43] fix: keep tainted pointers that are passed as variadic
 arguments

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 2c27f74..f6b8e6e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -374,8 +374,16 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
-    return HasDeclOnly || !Arg->getType()->isPointerTy();
+  // Variadic arguments are not mapped to a parameter of the callee, so they may
+  // not come back with the return flow
+  size_t NumParams = CS->arg_size();
+  for (const auto *DestFun : Callees) {
+    NumParams = std::min(NumParams, DestFun->arg_size());
+  }
+
+  return mapFactsAlongsideCallSite(CS, [CS, HasDeclOnly, NumParams](d_t Arg) {
+    return HasDeclOnly || !Arg->getType()->isPointerTy() ||
+           llvm::is_contained(llvm::drop_begin(CS->args(), NumParams), Arg);
   });
 }
 
-- 
2.43.0


From f7318aff0ecb5834f11db4b9e82d7828f694fc1c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 30/43] fix: linear constants behind pointers passed as
 variadic arguments are unknown after the call

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index e03df31..5cbb35c 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -428,6 +428,19 @@ IDELinearConstantAnalysis::getRetFlowFunction(n_t CallSite, f_t /*CalleeFun*/,
       });
 }
 
+/// Variadic arguments are not mapped to a parameter of the callee, so they do
+/// not come back with the return flow
+static bool isVariadicArgument(const llvm::Instruction *CallSite,
+                               llvm::ArrayRef<const llvm::Function *> Callees,
+                               const llvm::Value *Fact) {
+  const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
+  return llvm::any_of(Callees, [CS, Fact](const auto *Fun) {
+    return CS->arg_size() > Fun->arg_size() &&
+           llvm::is_contained(llvm::drop_begin(CS->args(), Fun->arg_size()),
+                              Fact);
+  });
+}
+
 IDELinearConstantAnalysis::FlowFunctionPtrType
 IDELinearConstantAnalysis::getCallToRetFlowFunction(
     n_t CallSite, n_t /*RetSite*/, llvm::ArrayRef<f_t> Callees) {
@@ -440,7 +453,10 @@ IDELinearConstantAnalysis::getCallToRetFlowFunction(
 
   return mapFactsAlongsideCallSite(
       llvm::cast<llvm::CallBase>(CallSite),
-      [](d_t Arg) { return !Arg->getType()->isPointerTy(); },
+      [CallSite, Callees{Callees.vec()}](d_t Arg) {
+        return !Arg->getType()->isPointerTy() ||
+               isVariadicArgument(CallSite, Callees, Arg);
+      },
       /*PropagateGlobals*/ false);
 }
 
@@ -604,8 +620,14 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
 }
 
 EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallToRetEdgeFunction(
-    n_t /*CallSite*/, d_t /*CallNode*/, n_t /*RetSite*/, d_t /*RetSiteNode*/,
-    llvm::ArrayRef<f_t> /*Callees*/) {
+    n_t CallSite, d_t CallNode, n_t /*RetSite*/, d_t /*RetSiteNode*/,
+    llvm::ArrayRef<f_t> Callees) {
+  // The callee may write through a pointer that it gets as variadic argument
+  if (!isZeroValue(CallNode) && CallNode->getType()->isPointerTy() &&
+      llvm::none_of(Callees, [](f_t Fun) { return Fun->isDeclaration(); }) &&
+      isVariadicArgument(CallSite, Callees, CallNode)) {
+    return AllBottom<l_t>{};
+  }
   return EdgeIdentity<l_t>{};
 }
 
-- 
2.43.0


From 116d9bcb3a2c6106f0e02013f1959167439850c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:17:01 +0000
Subject: [PATCH 31/43] fix: build the type hierarchy on the fly when
 LLVMBasedICFG gets none

The constructor documents that a missing type hierarchy is constructed on
the fly, but passed the null pointer on to the CHA, RTA and DTA resolvers.
---
 lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp
index 2605397..0af2721 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp
@@ -30,6 +30,7 @@
 #include "llvm/IR/Instruction.h"
 #include "llvm/Support/ErrorHandling.h"
 
+#include <optional>
 #include <utility>
 
 namespace psr {
@@ -60,6 +61,13 @@ LLVMBasedICFG::LLVMBasedICFG(LLVMProjectIRDB *IRDB,
     PT = PTOwn.asRef();
   }
 
+  std::optional<LLVMTypeHierarchy> THOwn;
+  if (!TH && (CGType == CallGraphAnalysisType::CHA ||
+              CGType == CallGraphAnalysisType::RTA ||
+              CGType == CallGraphAnalysisType::DTA)) {
+    TH = &THOwn.emplace(*IRDB);
+  }
+
   auto CGRes = Resolver::create(CGType, IRDB, &VTP, TH, PT);
   initialize(IRDB, *CGRes, EntryPoints, S, IncludeGlobals);
 }
-- 
2.43.0


From 219f1ac22661df43697f6bb49c927a31cd994ae0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:29:59 +0000
Subject: [PATCH 32/43] fix: equal edge functions have equal hash codes

---
 include/phasar/DataFlow/IfdsIde/EdgeFunction.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/EdgeFunction.h b/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
index ee7ee4b..f15b47f 100644
--- a/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
+++ b/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
@@ -754,14 +754,17 @@ private:
           }
         }
       },
-      [](const void *EF, const void *VT) noexcept -> size_t {
+      []([[maybe_unused]] const void *EF,
+         [[maybe_unused]] const void *VT) noexcept -> size_t {
         if constexpr (is_std_hashable_v<ConcreteEF>) {
           return std::hash<ConcreteEF>{}(*getPtr<ConcreteEF>(EF));
         } else if constexpr (is_llvm_hashable_v<ConcreteEF>) {
           using llvm::hash_value;
           return hash_value(*getPtr<ConcreteEF>(EF));
         } else {
-          return llvm::hash_combine(EF, VT);
+          // Equal edge functions must have equal hash-codes, so the address of
+          // the allocated object must not contribute.
+          return llvm::hash_value(VT);
         }
       },
       [](const void *EF) noexcept -> size_t {
-- 
2.43.0


From 4134873417181f74c85aeae1eb386d503fe30b65 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:45:49 +0000
Subject: [PATCH 33/43] fix: uninitialized variables flow back through pointer
 parameters of indirect calls

---
 .../Problems/IFDSUninitializedVariables.cpp   | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 734f4fa..d437d92 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -300,7 +300,7 @@ IFDSUninitializedVariables::getCallFlowFunction(
 IFDSUninitializedVariables::FlowFunctionPtrType
 IFDSUninitializedVariables::getRetFlowFunction(
     IFDSUninitializedVariables::n_t CallSite,
-    IFDSUninitializedVariables::f_t /*CalleeFun*/,
+    IFDSUninitializedVariables::f_t CalleeFun,
     IFDSUninitializedVariables::n_t ExitStmt,
     IFDSUninitializedVariables::n_t /*RetSite*/) {
   if (llvm::isa<llvm::CallInst>(CallSite) ||
@@ -308,9 +308,11 @@ IFDSUninitializedVariables::getRetFlowFunction(
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     struct UVFF : FlowFunction<IFDSUninitializedVariables::d_t> {
       const llvm::CallBase *Call;
+      const llvm::Function *Callee;
       const llvm::Instruction *Exit;
-      UVFF(const llvm::CallBase *C, const llvm::Instruction *E)
-          : Call(C), Exit(E) {}
+      UVFF(const llvm::CallBase *C, const llvm::Function *F,
+           const llvm::Instruction *E)
+          : Call(C), Callee(F), Exit(E) {}
       std::set<IFDSUninitializedVariables::d_t>
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
@@ -322,22 +324,22 @@ IFDSUninitializedVariables::getRetFlowFunction(
         //----------------------------------------------------------------------
         // Handle pointer/reference parameters
         //----------------------------------------------------------------------
-        if (Call->getCalledFunction()) {
-          unsigned I = 0;
-          for (const auto &Arg : Call->getCalledFunction()->args()) {
-            // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
-            if (&Arg == Source && Arg.getType()->isPointerTy()) {
-              Ret.insert(Call->getArgOperand(I));
-            }
-            I++;
+        // Note: the call may be indirect
+        unsigned I = 0;
+        for (const auto &Arg : Callee->args()) {
+          // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
+          if (&Arg == Source && Arg.getType()->isPointerTy() &&
+              I < Call->arg_size()) {
+            Ret.insert(Call->getArgOperand(I));
           }
+          I++;
         }
 
         // kill all other facts
         return Ret;
       }
     };
-    return std::make_shared<UVFF>(CS, ExitStmt);
+    return std::make_shared<UVFF>(CS, CalleeFun, ExitStmt);
   }
   // kill everything else
   return killAllFlows();
-- 
2.43.0


From 4594efd2a8b04f0f27aff55984cc38a06ee87678 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:22:33 +0000
Subject: [PATCH 34/43] fix: PAMM timers measure elapsed time on the steady
 clock

---
 include/phasar/Utils/PAMM.h | 4 ++--
 lib/Utils/PAMM.cpp          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/phasar/Utils/PAMM.h b/include/phasar/Utils/PAMM.h
index 50f8f21..bdaf8e2 100644
--- a/include/phasar/Utils/PAMM.h
+++ b/include/phasar/Utils/PAMM.h
@@ -23,7 +23,7 @@
 #include "llvm/ADT/StringMap.h"
 #include "llvm/ADT/StringRef.h"
 
-#include <chrono> // high_resolution_clock::time_point, milliseconds
+#include <chrono> // steady_clock::time_point, milliseconds
 #include <initializer_list>
 #include <optional>
 #include <set>    // set
@@ -58,7 +58,7 @@ namespace psr {
 /// other macro from this class.
 class PAMM final {
 public:
-  using TimePoint_t = std::chrono::high_resolution_clock::time_point;
+  using TimePoint_t = std::chrono::steady_clock::time_point;
   using Duration_t = std::chrono::milliseconds;
 
   PAMM() noexcept = default;
diff --git a/lib/Utils/PAMM.cpp b/lib/Utils/PAMM.cpp
index b1ea931..85ef05f 100644
--- a/lib/Utils/PAMM.cpp
+++ b/lib/Utils/PAMM.cpp
@@ -57,7 +57,7 @@ void PAMM::startTimer(llvm::StringRef TimerId) {
     llvm::report_fatal_error("Do not start an already running timer");
   }
 
-  PAMM::TimePoint_t Start = std::chrono::high_resolution_clock::now();
+  PAMM::TimePoint_t Start = PAMM::TimePoint_t::clock::now();
   It->second = Start;
 }
 
@@ -81,7 +81,7 @@ void PAMM::stopTimer(llvm::StringRef TimerId, bool PauseTimer) {
   assert(TimerRunning && "stopTimer failed because timer was already stopped");
 
   if (LLVM_LIKELY(ValidTimerId)) {
-    PAMM::TimePoint_t End = std::chrono::high_resolution_clock::now();
+    PAMM::TimePoint_t End = PAMM::TimePoint_t::clock::now();
     PAMM::TimePoint_t Start = RunningIt->second;
     RunningTimer.erase(RunningIt);
     auto P = make_pair(Start, End);
@@ -97,7 +97,7 @@ uint64_t PAMM::elapsedTime(llvm::StringRef TimerId) {
   auto RunningIt = RunningTimer.find(TimerId);
 
   if (RunningIt != RunningTimer.end()) {
-    PAMM::TimePoint_t End = std::chrono::high_resolution_clock::now();
+    PAMM::TimePoint_t End = PAMM::TimePoint_t::clock::now();
     PAMM::TimePoint_t Start = RunningIt->second;
     auto Duration = std::chrono::duration_cast<Duration_t>(End - Start);
     return Duration.count();
-- 
2.43.0


From 466d2d709ee77b2a0881c58b96e5fd4d19c9ae5c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:22:33 +0000
Subject: [PATCH 35/43] fix: PAMM::exportMeasuredData writes to the requested
 path

---
 lib/Utils/PAMM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/PAMM.cpp b/lib/Utils/PAMM.cpp
index 85ef05f..473a7b2 100644
--- a/lib/Utils/PAMM.cpp
+++ b/lib/Utils/PAMM.cpp
@@ -383,7 +383,7 @@ void PAMM::exportMeasuredData(
   }
 
   llvm::SmallString<128> Buf;
-  OutputPath.toStringRef(Buf);
+  OutputPath.toVector(Buf);
   if (!Buf.endswith(".json")) {
     Buf.append(".json");
   }
-- 
2.43.0


From 37638f9ead7bf0da0ccc0a07f19a5ecfa9fea0bc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:31:36 +0000
Subject: [PATCH 36/43] fix: LLVMBasedBackwardCFG lists its control-flow edges
 in backward direction

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index ea46628..98b1224 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -77,7 +77,7 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From 749ce89e462857fdcc2b9a6bcfc0e99cdc254008 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:31:36 +0000
Subject: [PATCH 37/43] fix: IntraMonoSolver ignores entry points without
 definition

---
 include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h b/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
index eda7edf..9bd6ed9 100644
--- a/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
+++ b/include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
@@ -51,6 +51,9 @@ protected:
     for (const auto &EntryPoint : EntryPoints) {
       auto Function =
           IMProblem.getProjectIRDB()->getFunctionDefinition(EntryPoint);
+      if (!Function) {
+        continue;
+      }
       auto ControlFlowEdges = CFG->getAllControlFlowEdges(Function);
       // add all intra-procedural edges to the worklist
       Worklist.insert(Worklist.begin(), ControlFlowEdges.begin(),
-- 
2.43.0


From 1a767c0002efc73a872feac4deef22b03c6ad411 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 38/43] fix: ExplodedSuperGraph keeps the origin of facts that
 hold initially

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..7827624 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -347,8 +347,9 @@ private:
 
     // Node has already been created, but MaySkipEdge above prevented us from
     // connecting with the pred. Now, we have a non-skippable edge to connect to
+    // Note: The facts that hold initially have no predecessor either
     NodeRef SuccVtx(SuccVtxNode, this);
-    if (!SuccVtx.predecessor()) {
+    if (!SuccVtx.predecessor() && SuccNode == ZeroValue) {
       NodeAdjOwner[SuccVtxNode].PredecessorIdx =
           PredId.value_or(Node::NoPredId);
       NodeDataOwner[SuccVtxNode].Source = Curr;
-- 
2.43.0


From 6365596c4bdd0f90693fb7d130651503145eaf59 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 39/43] fix: path constraints negate truncated conditions on
 the false branch

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 9ea5c94..578fcec 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -214,7 +214,13 @@ auto LLVMPathConstraints::handleCondBrInst(const llvm::BranchInst *Br,
               llvm::dyn_cast<llvm::LoadInst>(Trunc->getOperand(0))) {
         auto Ret = getLoadInstAsZ3(FromLoad);
         Ret.Constraint = (Ret.Constraint % 2 == 1);
-        return Ret;
+        if (IfTrue && GetFirstInst(IfTrue) == Succ) {
+          return Ret;
+        }
+        if (IfFalse && GetFirstInst(IfFalse) == Succ) {
+          Ret.Constraint = !Ret.Constraint;
+          return Ret;
+        }
       }
     }
   }
-- 
2.43.0


From 4b18fe152028ebc43fbbc72246c3b69fe8ff7688 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 40/43] fix: path constraints keep distinct unnamed variables
 apart

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 578fcec..91a2be1 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -507,6 +507,10 @@ auto LLVMPathConstraints::getAllocaInstAsZ3(const llvm::AllocaInst *Alloca)
     return Search->second;
   }
   std::string Name = getVarName(Alloca).str();
+  if (Name.empty()) {
+    /// Keep distinct unnamed variables apart
+    Name = "alloca" + getMetaDataID(Alloca);
+  }
   const auto *Ty = Alloca->getAllocatedType();
 
   if (const auto *IntTy = llvm::dyn_cast<llvm::IntegerType>(Ty)) {
-- 
2.43.0


From 7d14c7e8a8c75432338017d4b82c1ede27f10f94 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 41/43] fix: path constraints keep distinct calls of a function
 apart

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 91a2be1..f7a33e5 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -646,7 +646,9 @@ auto LLVMPathConstraints::getFunctionCallAsZ3(const llvm::CallBase *CallSite)
     -> ConstraintAndVariables {
   if (const auto *Callee = CallSite->getCalledFunction()) {
     if (Callee->hasName()) {
-      auto DemangledName = llvm::demangle(Callee->getName().str());
+      /// Different calls to the same function may return different values
+      auto DemangledName = llvm::demangle(Callee->getName().str()) + "." +
+                           getMetaDataID(CallSite);
       const auto *ReturnTy = Callee->getReturnType();
       if (ReturnTy->isFloatingPointTy()) {
         return {Z3Ctx->real_const(DemangledName.c_str()), {Callee}};
-- 
2.43.0


From dd7460362e78a0c9426a5c0391c91fd6e50f2d11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 42/43] fix: path tracing reports the paths to return
 statements of callees

---
 .../PathSensitivity/Z3BasedPathSensitivityManager.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
index 801a8e1..edfbaf9 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
@@ -245,8 +245,11 @@ public:
       return false;
     }
 
-    if (Prev && (llvm::isa<llvm::ReturnInst>(Prev) ||
-                 llvm::isa<llvm::ResumeInst>(Prev))) {
+    /// There is no return edge to consider, if the path already ends at
+    /// FinalInst
+    if (Prev && Prev != FinalInst &&
+        (llvm::isa<llvm::ReturnInst>(Prev) ||
+         llvm::isa<llvm::ResumeInst>(Prev))) {
       if (!emptyCS() && !isDirectSuccessorOf(FinalInst, popCS())) {
         /// Invalid return
         return false;
-- 
2.43.0


From 7ba9993b0396f089a679019a98e7c19aa4fcc82c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:13:09 +0000
Subject: [PATCH 43/43] fix: path tracing keeps paths that skip over a call in
 a merged block

---
 .../PathSensitivity/Z3BasedPathSensitivityManager.cpp    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
index edfbaf9..824bbb1 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
@@ -205,7 +205,7 @@ public:
       return;
     }
     if (const auto *CS = llvm::dyn_cast<llvm::CallBase>(Prev);
-        CS && !isDirectSuccessorOf(Inst, CS)) {
+        CS && !isDirectSuccessorOf(Inst, CS) && !isSkippedOver(Inst, CS)) {
       PHASAR_LOG_LEVEL_CAT(DEBUG, "CallStackPathFilter",
                            "Push CS: " << llvmIRToString(CS));
       pushCS(CS);
@@ -261,6 +261,13 @@ public:
   [[nodiscard]] bool isValid() const noexcept { return Valid; }
 
 private:
+  /// The ESG merges the identity edges within a basic block, so the path may go
+  /// on after Call without mentioning the calls in between
+  static bool isSkippedOver(const llvm::Instruction *Succ,
+                            const llvm::Instruction *Call) {
+    return Succ->getParent() == Call->getParent() && Call->comesBefore(Succ);
+  }
+
   bool isDirectSuccessorOf(const llvm::Instruction *Succ,
                            const llvm::Instruction *Of) {
 
-- 
2.43.0

