From e21295aa29e6818193ca59e09582cad8e6151684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 01/23] fix: counterstrategy extraction continued with the
 wrong guarantee after a guarantee had been satisfied

With several liveness guarantees, the printed counterstrategy could lead into a
cycle that satisfies all of them. After a transition satisfying the current
guarantee, continue with the guarantee for which the successor position was
found to be winning for the environment in the earliest iteration.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..1cd15ec 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -190,11 +190,18 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     nextLivenessAssumption  = (nextLivenessAssumption + 1) % livenessAssumptions.size();
                     firstTry = false;
                 }
+                // If the current guarantee is satisfied by the transition, then the environment relies on the successor
+                // position being winning by an earlier iterate of the outermost fixed point. So we have to continue with
+                // the guarantee for which the successor position was found to be winning first.
                 unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
+                if (!((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
+                    BF successor = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
+                    for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+                        if (!((boost::get<2>(*it) & successor).isFalse())) {
+                            nextLivenessGuarantee = boost::get<1>(*it);
+                            break;
+                        }
+                    }
                 }
 
                 //Mark which input has been captured by this case. Use the same input for other successors
-- 
2.43.0


From 4950cfd6899da9776ced164c11ddeedca3698970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 02/23] fix: counterstrategy output file name was taken from
 the first (input) file argument

---
 src/extensionExtractExplicitCounterstrategy.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 1cd15ec..b08820e 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,13 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+public:
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
@@ -50,8 +55,6 @@ protected:
         }
     }
 
-public:
-
 /**
  * @brief Compute and print out (to stdout) an explicit-state counter strategy that is winning for
  *        the environment. The output is compatible with the old JTLV output of LTLMoP.
-- 
2.43.0


From f26bee27587f1d671a8dbbb496ff260bf4535cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 03/23] fix: literal filtering in
 --computeWeakenedSafetyAssumptions compared a clause with itself and added
 absent literals

---
 src/extensionWeakenSafetyAssumptions.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..cb80e8f 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
@@ -130,6 +130,12 @@ public:
             std::vector<int> filteredLiterals;
             BF committedLiterals = mgr.constantFalse();
             for (unsigned int i=0;i<variables.size();i++) {
+                if (thisClause[i]==0) {
+                    // There is no literal for this variable in the clause
+                    filteredLiterals.push_back(0);
+                    continue;
+                }
+
                 BF restOfClause = committedLiterals;
                 for (unsigned int j=i+1;j<variables.size();j++) {
                     if (thisClause[j]>0) {
-- 
2.43.0


From 701bb8659b3cfd7f0f29c5d4e05cf8c0b741ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 04/23] fix: NaN as the number of system-losing initial inputs
 when the positions are restricted

---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..53f3216 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From 4c0597392fe64ad32a7f3a242a0fd9a0d8b17a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 05/23] fix: --analyzeAssumptions dropped all safety
 assumptions (and the last liveness assumption left none) when classifying
 liveness assumptions

---
 src/extensionAnalyzeAssumptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..f4a3605 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -376,11 +376,11 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From f477e82a98f2c6b9a9798270f303627cc7d5dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 06/23] fix: --analyzeSafetyLivenessInteraction counted inputs
 that the initialization assumptions forbid when telling how fast the
 environment can falsify

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index e7d0693..7c15bbc 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -151,7 +151,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 3561f9d676fc3f355755445b59ae57476340164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 07/23] fix: --analyzeSafetyLivenessInteraction required
 positions with an already failed guarantee to be winning in the non-strict
 robotics semantics

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index 7c15bbc..ec5a3a9 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -118,7 +118,7 @@ protected:
             computeWinningPositions();
 
             bool isWinningTraditionalSemantics = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput).isTrue();
-            bool isWinningRoboticsSemantics = (initEnv & initSys).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
+            bool isWinningRoboticsSemantics = (initEnv & initSys & !variables[varGuaFailPre]).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
 
 
             std::cout << "With a non-strict implication,\n";
-- 
2.43.0


From 790291ef110bc0eebac4ce152a26f6e54aba2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 08/23] fix: --computeAbstractWinningTrace counted inputs that
 the initialization assumptions forbid as initial choices of the environment

---
 src/extensionAbstractWinningTraceGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index c09daa6..cdf56b2 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -118,7 +118,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 0c4ce9303eb49e55d7c642d3a04af2fdbdb7953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 09/23] fix: --computeInterestingRunOfTheSystem marked goals
 and violations wrongly in single-transition, deadlocked and last steps

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 48dba8d..29e088e 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -129,7 +129,7 @@ public:
             //BF_newDumpDot(*this,currentPosition,"Pre Post",flexname.str().c_str());
 
             // Sys Liveness progress
-            if (edge < livenessGuarantees[systemGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessGuarantees[systemGoals.back()])) {
                 systemGoals.push_back((systemGoals.back() + 1) % livenessGuarantees.size());
                 systemGoalsSat.push_back(true);
             } else {
@@ -139,7 +139,7 @@ public:
             }
 
             // Env Liveness progress
-            if (edge < livenessAssumptions[environmentGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessAssumptions[environmentGoals.back()])) {
                 environmentGoals.push_back((environmentGoals.back() + 1) % livenessAssumptions.size());
                 environmentGoalsSat.push_back(true);
             } else {
@@ -149,8 +149,8 @@ public:
             }
 
             // Violations
-            safetyEnvViolation.push_back(!(edge < safetyEnv));
-            safetySysViolation.push_back(!(edge < safetySys));
+            safetyEnvViolation.push_back(!(edge <= safetyEnv));
+            safetySysViolation.push_back(!(edge <= safetySys));
 
             // Compute next position
             assert(nextPosition < safetySys);
@@ -163,6 +163,9 @@ public:
         }
 
         systemGoalsSat.push_back(false);
+        environmentGoalsSat.push_back(false);
+        safetyEnvViolation.push_back(false);
+        safetySysViolation.push_back(false);
 
         //========================
         // Compute variable groups
-- 
2.43.0


From 0f1b4932db8d182e97b9dc2eea9eb0a12922ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 10/23] fix: --computeInterestingRunOfTheSystem printed the
 goal marks of one transition and continued with another one

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 29e088e..bdb1d39 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -154,7 +154,7 @@ public:
 
             // Compute next position
             assert(nextPosition < safetySys);
-            nextPosition = determinizeRandomized(nextPosition.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost),preVars);
+            nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
             //std::ostringstream npname;
-- 
2.43.0


From 48e7cf6a4d64c92f80fa7b6b6fe3e03b147b0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 11/23] fix: --computeInterestingRunOfTheSystem let the
 environment aim at inputs that the safety assumptions forbid and then
 declared the system to lose

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index bdb1d39..db6d813 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -88,7 +88,7 @@ public:
             BF moves = mgr.constantFalse();
             do {
                 oldWinning = winning;
-                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput);
+                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput) & safetyEnv;
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-- 
2.43.0


From 7510644c385a0144ce364877d0004da3803176ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 12/23] fix: interleaving analysis listed the last output
 signal although fixing it early makes the specification unrealizable

---
 src/extensionInterleave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From 2ad1346eeb3660a5475cded457b410205bdd9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 13/23] fix: two-dimensional cost strategies switch goals only
 into states that are winning for the next goal

---
 src/extensionTwoDimensionalCost.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..a9cfb7a 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -317,6 +317,7 @@ public:
         // Computation of the winning strategy
         // ===================================
         strategyDumpingData.clear();
+        std::vector<BF> positionsWinningForTheGoals;
         for (unsigned int livenessGoal=0;livenessGoal<livenessGuarantees.size();livenessGoal++) {
             // std::cerr << "Processing liveness objective number " << livenessGoal << std::endl;
 
@@ -677,6 +678,8 @@ public:
 
             }
 
+            positionsWinningForTheGoals.push_back(positionsAlreadyFoundToBeWinning);
+
             // Let's dump the strategy data!
             /*unsigned int i = 0;
             for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
@@ -724,6 +727,25 @@ public:
 
         } // Iteration through all liveness goals completed
 
+        // A transition that satisfies the current liveness goal must choose the values of the additional
+        // variables in a way such that the state reached is winning for the goal that is to be reached next.
+        // The next goal is the first one that is not satisfied by the transition as well.
+        std::vector<BF> goalSwitchingIsFine;
+        for (unsigned int livenessGoal=0;livenessGoal<livenessGuarantees.size();livenessGoal++) {
+            BF allowed = !livenessGuarantees[livenessGoal];
+            BF remaining = livenessGuarantees[livenessGoal];
+            unsigned int nextGoal = (livenessGoal + 1) % livenessGuarantees.size();
+            while (nextGoal!=livenessGoal) {
+                allowed |= remaining & !livenessGuarantees[nextGoal] & positionsWinningForTheGoals[nextGoal].SwapVariables(varVectorPre,varVectorPost);
+                remaining &= livenessGuarantees[nextGoal];
+                nextGoal = (nextGoal + 1) % livenessGuarantees.size();
+            }
+            allowed |= remaining & positionsWinningForTheGoals[livenessGoal].SwapVariables(varVectorPre,varVectorPost);
+            goalSwitchingIsFine.push_back(allowed);
+        }
+        for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+            it->second &= goalSwitchingIsFine[it->first];
+        }
 
     }
 
-- 
2.43.0


From 6082fdbd030449cfa13a175ecee41922a5f82e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 14/23] fix: reject malformed memory operators in Boolean
 formulas instead of reading outside the memory

'$ 0' returned an element before the start of an empty vector, '? i' on an
element that is not stored yet used an uninitialised BDD, a huge or negative
element count ended the program with bad_alloc, and a number glued to other
characters (such as '1x') was accepted. All are reported as parse errors now.
---
 src/extensionNondeterministicMotion.hpp | 9 +++++----
 src/synthesisContextBasics.cpp          | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..99d324a 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -70,14 +70,15 @@ public:
         if (operation=="$") {
             unsigned nofElements;
             is >> nofElements;
-            if (is.fail()) {
+            if (is.fail() || !(is.eof() || isspace(is.peek())) || nofElements==0) {
                 SlugsException e(false);
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            // Elements are only stored after they have been read, so that recalling them earlier is detected
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs));
             }
             return memoryNew[nofElements-1];
         }
@@ -86,7 +87,7 @@ public:
         if (operation=="?") {
             unsigned int element;
             is >> element;
-            if (is.fail()) {
+            if (is.fail() || !(is.eof() || isspace(is.peek()))) {
                 SlugsException e(false);
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number after memory recall operator '?'.";
                 throw e;
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..d71d50b 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -38,14 +38,15 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
     if (operation=="$") {
         unsigned nofElements;
         is >> nofElements;
-        if (is.fail()) {
+        if (is.fail() || !(is.eof() || isspace(is.peek())) || nofElements==0) {
             SlugsException e(false);
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        // Elements are only stored after they have been read, so that recalling them earlier is detected
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(parseBooleanFormulaRecurse(is,allowedTypes,memoryNew));
         }
         return memoryNew[nofElements-1];
     }
@@ -54,7 +55,7 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
     if (operation=="?") {
         unsigned int element;
         is >> element;
-        if (is.fail()) {
+        if (is.fail() || !(is.eof() || isspace(is.peek()))) {
             SlugsException e(false);
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number after memory recall operator '?'.";
             throw e;
-- 
2.43.0


From 0c46b2fd0342b275a716cbb42d2f3f65b813ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 15/23] fix: quantify the next values of the other outputs in
 the motion game's realizability check

---
 src/extensionNondeterministicMotion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 99d324a..1fc4f9b 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -36,6 +36,7 @@ protected:
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
     SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostOtherOutput{PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
@@ -411,7 +412,7 @@ public:
                             //BF_newDumpDot(*this,foundPaths,NULL,"/tmp/foundPathsPostRobot.dot");
 
                             // Update the inner-most fixed point with the result of applying the enforcable predecessor operator
-                            nu0.update(safetyEnv.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).UnivAbstract(varCubePostInput));
+                            nu0.update(safetyEnv.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).ExistAbstract(varCubePostOtherOutput).UnivAbstract(varCubePostInput));
                         }
 
                         // Update the set of positions that are winning for some liveness assumption
-- 
2.43.0


From e771e5edd3f3a0ba9ee4248e03b45725d64a4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 16/23] fix: advance the goal counters of XSTRATEGYTRANSITION
 when the goal is exactly the transition set

---
 src/extensionInteractiveStrategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..ac77881 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -1052,8 +1052,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From 5e620e83b69c46896c074831c07627a64846446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 17/23] fix: XGETINIT resets the current liveness guarantee to
 the one it announces

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index ac77881..eaeb516 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -584,6 +584,7 @@ public:
                 }
                 std::cout << ",0" << std::endl; // Flushes, too.
                 currentPosition = initialPosition;
+                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From f1bbe7867346840cd3ab7571fd0f73f34a76e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 18/23] fix: CHECKTRANS and MOVE index the positional
 strategies within bounds on unrealizable specifications

---
 src/extensionInteractiveStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index eaeb516..f0116f5 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -260,7 +260,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -307,7 +307,7 @@ public:
                     std::cin >> guarantee;
                     if (std::cin.fail()) {
                         std::cout << "    -> Error reading value. Aborting \n";
-                    } else if (guarantee>=livenessGuarantees.size()) {
+                    } else if ((guarantee>=livenessGuarantees.size()) || (guarantee>=positionalStrategiesForTheIndividualGoals.size())) {
                         std::cout << "    -> Number too large. Aborting \n";
                     } else {
 
@@ -399,7 +399,7 @@ public:
                                 // Analyse if it is part of a possible strategy
                                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                                 foundOne = false;
-                                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                                     if (!(positionalStrategiesForTheIndividualGoals[i] & transition).isFalse()) {
                                         if (foundOne) std::cout << ", ";
                                         foundOne = true;
-- 
2.43.0


From 8762066b3bd8aac2dbbf8c76251f0c6a86f015f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 19/23] fix: MOVE uses the value 1 it announces for values
 other than 0 and 1

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index f0116f5..cedb524 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -339,6 +339,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
-- 
2.43.0


From 87c35a8a089ce7ef6f99e61813103c159d097edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 20/23] fix: translate the documented xor operator in
 structured specifications

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..4cef0b2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -412,6 +412,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From 014f5ca82898d1b9e032031833f7adfe92f71d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 21/23] fix: st_delete on a table with the reorder flag left
 the deleted entry in its chain

FIND_ENTRY moves the entry it finds to the front of the collision list but left
'last' pointing at the link of the old predecessor; st_delete then unlinked there
and freed an entry that the bin still pointed to.
---
 lib/cudd-3.0.0/st/st.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cudd-3.0.0/st/st.c b/lib/cudd-3.0.0/st/st.c
index 004c44c..d441693 100644
--- a/lib/cudd-3.0.0/st/st.c
+++ b/lib/cudd-3.0.0/st/st.c
@@ -199,6 +199,7 @@ struct st_generator {
 	*(last) = (ptr)->next;\
 	(ptr)->next = (table)->bins[hash_val];\
 	(table)->bins[hash_val] = (ptr);\
+	(last) = &(table)->bins[hash_val];\
     }
 
 /**
-- 
2.43.0


From 6bd671b0463b25ec6f1ce6f907ccf3a43d2e4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 22/23] fix: st_strhash overflowed a signed int and returned a
 negative bin for some strings

The hash of a string is the absolute value of a product that wraps; for 0x80000000
the absolute value is negative, and so is the bin.
---
 lib/cudd-3.0.0/st/st.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/st/st.c b/lib/cudd-3.0.0/st/st.c
index d441693..d152e8e 100644
--- a/lib/cudd-3.0.0/st/st.c
+++ b/lib/cudd-3.0.0/st/st.c
@@ -65,6 +65,7 @@
 
 */
 
+#include <limits.h>
 #include "util.h"
 #include "st.h"
 
@@ -916,15 +917,16 @@ st_foreach(st_table *table, st_foreach_t func, void *arg)
 int
 st_strhash(void const *string, int modulus)
 {
-    int val = 0;
+    unsigned int val = 0;
     int c;
     char const * s = (char const *) string;
     
     while ((c = *s++) != '\0') {
-	val = val*997 + c;
+	val = val*997u + (unsigned int) c;
     }
 
-    return ((val < 0) ? -val : val)%modulus;
+    if (val > (unsigned int) INT_MAX) val = 0u - val;
+    return (int) (val % (unsigned int) modulus);
 
 } /* st_strhash */
 
-- 
2.43.0


From 4cda586703c6fa28a0bafc45eb3459292ae18766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 23/23] fix: subtracting an infinite extended double gave the
 wrong infinity

EpdSubtract and EpdSubtract2 returned the subtrahend itself (x - inf = inf), and
EpdSubtract3 had the two cases of infinite operands exchanged (inf - inf = inf,
inf - -inf = NaN).
---
 lib/cudd-3.0.0/epd/epd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 7bfa907..0dafe24 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -606,7 +606,8 @@ EpdSubtract(EpDouble *epd1, double value)
       if (sign == 0)
 	EpdMakeNan(epd1);
     } else if (EpdIsInf(&epd2)) {
-      EpdCopy(&epd2, epd1);
+      sign = epd2.type.bits.sign ^ 0x1;
+      EpdMakeInf(epd1, sign);
     }
     return;
   }
@@ -658,7 +659,8 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
       if (sign == 0)
 	EpdMakeNan(epd1);
     } else if (EpdIsInf(epd2)) {
-      EpdCopy(epd2, epd1);
+      sign = epd2->type.bits.sign ^ 0x1;
+      EpdMakeInf(epd1, sign);
     }
     return;
   }
@@ -709,7 +711,7 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
 
     if (EpdIsInf(epd1) && EpdIsInf(epd2)) {
       sign = epd1->type.bits.sign ^ epd2->type.bits.sign;
-      if (sign == 0)
+      if (sign == 1)
 	EpdCopy(epd1, epd3);
       else
 	EpdMakeNan(epd3);
-- 
2.43.0

