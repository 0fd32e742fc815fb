From 8d365d794969e22e6b3b3b82ebbee99dfcb66bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 01/68] fix: sawtooth upper bound keeps the better of old and
 new values

A backup at a corner of the belief simplex overwrote the corner value even
when the backed-up value was worse (the FIB initialization is not uniformly
improvable through the sawtooth interpolation), so the upper bound could rise
during planning.
---
 src/pomdpBounds/SawtoothUpperBound.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..0c66bbe 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -75,7 +75,10 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
   double newUBVal = getNewUBValue(cn, maxUBActionP);
-  setUBForNode(cn, newUBVal, true);
+  // the sawtooth interpolation of the initial FIB bound is not uniformly
+  // improvable, so a backup can produce a value that is worse than the
+  // current one.  keep the better of the two.
+  setUBForNode(cn, std::min(cn.ubVal, newUBVal), true);
 }
 
 // returns the upper bound that the (belief,value) pair c induces on b.
@@ -280,7 +283,7 @@ void SawtoothUpperBound::addPoint(BVPair *bv) {
     }
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = bv->v;
+    cornerPts(wc) = std::min(cornerPts(wc), bv->v);
     delete bv;
   }
 }
@@ -297,7 +300,7 @@ void SawtoothUpperBound::addPoint(const belief_vector &b, double val) {
 
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = val;
+    cornerPts(wc) = std::min(cornerPts(wc), val);
   }
 }
 
-- 
2.43.0


From 76bca3b563b70d90807a1f252b3555cee26669e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 02/68] fix: a random draw never selects an outcome of
 probability zero

A draw of exactly 0 selected the first entry even if its probability is 0,
and round-off at the top of the range fell back to index 0.
---
 src/common/MatrixUtils.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..dff5a02 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -159,7 +159,10 @@ inline int argmax_elt(const cvector &v) {
 // Chooses an outcome according to the distribution.
 inline int chooseFromDistribution(const dvector &b) {
   double r = unit_rand();
+  int last = 0;
   FOR(i, b.size()) {
+    if (b(i) <= 0) continue;  // never choose an impossible outcome
+    last = i;
     r -= b(i);
     if (r <= 0) return i;
   }
@@ -170,12 +173,15 @@ inline int chooseFromDistribution(const dvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline int chooseFromDistribution(const cvector &b) {
   double r = unit_rand();
+  int last = 0;
   FOR_CV(b) {
+    if (CV_VAL(b) <= 0) continue;  // never choose an impossible outcome
+    last = CV_INDEX(b);
     r -= CV_VAL(b);
     if (r <= 0) return CV_INDEX(b);
   }
@@ -186,7 +192,7 @@ inline int chooseFromDistribution(const cvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline const char *hashable(const dvector &b) {
-- 
2.43.0


From 1549e5b057c7274f618ad68ae687cd3965a9cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 03/68] fix: sampled outcome falls back to a possible outcome
 on round-off

When the outcome probabilities sum to slightly less than the draw, outcome 0
was returned even if it is impossible (a NULL edge).
---
 src/bounds/BoundPairCore.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bounds/BoundPairCore.cc b/src/bounds/BoundPairCore.cc
index 9fcf7e0..5ee8f24 100644
--- a/src/bounds/BoundPairCore.cc
+++ b/src/bounds/BoundPairCore.cc
@@ -67,11 +67,9 @@ int BoundPairCore::getSimulatedOutcome(MDPNode &cn, int a) {
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
+      result = o;  // round-off falls back to the last possible outcome
       r -= e->obsProb;
-      if (r <= 0) {
-        result = o;
-        break;
-      }
+      if (r <= 0) break;
     }
   }
 
-- 
2.43.0


From df443bcaf4bb2495fdeddef7d6aa4cff177bc4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 04/68] fix: perform the requested number of evaluation trials

trials / 30 * 30 trials were performed (990 of the default 1000).
---
 src/exec/PolicyEvaluator.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 83ffa45..b08276c 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -93,18 +93,20 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   // parameter 30 is arbitrary, trying to guarantee valid statistics
   int numBatches = std::min(evaluationTrialsPerEpoch, 30);
-  int numTrialsPerBatch = evaluationTrialsPerEpoch / numBatches;
 
   rewards.resize(numBatches);
   double successRateSum = 0.0;
   int startTrialIndex = 0;
   for (int i = 0; i < numBatches; i++) {
+    // spread the trials over the batches so that all of them are performed
+    int numTrialsPerBatch = evaluationTrialsPerEpoch / numBatches +
+                            ((i < evaluationTrialsPerEpoch % numBatches) ? 1 : 0);
     dvector batchRewards;
     double batchSuccessRate;
     doBatch(batchRewards, batchSuccessRate, numTrialsPerBatch,
             std::max(0, simulationTracesToLogPerEpoch - startTrialIndex));
     rewards(i) = sum(batchRewards) / numTrialsPerBatch;
-    successRateSum += batchSuccessRate;
+    successRateSum += batchSuccessRate * numTrialsPerBatch;
     startTrialIndex += numTrialsPerBatch;
   }
   printf("\n");
@@ -115,7 +117,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   }
   printf("\n");
 
-  successRate = successRateSum / numBatches;
+  successRate = successRateSum / evaluationTrialsPerEpoch;
 
   // cleanup
 #define DELETE_AND_NULL(x) \
-- 
2.43.0


From 1501ddac5493f7a1a5693130d02b3eebc8c42d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 05/68] fix: bootstrap resampling stays inside the sample when
 a draw is 1

---
 src/common/MatrixUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index dff5a02..0f66b54 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -282,7 +282,8 @@ inline void calc_bootstrap_mean_quantile(const dvector &vals, double alpha,
   for (int i = 0; i < numBootstrapSamples; i++) {
     sum = 0.0;
     for (int j = 0; j < n; j++) {
-      int k = static_cast<int>(unit_rand() * n);
+      // unit_rand() can return exactly 1
+      int k = std::min(static_cast<int>(unit_rand() * n), n - 1);
       sum += vals(k);
     }
     bvals(i) = sum / n;
-- 
2.43.0


From 382697e8e43f52dc70fe28a3ce3e175e6a567eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 06/68] fix: alpha vector reader does not invent a plane at the
 end of the file

White space after the last vector made the loop run once more with failed
reads, adding a plane whose entries all equal the last value read.  Check
every read, and refuse a file that is truncated or not a list of vectors.
---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..ada4ff7 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -691,16 +691,24 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  while (inFile >> plane.action) {
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-      inFile >> val;
+      if (!(inFile >> val)) {
+        cerr << "ERROR: " << inFileName << ": expected " << pomdp->numStates
+             << " entries in each alpha vector" << endl;
+        exit(EXIT_FAILURE);
+      }
       plane.alpha.push_back(i, val);
     }
     addLBPlane(new LBPlane(plane));
   }
+  if (!inFile.eof() || planes.empty()) {
+    cerr << "ERROR: " << inFileName << ": expected a list of alpha vectors"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
 
   inFile.close();
 
-- 
2.43.0


From 8f1c32522d1dd68ec3d232d09598f68613333773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 07/68] fix: masked planes read from a policy file are always
 applied masked

With --useMaxPlanesMasking 0 the missing entries of a plane were taken to be
zero, so that the policy promised more than it earns.
---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index ada4ff7..3a50fa0 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -668,6 +668,14 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
 
   inFile.close();
 
+  // planes without an entry for every state can only be applied to beliefs
+  // that match their entries
+  FOR_EACH(planeP, planes) {
+    if (static_cast<int>((*planeP)->mask.filled()) < pomdp->numStates) {
+      useMaxPlanesMasking = true;
+    }
+  }
+
   // the set of planes should have been pruned before it was written out
   lastPruneNumPlanes = planes.size();
   lastPruneNumBackups = -1;
-- 
2.43.0


From 7f79c8c7bf0879f5159ddbe29396b8d28cad1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 08/68] fix: refuse a policy file that does not fit the model

Action numbers and entry indices were not checked (memory corruption for an
index beyond the number of states), nor was the presence of any plane.
---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 29 ++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 3a50fa0..2fb8832 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -585,6 +585,7 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
   std::string s;
   LBPlane plane;
   int entryIndex;
+  int lastEntryIndex = -1;
   double entryVal;
   int parseState = 0;
   int lnum = 0;
@@ -627,7 +628,16 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
         /* at the start of a plane, read the action */
         if (string::npos != s.find("action") &&
             (1 == sscanf(s.c_str(), "action => %d", &plane.action))) {
+          if (plane.action < 0 || plane.action >= pomdp->getNumActions()) {
+            fprintf(stderr,
+                    "ERROR: %s: line %d: action %d out of range for a model "
+                    "with %d actions\n",
+                    inFileName.c_str(), lnum, plane.action,
+                    pomdp->getNumActions());
+            exit(EXIT_FAILURE);
+          }
           plane.alpha.resize(pomdp->numStates);
+          lastEntryIndex = -1;
           parseState = 2;
         } else {
           fprintf(stderr, "ERROR: %s: line %d: expected 'action => <int>'\n",
@@ -646,6 +656,15 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
           goto parseLineAgain;
         } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal)) {
           /* push another entry into the plane */
+          if (entryIndex < lastEntryIndex + 1 ||
+              entryIndex >= pomdp->numStates) {
+            fprintf(stderr,
+                    "ERROR: %s: line %d: entry index %d out of order or out of "
+                    "range for a model with %d states\n",
+                    inFileName.c_str(), lnum, entryIndex, pomdp->numStates);
+            exit(EXIT_FAILURE);
+          }
+          lastEntryIndex = entryIndex;
           plane.alpha.push_back(entryIndex, entryVal);
         } else {
           printf("s=[%s]\n", s.c_str());
@@ -665,6 +684,10 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     mask_set_to_one(plane.mask, plane.alpha);
     addLBPlane(new LBPlane(plane));
   }
+  if (planes.empty()) {
+    fprintf(stderr, "ERROR: %s: no planes found\n", inFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 
   inFile.close();
 
@@ -700,6 +723,12 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   plane.numBackupsAtCreation = -1;
 
   while (inFile >> plane.action) {
+    if (plane.action < 0 || plane.action >= pomdp->getNumActions()) {
+      cerr << "ERROR: " << inFileName << ": action " << plane.action
+           << " out of range for a model with " << pomdp->getNumActions()
+           << " actions" << endl;
+      exit(EXIT_FAILURE);
+    }
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-- 
2.43.0


From 4af53652699141358a725f3be07d110545dba166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 09/68] fix: a logged state with no entries is the zero vector

---
 src/common/MatrixUtils.h | 1 +
 src/search/StateLog.cc   | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index 0f66b54..cd5ec56 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -223,6 +223,7 @@ inline const char *hashable(const cvector &b) {
   }
 
   char *pos = buf;
+  buf[0] = '\0';  // in case there are no entries
   FOR_CV(b) {
     pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
                     CV_VAL(b));
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index cd31ca8..5f07483 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -120,6 +120,7 @@ void StateIndex::readFromFile(const std::string &inFile) {
   state_vector accum(numStateDimensions);
   int id;
   double val;
+  bool inState = false;
   int lnum = 0;
   while (!in.eof()) {
     in.getline(buf, sizeof(buf));
@@ -131,11 +132,13 @@ void StateIndex::readFromFile(const std::string &inFile) {
     if ('#' == s[0]) continue;
 
     if (string::npos != s.find("state")) {
-      if (accum.filled() > 0) {
+      // a state with no entries listed is the zero vector
+      if (inState) {
         accum.canonicalize();
         getStateId(accum);
         accum.clear();
       }
+      inState = true;
     } else {
       if (2 != sscanf(s.c_str(), "%d %lf", &id, &val)) {
         fprintf(stderr,
@@ -148,7 +151,7 @@ void StateIndex::readFromFile(const std::string &inFile) {
   }
 
   // fold in last state
-  if (accum.filled() > 0) {
+  if (inState) {
     accum.canonicalize();
     getStateId(accum);
     accum.clear();
-- 
2.43.0


From 5e18d272ff56b891a995b0de8785a12538432a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 10/68] fix: 'values: cost' models are planned with costs as
 negative rewards

---
 src/parsers/mdp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/mdp.c b/src/parsers/mdp.c
index 1ed0d3d..87c4706 100644
--- a/src/parsers/mdp.c
+++ b/src/parsers/mdp.c
@@ -330,6 +330,9 @@ void computeRewards() {
 
       } /* for j */
 
+      /* costs are negative rewards */
+      if (gValueType == COST_value_type) sum = -sum;
+
       addEntryToIMatrix(IQ, a, i, sum);
 
     } /* for i */
-- 
2.43.0


From ae958e8287e59aecd47ef978d5526bdd2d621a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 11/68] fix: zero entries of a reward matrix override earlier
 rewards

---
 src/parsers/imm-reward.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index fbd6af2..451e50c 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -295,6 +295,10 @@ void irAddToDecisionTree(Imm_Reward_List node) {
       break;
 
     case ir_matrix:
+      /* the sparse matrix does not store the entries that are zero, but
+         they override earlier values too */
+      i = (node->cur_state == NOT_PRESENT) ? WILDCARD_SPEC : node->cur_state;
+      dtAdd(node->action, i, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
       m = node->rep.matrix;
       for (i = 0; i < m->num_rows; i++) {
         for (j = 0; j < m->row_length[i]; j++) {
-- 
2.43.0


From ea102050132583acfc3c06ff34a448019b53b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 12/68] fix: a model without R statements has zero rewards

---
 src/parsers/imm-reward.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index 451e50c..43e2355 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -348,6 +348,9 @@ void doneImmReward() {
 /**********************************************************************/
 double getImmediateReward(int action, int cur_state, int next_state, int obs) {
 #if USE_DECISION_TREE
+  /* all rewards are zero if the model had no R statements (ok to call dtInit()
+   * more than once) */
+  dtInit(gNumActions, gNumStates, gNumObservations);
   return dtGet(action, cur_state, next_state, obs);
 #else
   Imm_Reward_List temp = gImmRewardList;
-- 
2.43.0


From 2e893636fc53a3143fa6cdba7aaba52b9c0907aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 13/68] fix: 'reset' replaces the whole transition row in an
 MDP

---
 src/parsers/pomdp_spec.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 367ff22..dae2f49 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,7 +972,8 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
+        for (j = 0; j < gNumStates; j++)
+          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From 0557a4cc757906f7f2cd8b4f9872a9f869e09c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 14/68] fix: '*' in a start state list means every state

---
 src/parsers/pomdp_spec.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index dae2f49..9d83726 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1353,6 +1353,13 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
+  if (i == WILDCARD_SPEC) {
+    /* '*' stands for every state */
+    for (i = 0; i < gNumStates; i++)
+      enterStartState(i);
+    return;
+  }
+
   switch (curMatrixContext) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
-- 
2.43.0


From 5398c290bc117cd29f17e2e7bc026fc869dcdc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 15/68] fix: integers too large for an int are not wrapped
 around in model files

---
 src/parsers/pomdp_spec.l | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsers/pomdp_spec.l b/src/parsers/pomdp_spec.l
index 45cce28..ee00134 100644
--- a/src/parsers/pomdp_spec.l
+++ b/src/parsers/pomdp_spec.l
@@ -29,6 +29,7 @@
 
 #include <stdio.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -161,6 +162,11 @@ UnsignedReal	({Digit}+({RealOpt1}|{RealOpt2}))
 
 %%
 {IntLiteral} 			{
+                                          if (atof(yytext) > INT_MAX) {
+                                            /* too large to be an int */
+                                            FloatToYylval();
+                                            return (FLOATTOK);
+                                          }
                                           IntToYylval();
                                           return (INTTOK);  /* Integer Literal */
 					}   
-- 
2.43.0


From ebd77a9bb143c493a515fe13c48b4d9f952fa4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 16/68] fix: fast reader refuses a file with an incomplete
 preamble

---
 src/parsers/FastParser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..8919808 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -201,6 +201,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
   }
 
         FP_CHECK_SET(discountSet, "discount");
@@ -277,6 +278,12 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     lineNumber++;
   }
 
+  if (inPreamble) {
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+         << ": reached end of file while still parsing preamble" << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // post-process
   copy(p.R, Rx);
   Rx.clear();
-- 
2.43.0


From 9b80b0501a5bae21d55d00181b761211ec784136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 17/68] fix: fast reader refuses counts, indices and values
 that are out of range

---
 src/parsers/FastParser.cc | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 8919808..2f6df6d 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -137,7 +137,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
     if (inPreamble) {
       if (PM_PREFIX_MATCHES("discount:")) {
-        if (1 != sscanf(buf, "discount: %lf", &p.discount)) {
+        if (1 != sscanf(buf, "discount: %lf", &p.discount) ||
+            !(p.discount >= 0.0 && p.discount <= 1.0)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'discount' statement" << endl;
           exit(EXIT_FAILURE);
@@ -158,7 +159,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions)) {
+        if (1 != sscanf(buf, "actions: %d", &p.numActions) || p.numActions < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -166,7 +167,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations)) {
+          if (1 != sscanf(buf, "observations: %d", &p.numObservations) || p.numObservations < 1) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -178,7 +179,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates)) {
+        if (1 != sscanf(buf, "states: %d", &p.numStates) || p.numStates < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -233,6 +234,19 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       }
     }
 
+#define FP_CHECK_INDEX(VAR, SIZE, NAME)                                    \
+  if ((VAR) < 0 || (VAR) >= (SIZE)) {                                      \
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber << ": "     \
+         << (NAME) << " index " << (VAR) << " out of range" << endl;       \
+    exit(EXIT_FAILURE);                                                    \
+  }
+#define FP_CHECK_PROB(VAR)                                                 \
+  if (!((VAR) >= 0.0 && (VAR) <= 1.0 + POMDP_READ_ERROR_EPS)) {            \
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber             \
+         << ": probability " << (VAR) << " out of range" << endl;          \
+    exit(EXIT_FAILURE);                                                    \
+  }
+
     if (!inPreamble) {
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
@@ -243,6 +257,13 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                << "  (expected format is '" << rFormat << "')" << endl;
           exit(EXIT_FAILURE);
         }
+        FP_CHECK_INDEX(a, p.numActions, "action");
+        FP_CHECK_INDEX(s, p.numStates, "state");
+        if (!(fabs(reward) < HUGE_VAL)) {
+          cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+               << ": reward is not a finite number" << endl;
+          exit(EXIT_FAILURE);
+        }
         kmatrix_set_entry(Rx, s, a, reward);
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
@@ -252,6 +273,10 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
         }
+        FP_CHECK_INDEX(a, p.numActions, "action");
+        FP_CHECK_INDEX(s, p.numStates, "state");
+        FP_CHECK_INDEX(sp, p.numStates, "state");
+        FP_CHECK_PROB(prob);
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
@@ -262,6 +287,10 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
           }
+          FP_CHECK_INDEX(a, p.numActions, "action");
+          FP_CHECK_INDEX(s, p.numStates, "state");
+          FP_CHECK_INDEX(o, p.numObservations, "observation");
+          FP_CHECK_PROB(prob);
           kmatrix_set_entry(Ox[a], s, o, prob);
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-- 
2.43.0


From ae0c9296e2a207fbb8d83478a96ed85a9c2e9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 18/68] fix: fast reader wants the start vector to be as long
 as the state set

---
 src/parsers/FastParser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 2f6df6d..d56d11c 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -185,6 +185,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
         numStatesSet = true;
+        // any start statement read so far was for another number of states
+        startSet = false;
       } else if (PM_PREFIX_MATCHES("start:")) {
         if (!numStatesSet) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-- 
2.43.0


From ebd6ab6e2d69143dca104f6dcdef97d69c6b51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 19/68] fix: fast reader handles every form of start statement
 it documents

---
 src/parsers/FastParser.cc | 85 +++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 48 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index d56d11c..8424c16 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -400,70 +400,59 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
   if (expectPomdp) {
     // POMDP case
 
-    int i;
-    char *tok, *saveptr = NULL;
-    double val;
+    const char *pos = data + strlen("start:");
+    std::vector<double> vals;
+    for (;;) {
+      char *end;
+      double val = strtod(pos, &end);
+      if (end == pos) break;
+      vals.push_back(val);
+      pos = end;
+    }
+    while (isspace(*pos)) pos++;
 
     p.initialBelief.resize(p.numStates);
 
-    // consume 'start:' token at the beginning of the statement
-    tok = strtok_r(data, " ", &saveptr);
-
-    for (i = 0; i < p.numStates; i++) {
-      if (NULL != tok) {
-        tok = strtok_r(NULL, " ", &saveptr);
-      }
-      if (NULL == tok) {
-        if (0 == i) {
-          double startState = atof(tok);
-          if (startState != floor(startState)) {
-            cout << "ERROR: " << p.fileName
-                 << ": POMDP 'start' statement must either contain a single "
-                    "integer "
-                 << "specifying a known start state or a list of the initial "
-                    "probabilities of "
-                 << "all states" << endl;
-            exit(EXIT_FAILURE);
-          }
-          p.initialBelief.push_back(static_cast<int>(startState), 1.0);
-          return;
-        } else {
-          cout << "ERROR: " << p.fileName
-               << ": POMDP 'start' statement must either contain a single "
-                  "integer "
-               << "specifying a known start state or a list of the initial "
-                  "probabilities of "
-               << "all states" << endl;
+    if ('\0' == *pos && vals.size() == (size_t)p.numStates) {
+      FOR(i, p.numStates) {
+        if (!(vals[i] >= 0.0 && vals[i] <= 1.0 + POMDP_READ_ERROR_EPS)) {
+          cerr << "ERROR: " << p.fileName
+               << ": POMDP 'start' statement contains probability " << vals[i]
+               << ", which is out of range" << endl;
           exit(EXIT_FAILURE);
         }
+        if (vals[i] > SPARSE_EPS) {
+          p.initialBelief.push_back(i, vals[i]);
+        }
       }
-
-      val = atof(tok);
-      if (val > SPARSE_EPS) {
-        p.initialBelief.push_back(i, val);
-      }
+    } else if ('\0' == *pos && vals.size() == 1 && vals[0] >= 0.0 &&
+               vals[0] < p.numStates && vals[0] == floor(vals[0])) {
+      p.initialBelief.push_back(static_cast<int>(vals[0]), 1.0);
+    } else {
+      cerr << "ERROR: " << p.fileName
+           << ": POMDP 'start' statement must either contain a single "
+              "integer "
+           << "specifying a known start state or a list of the initial "
+              "probabilities of "
+           << "all states" << endl;
+      exit(EXIT_FAILURE);
     }
   } else {
     // MDP case
 
-    double x, y;
-    int ret = sscanf(data, "start: %lf %lf", &x, &y);
-    if ((ret != 1) || (x != floor(x))) {
-      cout << "ERROR: " << p.fileName
+    double x;
+    int n = 0;
+    int ret = sscanf(data, "start: %lf %n", &x, &n);
+    if ((ret != 1) || (data[n] != '\0') || (x != floor(x)) || !(x >= 0.0) ||
+        !(x < p.numStates)) {
+      cerr << "ERROR: " << p.fileName
            << ": MDP 'start' statement must contain a single integer "
            << "specifying a known start state" << endl;
       exit(EXIT_FAILURE);
     }
 
     p.initialState.resize(1);
-    int startState;
-    if (1 != sscanf(data, "start: %d", &startState)) {
-      cout << "ERROR: " << p.fileName
-           << ": MDP 'start' statement must contain a single integer "
-           << "specifying a known start state" << endl;
-      exit(EXIT_FAILURE);
-    }
-    p.initialState.push_back(0, startState);
+    p.initialState.push_back(0, static_cast<int>(x));
   }
 }
 
-- 
2.43.0


From e26f40da5b2a0f9063b15ca97854997b6a3a91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 20/68] fix: fast reader refuses text it would have skipped at
 the end of a statement

---
 src/parsers/FastParser.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 8424c16..8c62446 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -105,6 +105,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   int lineNumber;
   char sbuf[512];
   bool inPreamble = true;
+  int used = 0;  // characters of the line a statement took up
 
   kmatrix Rx;
   std::vector<kmatrix> Tx, Ox;
@@ -117,7 +118,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   bool startSet = false;
 
   const char *rFormat =
-      (expectPomdp ? "R: %d : %d : * : * %lf" : "R: %d : %d : * %lf");
+      (expectPomdp ? "R: %d : %d : * : * %lf %n" : "R: %d : %d : * %lf %n");
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
@@ -131,13 +132,15 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       exit(EXIT_FAILURE);
     }
 
-    if ('#' == buf[0]) continue;
+    // a comment runs to the end of the line
+    char *comment = strchr(buf, '#');
+    if (NULL != comment) *comment = '\0';
     trimTrailingWhiteSpace(buf);
     if ('\0' == buf[0]) continue;
 
     if (inPreamble) {
       if (PM_PREFIX_MATCHES("discount:")) {
-        if (1 != sscanf(buf, "discount: %lf", &p.discount) ||
+        if (1 != sscanf(buf, "discount: %lf %n", &p.discount, &used) || buf[used] ||
             !(p.discount >= 0.0 && p.discount <= 1.0)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'discount' statement" << endl;
@@ -145,7 +148,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         discountSet = true;
       } else if (PM_PREFIX_MATCHES("values:")) {
-        if (1 != sscanf(buf, "values: %s", sbuf)) {
+        if (1 != sscanf(buf, "values: %511s %n", sbuf, &used) || buf[used]) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'values' statement" << endl;
           exit(EXIT_FAILURE);
@@ -159,7 +162,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions) || p.numActions < 1) {
+        if (1 != sscanf(buf, "actions: %d %n", &p.numActions, &used) || buf[used] || p.numActions < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -167,7 +170,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations) || p.numObservations < 1) {
+          if (1 != sscanf(buf, "observations: %d %n", &p.numObservations, &used) || buf[used] || p.numObservations < 1) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -179,7 +182,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates) || p.numStates < 1) {
+        if (1 != sscanf(buf, "states: %d %n", &p.numStates, &used) || buf[used] || p.numStates < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -253,7 +256,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
         double reward;
-        if (3 != sscanf(buf, rFormat, &a, &s, &reward)) {
+        if (3 != sscanf(buf, rFormat, &a, &s, &reward, &used) || buf[used]) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in R statement\n"
                << "  (expected format is '" << rFormat << "')" << endl;
@@ -270,7 +273,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob)) {
+        if (4 != sscanf(buf, "T: %d : %d : %d %lf %n", &a, &s, &sp, &prob, &used) ||
+            buf[used]) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
@@ -284,7 +288,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob)) {
+          if (4 != sscanf(buf, "O: %d : %d : %d %lf %n", &a, &s, &o, &prob, &used) ||
+              buf[used]) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
-- 
2.43.0


From 99792bd2a4c17ad5b6db17946f9d9b817e18a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 21/68] fix: refuse an MDP where a POMDP is expected and vice
 versa

---
 src/parsers/CassandraParser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 3c99c76..572ec84 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -71,6 +71,14 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     exit(EXIT_FAILURE);
   }
 
+  if ((POMDP_problem_type == CASSANDRA_GLOBAL(gProblemType)) != expectPomdp) {
+    cerr << "ERROR: " << p.fileName << ": expected "
+         << (expectPomdp ? "a POMDP, but the model has no observations"
+                         : "an MDP, but the model has observations")
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
   p.discount = CASSANDRA_GLOBAL(gDiscount);
-- 
2.43.0


From 0170f090c251ccd50b39d3000403ab611fac8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 22/68] fix: refuse an MDP without a valid start state

---
 src/parsers/CassandraParser.cc | 7 +++++++
 src/parsers/mdp.c              | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 572ec84..eecbde2 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -122,6 +122,13 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     }
     copy(p.initialBelief, initialBeliefD);
   } else {
+    if (CASSANDRA_GLOBAL(gInitialState) < 0 ||
+        CASSANDRA_GLOBAL(gInitialState) >= p.numStates) {
+      cerr << "ERROR: " << p.fileName
+           << ": MDP 'start' statement is missing or not a valid state" << endl;
+      exit(EXIT_FAILURE);
+    }
+
     // convert initialState to sla format
     p.initialState.resize(1);
     p.initialState.push_back(0, CASSANDRA_GLOBAL(gInitialState));
diff --git a/src/parsers/mdp.c b/src/parsers/mdp.c
index 87c4706..d3470f1 100644
--- a/src/parsers/mdp.c
+++ b/src/parsers/mdp.c
@@ -479,6 +479,9 @@ void deallocateMDP() {
   destroyMatrix(Q);
 
   destroyImmRewards();
+
+  /* the next model has to say where it starts */
+  gInitialState = INVALID_STATE;
 } /* deallocateMDP */
 /**********************************************************************/
 void displayMDPSlice(int state) {
-- 
2.43.0


From ddc279259032a001e37af1ac7800e4c4de851932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 23/68] fix: refuse numbers that overflow in a model file

---
 src/parsers/pomdp_spec.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 9d83726..ecc6630 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -24,6 +24,7 @@
 
 */
 
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -746,6 +747,9 @@ number          : optional_sign INTTOK
                       $$ = $2->theValue.theFloat * -1.0;
                    else
                       $$ = $2->theValue.theFloat;
+		   if (isinf($2->theValue.theFloat))
+		     ERR_enter("Parser<ytab>:", currentLineNumber,
+                               PARSE_ERR, " (number too large)");
                    free($2);
                 }
 ;
-- 
2.43.0


From 4bffb6106e69d556a19f0287d8e0a18bb7a44855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 24/68] fix: fast reader does not split one number into an
 index and a probability

---
 src/parsers/FastParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 8c62446..39134ac 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -273,7 +273,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf %n", &a, &s, &sp, &prob, &used) ||
+        if (4 != sscanf(buf, "T: %d : %d : %d%*[ \t]%lf %n", &a, &s, &sp, &prob, &used) ||
             buf[used]) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
@@ -288,7 +288,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf %n", &a, &s, &o, &prob, &used) ||
+          if (4 != sscanf(buf, "O: %d : %d : %d%*[ \t]%lf %n", &a, &s, &o, &prob, &used) ||
               buf[used]) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
-- 
2.43.0


From 8316409a047b3ae2ddbdb913e8c15158a3557915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 25/68] Revert "fix: refuse numbers that overflow in a model
 file"

This reverts commit ddc279259032a001e37af1ac7800e4c4de851932.
---
 src/parsers/pomdp_spec.y | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index ecc6630..9d83726 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -24,7 +24,6 @@
 
 */
 
-#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -747,9 +746,6 @@ number          : optional_sign INTTOK
                       $$ = $2->theValue.theFloat * -1.0;
                    else
                       $$ = $2->theValue.theFloat;
-		   if (isinf($2->theValue.theFloat))
-		     ERR_enter("Parser<ytab>:", currentLineNumber,
-                               PARSE_ERR, " (number too large)");
                    free($2);
                 }
 ;
-- 
2.43.0


From 6a9813fa26a137dd4aa56e0e86be7913d655055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 26/68] Revert "fix: integers too large for an int are not
 wrapped around in model files"

This reverts commit 5398c290bc117cd29f17e2e7bc026fc869dcdc0b.
---
 src/parsers/pomdp_spec.l | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/parsers/pomdp_spec.l b/src/parsers/pomdp_spec.l
index ee00134..45cce28 100644
--- a/src/parsers/pomdp_spec.l
+++ b/src/parsers/pomdp_spec.l
@@ -29,7 +29,6 @@
 
 #include <stdio.h>
 #include <ctype.h>
-#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -162,11 +161,6 @@ UnsignedReal	({Digit}+({RealOpt1}|{RealOpt2}))
 
 %%
 {IntLiteral} 			{
-                                          if (atof(yytext) > INT_MAX) {
-                                            /* too large to be an int */
-                                            FloatToYylval();
-                                            return (FLOATTOK);
-                                          }
                                           IntToYylval();
                                           return (INTTOK);  /* Integer Literal */
 					}   
-- 
2.43.0


From ab4377435a9a22405f1d6f98cb953a4d086a7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 27/68] Revert "fix: '*' in a start state list means every
 state"

This reverts commit 0557a4cc757906f7f2cd8b4f9872a9f869e09c90.
---
 src/parsers/pomdp_spec.y | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 9d83726..dae2f49 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1353,13 +1353,6 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
-  if (i == WILDCARD_SPEC) {
-    /* '*' stands for every state */
-    for (i = 0; i < gNumStates; i++)
-      enterStartState(i);
-    return;
-  }
-
   switch (curMatrixContext) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
-- 
2.43.0


From 7765efce563de65014b548d7607fb21ab6cbdd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 28/68] Revert "fix: 'reset' replaces the whole transition row
 in an MDP"

This reverts commit 2e893636fc53a3143fa6cdba7aaba52b9c0907aa.
---
 src/parsers/pomdp_spec.y | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index dae2f49..367ff22 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,8 +972,7 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        for (j = 0; j < gNumStates; j++)
-          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
+        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From 990298b90b87a17eb65c09bab3b5e0b588e476fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 29/68] fix: cells off a racetrack map are closed

---
 src/mdps/RaceTrack.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index b72b42a..7c92918 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -130,8 +130,17 @@ struct TrackMap {
 
   TrackMap(void);
   ~TrackMap(void);
-  bool getIsOpen(int x, int y) const { return open[width * y + x]; }
-  bool getIsFinish(int x, int y) const { return finish[width * y + x]; }
+  // cells off the map are closed
+  bool getIsOnMap(int x, int y) const {
+    return x >= 0 && y >= 0 && x < static_cast<int>(width) &&
+           y < static_cast<int>(height);
+  }
+  bool getIsOpen(int x, int y) const {
+    return getIsOnMap(x, y) && open[width * y + x];
+  }
+  bool getIsFinish(int x, int y) const {
+    return getIsOnMap(x, y) && finish[width * y + x];
+  }
   int lineType(int x0, int y0, int dx, int dy) const;
   void readFromFile(const std::string &mapFileName, FILE *mapFile, int lnum);
 };
@@ -207,6 +216,8 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
     lnum++;
     if (0 == strlen(lbuf)) continue;
     if ('#' == lbuf[0]) continue;
+    // the line terminator is not a cell
+    lbuf[strcspn(lbuf, "\r\n")] = '\0';
     if (0 == width) {
       width = strlen(lbuf);
     } else {
-- 
2.43.0


From 78de5b388dcc219cee7c513916d18371371323ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 30/68] fix: refuse a racetrack without map or start cell

---
 src/mdps/RaceTrack.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index 7c92918..7e4a657 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -233,6 +233,11 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
     memcpy(&data[i], lbuf, width);
     i += width;
   }
+  if (0 == width) {
+    fprintf(stderr, "ERROR: %s: spec file contains no map\n",
+            mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
   height = i / width;
 
   unsigned int numPixels = width * height;
@@ -247,6 +252,11 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
       startY.push_back(i / width);
     }
   }
+  if (startX.empty()) {
+    fprintf(stderr, "ERROR: %s: map contains no start cell\n",
+            mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 }
 
 /**********************************************************************
-- 
2.43.0


From 582b1053f94c27f0aca7ed6778d6cf08f23032ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 31/68] fix: toy.racetrack follows the racetrack file format

---
 src/mdps/toy.racetrack | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mdps/toy.racetrack b/src/mdps/toy.racetrack
index 2291abf..61e5fda 100644
--- a/src/mdps/toy.racetrack
+++ b/src/mdps/toy.racetrack
@@ -2,7 +2,8 @@ discount 1.0
 errorProbability 0.1
 useMaxCost 1
 maxCost 1000
+useErrorIsWind 0
 ---
-*****
-*s f*
-*****
+@@@@@
+@s f@
+@@@@@
-- 
2.43.0


From be21e6d9494c8b4e6e3513e085a721965a772d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 32/68] fix: fast reader does not wrap large integers around

---
 src/parsers/FastParser.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 39134ac..ecb477c 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -22,6 +22,7 @@
 #include "FastParser.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -105,6 +106,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   int lineNumber;
   char sbuf[512];
   bool inPreamble = true;
+  long count;
   int used = 0;  // characters of the line a statement took up
 
   kmatrix Rx;
@@ -118,7 +120,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   bool startSet = false;
 
   const char *rFormat =
-      (expectPomdp ? "R: %d : %d : * : * %lf %n" : "R: %d : %d : * %lf %n");
+      (expectPomdp ? "R: %ld : %ld : * : * %lf %n" : "R: %ld : %ld : * %lf %n");
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
@@ -162,19 +164,23 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d %n", &p.numActions, &used) || buf[used] || p.numActions < 1) {
+        if (1 != sscanf(buf, "actions: %ld %n", &count, &used) || buf[used] ||
+            count < 1 || count > INT_MAX) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
         }
+        p.numActions = count;
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d %n", &p.numObservations, &used) || buf[used] || p.numObservations < 1) {
+          if (1 != sscanf(buf, "observations: %ld %n", &count, &used) || buf[used] ||
+            count < 1 || count > INT_MAX) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
           }
+          p.numObservations = count;
           numObservationsSet = true;
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -182,11 +188,13 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d %n", &p.numStates, &used) || buf[used] || p.numStates < 1) {
+        if (1 != sscanf(buf, "states: %ld %n", &count, &used) || buf[used] ||
+            count < 1 || count > INT_MAX) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
         }
+        p.numStates = count;
         numStatesSet = true;
         // any start statement read so far was for another number of states
         startSet = false;
@@ -254,7 +262,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
     if (!inPreamble) {
       if (PM_PREFIX_MATCHES("R:")) {
-        int s, a;
+        long s, a;
         double reward;
         if (3 != sscanf(buf, rFormat, &a, &s, &reward, &used) || buf[used]) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -271,9 +279,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         kmatrix_set_entry(Rx, s, a, reward);
       } else if (PM_PREFIX_MATCHES("T:")) {
-        int s, a, sp;
+        long s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d%*[ \t]%lf %n", &a, &s, &sp, &prob, &used) ||
+        if (4 != sscanf(buf, "T: %ld : %ld : %ld%*[ \t]%lf %n", &a, &s, &sp, &prob, &used) ||
             buf[used]) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
@@ -286,9 +294,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
-          int s, a, o;
+          long s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d%*[ \t]%lf %n", &a, &s, &o, &prob, &used) ||
+          if (4 != sscanf(buf, "O: %ld : %ld : %ld%*[ \t]%lf %n", &a, &s, &o, &prob, &used) ||
               buf[used]) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
-- 
2.43.0


From 9b00031ea3e922583b55d1507cfc2f3a3caddc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 33/68] fix: refuse an MDP without a valid start state before
 it is used

---
 src/parsers/CassandraParser.cc | 7 -------
 src/parsers/mdp.c              | 7 +++++++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index eecbde2..572ec84 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -122,13 +122,6 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     }
     copy(p.initialBelief, initialBeliefD);
   } else {
-    if (CASSANDRA_GLOBAL(gInitialState) < 0 ||
-        CASSANDRA_GLOBAL(gInitialState) >= p.numStates) {
-      cerr << "ERROR: " << p.fileName
-           << ": MDP 'start' statement is missing or not a valid state" << endl;
-      exit(EXIT_FAILURE);
-    }
-
     // convert initialState to sla format
     p.initialState.resize(1);
     p.initialState.push_back(0, CASSANDRA_GLOBAL(gInitialState));
diff --git a/src/parsers/mdp.c b/src/parsers/mdp.c
index d3470f1..49ec5dd 100644
--- a/src/parsers/mdp.c
+++ b/src/parsers/mdp.c
@@ -359,6 +359,13 @@ void convertMatrices() {
   int a;
   struct timeval startTime, endTime;
 
+  if (gProblemType == MDP_problem_type &&
+      (gInitialState < 0 || gInitialState >= gNumStates)) {
+    fprintf(stderr,
+            "ERROR: MDP 'start' statement is missing or not a valid state\n");
+    exit(EXIT_FAILURE);
+  }
+
   /* Allocate room for each action */
   P = (Matrix *)malloc(gNumActions * sizeof(*P));
   R = (Matrix *)malloc(gNumActions * sizeof(*R));
-- 
2.43.0


From d1383f967425e500abfec47107bdecd7240f7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 34/68] fix: refuse rewards that overflow in a model file

---
 src/parsers/mdp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/mdp.c b/src/parsers/mdp.c
index 49ec5dd..ac72110 100644
--- a/src/parsers/mdp.c
+++ b/src/parsers/mdp.c
@@ -28,6 +28,7 @@
 */
 #include "mdp.h"
 
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -330,6 +331,12 @@ void computeRewards() {
 
       } /* for j */
 
+      if (!isfinite(sum)) {
+        fprintf(stderr, "ERROR: reward of action %d in state %d is too large\n",
+                a, i);
+        exit(EXIT_FAILURE);
+      }
+
       /* costs are negative rewards */
       if (gValueType == COST_value_type) sum = -sum;
 
-- 
2.43.0


From 256b1209719cd51603f79d505bff6802e987bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 35/68] fix: config file lines of any length, and a last line
 without newline, are read

---
 src/common/zmdpConfig.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..57d7859 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -76,12 +76,13 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
                                 std::istream &in) {
   sourceName = _sourceName;
 
-  char buf[1024], field[1024], val[1024];
+  std::string line;
   int lnum = 0;
-  while (1) {
-    in.getline(buf, sizeof(buf));
+  while (std::getline(in, line)) {
     lnum++;
-    if (in.eof()) break;
+    std::vector<char> bufData(line.c_str(), line.c_str() + line.size() + 1);
+    std::vector<char> fieldData(bufData.size()), valData(bufData.size());
+    char *buf = &bufData[0], *field = &fieldData[0], *val = &valData[0];
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
@@ -100,7 +101,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
             sourceName.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
-      snprintf(field, sizeof(field), "%s", bufp);
+      snprintf(field, fieldData.size(), "%s", bufp);
 
       // rest of line is value
       bufp = strtok_r(NULL, "", &saveptr);
@@ -111,7 +112,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
             sourceName.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
-      snprintf(val, sizeof(field), "%s", bufp);
+      snprintf(val, valData.size(), "%s", bufp);
 
       setAlias(field, val);
     } else {
-- 
2.43.0


From f836b527964c3db5644496d83d1925d2c836b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 36/68] fix: config values that are not numbers are refused

---
 src/common/zmdpConfig.cc | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 57d7859..5d9b183 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -162,22 +163,42 @@ const std::string &ZMDPConfig::getString(const std::string &field) const {
   return ci->second;
 }
 
+static void invalidValue(const std::string &field, const std::string &val,
+                         const char *expected) {
+  fprintf(stderr,
+          "ERROR: invalid value '%s' for config field '%s', expected %s\n",
+          val.c_str(), field.c_str(), expected);
+  exit(EXIT_FAILURE);
+}
+
 int ZMDPConfig::getInt(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like an integer here
-  return atoi(s.c_str());
+  char *end = NULL;
+  errno = 0;
+  long val = strtol(s.c_str(), &end, 10);
+  if (end == s.c_str() || *end != '\0' || errno == ERANGE || val < INT_MIN ||
+      val > INT_MAX) {
+    invalidValue(field, s, "an integer");
+  }
+  return static_cast<int>(val);
 }
 
 double ZMDPConfig::getDouble(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a double here
-  return atof(s.c_str());
+  char *end = NULL;
+  double val = strtod(s.c_str(), &end);
+  if (end == s.c_str() || *end != '\0' || val != val) {
+    invalidValue(field, s, "a number");
+  }
+  return val;
 }
 
 bool ZMDPConfig::getBool(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a boolean value here
-  return (0 != atoi(s.c_str()));
+  if (s != "0" && s != "1") {
+    invalidValue(field, s, "0 or 1");
+  }
+  return (s == "1");
 }
 
 bool ZMDPConfig::defined(const std::string &field) const {
-- 
2.43.0


From 2e997b87571e499f76764b0a5f71852aea1a2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 37/68] fix: accept the documented lowerBoundRepresentation
 'maxPlanes'

---
 src/main/solverUtils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index d53cb5b..32e8c93 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -58,7 +58,11 @@ static EnumEntry modelTypeTableG[] = {{"-", -1},
                                       {NULL, -1}};
 
 static EnumEntry lowerBoundRepresentationTableG[] = {
-    {"-", -1}, {"point", V_POINT}, {"convex", V_MAXPLANES}, {NULL, -1}};
+    {"-", -1},
+    {"point", V_POINT},
+    {"maxPlanes", V_MAXPLANES},
+    {"convex", V_MAXPLANES},  // former name of maxPlanes
+    {NULL, -1}};
 
 static EnumEntry upperBoundRepresentationTableG[] = {
     {"-", -1}, {"point", V_POINT}, {"sawtooth", V_SAWTOOTH}, {NULL, -1}};
-- 
2.43.0


From d908fce3c1b08d96a3ccd12a133d8e1ccd1d0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 38/68] fix: command line values keep spaces and are not taken
 for aliases

---
 src/common/zmdpConfig.cc | 57 +++++++++++++++++++---------------------
 src/common/zmdpConfig.h  |  3 +--
 src/main/zmdp.cc         |  6 ++---
 3 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 5d9b183..49bf3fd 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -29,6 +29,7 @@
 #include <string.h>
 #include <unistd.h>
 
+#include <deque>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -48,14 +49,6 @@ static bool allWhiteSpace(const char *buf) {
   return true;
 }
 
-static void replace_string(string &s, const string &pattern,
-                           const string &replacement) {
-  size_t pos;
-  while (string::npos != (pos = s.find(pattern))) {
-    s.replace(pos, pattern.size(), replacement);
-  }
-}
-
 static std::vector<std::string> split(const string &stringToSplit) {
   char *s = strdup(stringToSplit.c_str());
   std::vector<std::string> ret;
@@ -237,45 +230,49 @@ void ZMDPConfig::setAlias(const std::string &field, const std::string &val) {
   aliases[field] = val;
 }
 
-std::string ZMDPConfig::expandAliases(const std::string &args) {
-  // pad with spaces so padded fields will match
-  string ret = (" " + args + " ");
-
+std::vector<std::string> ZMDPConfig::processArgs(
+    const std::vector<std::string> &inputArgs) {
+  // each argument is paired with the number of alias expansion passes
+  // it can still go through
   const int numPasses = 3;
-  for (int i = 0; i < numPasses; i++) {
-    FOR_EACH(pr, aliases) {
-      string field = " " + pr->first + " ";
-      string val = " " + pr->second + " ";
-      replace_string(ret, field, val);
-    }
-  }
+  std::deque<std::pair<std::string, int> > args;
+  FOR_EACH(argp, inputArgs) { args.push_back(make_pair(*argp, numPasses)); }
 
-  return ret;
-}
-
-std::vector<std::string> ZMDPConfig::processArgs(const std::string &argStr) {
-  std::vector<std::string> args = split(expandAliases(argStr));
   std::vector<std::string> unprocessedArgs;
 
   bool pastOptions = false;
-  typeof(args.begin()) argp;
-  for (argp = args.begin(); argp != args.end(); argp++) {
-    string arg = *argp;
+  while (!args.empty()) {
+    string arg = args.front().first;
+    int passesLeft = args.front().second;
+    args.pop_front();
+
+    bool isOption = (!pastOptions && '-' == arg[0]);
+    typeof(aliases.begin()) aliasp = aliases.find(arg);
+    if (aliasp != aliases.end() && passesLeft > 0 &&
+        (isOption || '-' != arg[0])) {
+      std::vector<std::string> expansion = split(aliasp->second);
+      for (int i = static_cast<int>(expansion.size()) - 1; i >= 0; i--) {
+        args.push_front(make_pair(expansion[i], passesLeft - 1));
+      }
+      continue;
+    }
+
     if (allWhiteSpace(arg.c_str())) continue;
 
-    if (!pastOptions && '-' == arg[0]) {
+    if (isOption) {
       if (arg == "--") {
         // "end of options" marker
         pastOptions = true;
       } else if (arg.substr(0, 2) == "--") {
         // option
-        if (++argp == args.end()) {
+        if (args.empty()) {
           fprintf(stderr,
                   "ERROR: got %s option without argument (-h for help)\n",
                   arg.c_str());
           exit(EXIT_FAILURE);
         }
-        setString(arg.substr(2), *argp);
+        setString(arg.substr(2), args.front().first);
+        args.pop_front();
       } else {
         // non-option argument
         unprocessedArgs.push_back(arg);
diff --git a/src/common/zmdpConfig.h b/src/common/zmdpConfig.h
index 827cc93..15563d0 100644
--- a/src/common/zmdpConfig.h
+++ b/src/common/zmdpConfig.h
@@ -52,8 +52,7 @@ struct ZMDPConfig {
   void setBool(const std::string &field, bool val);
 
   void setAlias(const std::string &field, const std::string &val);
-  std::string expandAliases(const std::string &args);
-  std::vector<std::string> processArgs(const std::string &args);
+  std::vector<std::string> processArgs(const std::vector<std::string> &args);
 
   void setNoNewFieldsAllowed(bool _noNewFieldsAllowed);
 
diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index d0fd8f7..bb370a5 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -472,7 +472,7 @@ int main(int argc, char **argv) {
     outs << argv[i] << " ";
   }
 
-  ostringstream configArgs;
+  vector<string> configArgs;
 
   string cmd1 = "";
   const char *configFileName = NULL;
@@ -518,7 +518,7 @@ int main(int argc, char **argv) {
       exit(EXIT_SUCCESS);
     } else {
       // append option to configArgs
-      configArgs << args << " ";
+      configArgs.push_back(argv[argi]);
     }
   }
 
@@ -534,7 +534,7 @@ int main(int argc, char **argv) {
   }
 
   // config step 3: overwrite with values specified on command line
-  vector<string> nonOptionArgs = config.processArgs(configArgs.str());
+  vector<string> nonOptionArgs = config.processArgs(configArgs);
 
   // check not too many non-option (unprocessed) arguments
   if (nonOptionArgs.size() > 2) {
-- 
2.43.0


From 50b5cb5112612af8e77ea151ada0c736b0c8fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 39/68] fix: usage text shows the real default number of
 evaluation trials

---
 src/main/zmdp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index bb370a5..c290b5e 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -334,7 +334,7 @@ void benchmarkUsage(const char *cmd0) {
           "  -f        Use fast model parser (for larger RockSample and "
           "LifeSurvey problems)\n"
           "  -i <#>    Specify number of simulation runs at each evaluation "
-          "epoch [100]\n"
+          "epoch [1000]\n"
           "  -o <file> Specify where to write output policy [none]\n"
           "  -p <#>    Terminate when policy regret is bounded to this "
           "precision [1e-3]\n"
@@ -379,7 +379,7 @@ void evaluateUsage(const char *cmd0) {
          "  -f        Use fast model parser (for larger RockSample and "
          "LifeSurvey problems)\n"
          "  -i <#>    Specify number of simulation runs at each evaluation "
-         "epoch [100]\n"
+         "epoch [1000]\n"
          "  For many more options and more detailed descriptions, see the "
          "config file.\n"
          "\n"
-- 
2.43.0


From 7c9ac44f11205ae2db4b14ce90c45df6440f14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 40/68] fix: report a configuration file that could not be
 written

---
 src/common/embedFiles.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/embedFiles.h b/src/common/embedFiles.h
index 5b69244..fcd3e3a 100644
--- a/src/common/embedFiles.h
+++ b/src/common/embedFiles.h
@@ -47,8 +47,12 @@ inline void embedWriteToFile(const char *fileName, const embed_buffer_t &buf) {
             strerror(errno));
     exit(EXIT_FAILURE);
   }
-  fwrite(buf.data, 1, buf.size, outFile);
-  fclose(outFile);
+  bool written = (fwrite(buf.data, 1, buf.size, outFile) == buf.size);
+  if (0 != fclose(outFile) || !written) {
+    fprintf(stderr, "ERROR: couldn't write %s: %s\n", fileName,
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 }
 
 #endif  // ZMDP_SRC_COMMON_EMBEDFILES_H_
-- 
2.43.0


From 0f9d46369007a1b456912bc039d99faaf677feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 41/68] fix: LifeSurvey state names are terminated

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index 64f2dcd..e7c8ef7 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -68,6 +68,7 @@ std::string LSState::toString(void) const {
       snprintf(eltbuf, sizeof(eltbuf), "%1d", rewardLevelInRegion[i]);
       rbuf[i] = eltbuf[0];
     }
+    rbuf[rewardLevelInRegion.size()] = '\0';
     snprintf(buf, sizeof(buf), "sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,
              lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],
              lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);
-- 
2.43.0


From 13e34081b050de43505e78401cc2c7e929c038e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 42/68] fix: null LifeSurvey observation keeps its index

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index e7c8ef7..b2fe7b0 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -156,7 +156,7 @@ LSObservation::LSObservation(int oi) {
 
 int LSObservation::toInt(void) const {
   if (isNull) {
-    return 0;
+    return OBS_NULL;
   } else {
     return lifeInNeighborConfidence[2] +
            LS_BASE_NUM_OBSERVATIONS *
-- 
2.43.0


From 2f7056b3bd32fb916d1a64586e871d684ab33eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 43/68] fix: a written LifeSurvey map can be read back

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index b6df89d..dbf3ee0 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -52,7 +52,9 @@ static void convertToDoubleVector(std::vector<double> &result,
   while (1) {
     p2 = s.find_first_of(" \t", p1);
     if (string::npos == p2) {
-      result.push_back(atof(s.substr(p1).c_str()));
+      if (p1 != s.size()) {
+        result.push_back(atof(s.substr(p1).c_str()));
+      }
       break;
     } else {
       if (p1 != p2) {
@@ -72,7 +74,7 @@ static void convertToDoubleVector(std::vector<double> &result,
 static void writeDoubleVectorToFile(FILE *outFile, const char *header,
                                     const std::vector<double> &vec) {
   fprintf(outFile, "%s ", header);
-  FOR_EACH(dp, vec) { fprintf(outFile, "%lf ", *dp); }
+  FOR_EACH(dp, vec) { fprintf(outFile, "%.17g ", *dp); }
   fprintf(outFile, "\n");
 }
 
@@ -336,7 +338,8 @@ preambleDone:
 void LSModelFile::writeToFile(FILE *outFile) const {
   fprintf(outFile, "startX %d\n", startX);
   fprintf(outFile, "startY %d\n", startY);
-  fprintf(outFile, "baseCost %lf\n", baseCost);
+  fprintf(outFile, "baseCost %.17g\n", baseCost);
+  fprintf(outFile, "lookaheadCost %.17g\n", lookaheadCost);
   writeDoubleVectorToFile(outFile, "regionPriors", regionPriors);
   writeDoubleVectorToFile(outFile, "obsDistributionLifeAbsent",
                           obsDistributionLifeAbsent);
-- 
2.43.0


From a3245b886246b1503cc760953f5280971ac35bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 44/68] fix: LifeSurvey maps with an even number of rows, or
 without final newline, are modelled as drawn

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index dbf3ee0..ca14632 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -92,6 +92,11 @@ static std::string getVal(const ParamLookup &params,
   }
 }
 
+static void truncateNewline(char *lbuf) {
+  int n = strlen(lbuf);
+  if (n > 0 && '\n' == lbuf[n - 1]) lbuf[n - 1] = '\0';
+}
+
 static std::string parseRow(const char *inRow, int isOdd,
                             const std::string &fname, int lnum) {
   int n = strlen(inRow);
@@ -234,7 +239,7 @@ void LSModelFile::readFromFile(const std::string &fname) {
     if (strlen(lbuf) <= 1) continue;
     if ('#' == lbuf[0]) continue;
     if ('-' == lbuf[0]) goto preambleDone;
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate newline
+    truncateNewline(lbuf);
     if (2 != sscanf(lbuf, "%s %[-0-9.eE \t]", key, value)) {
       fprintf(stderr,
               "ERROR: %s: line %d: syntax error, expected '<key> <value>'\n",
@@ -285,8 +290,14 @@ preambleDone:
         exit(EXIT_FAILURE);
       }
     }
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate trailing newline
-    rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
+    truncateNewline(lbuf);
+    rows.push_back(lbuf);
+  }
+  int firstRowLnum = lnum - static_cast<int>(rows.size()) + 1;
+  FOR(y0, rows.size()) {
+    /* row y = 0 is the last line; rows with odd y are indented */
+    int y = rows.size() - y0 - 1;
+    rows[y0] = parseRow(rows[y0].c_str(), y % 2, fname, firstRowLnum + y0);
   }
 
   /* calculate dimensions of map */
-- 
2.43.0


From f9e14a3014a92eb435e88b3c0184e1438a15ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 45/68] fix: refuse LifeSurvey maps with an invalid start cell
 or probabilities

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index ca14632..dc2c8e5 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -275,6 +275,24 @@ preambleDone:
     exit(EXIT_FAILURE);
   }
 
+  FOR_EACH(pp, regionPriors) {
+    if (!(0.0 <= *pp && *pp <= 1.0)) {
+      fprintf(stderr, "ERROR: %s: regionPriors must be between 0 and 1\n",
+              fname.c_str());
+      exit(EXIT_FAILURE);
+    }
+  }
+  FOR(i, LS_BASE_NUM_OBSERVATIONS) {
+    if (!(0.0 <= obsDistributionLifeAbsent[i] &&
+          0.0 <= obsDistributionLifePresent[i])) {
+      fprintf(stderr,
+              "ERROR: %s: obsDistributionLife{Absent,Present} entries must be "
+              "non-negative and not all zero\n",
+              fname.c_str());
+      exit(EXIT_FAILURE);
+    }
+  }
+
   /* read map data into intermediate data structure */
   std::vector<std::string> rows;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
@@ -344,6 +362,13 @@ preambleDone:
             static_cast<char>((n - 1) + 97), n);
     exit(EXIT_FAILURE);
   }
+
+  if (LS_OBSTACLE == grid.getCellBounded(LSPos(startX, startY))) {
+    fprintf(stderr,
+            "ERROR: %s: start position (%d,%d) is not a cell of the map\n",
+            fname.c_str(), startX, startY);
+    exit(EXIT_FAILURE);
+  }
 }
 
 void LSModelFile::writeToFile(FILE *outFile) const {
-- 
2.43.0


From e317a30575cf000dcd16c00463379778bebd0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 46/68] fix: blank lines of LifeSurvey target lists and traces
 are skipped

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc       | 2 +-
 src/pomdpModels/lifeSurvey/calcLSTrialStats.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index b2fe7b0..71ead21 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -691,7 +691,7 @@ void LSModel::readTargetList(std::vector<LSPos> &result, const char *fname) {
   result.clear();
   while (fgets(buf, sizeof(buf), f)) {
     lnum++;
-    if (0 == strlen(buf) || '#' == buf[0]) continue;
+    if (strlen(buf) <= 1 || '#' == buf[0]) continue;
     if (2 != sscanf(buf, "%d %d", &p.x, &p.y)) {
       fprintf(stderr,
               "%s:%d: syntax error, expected integers '<x> <y>' on each line\n",
diff --git a/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc b/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
index 07b217f..28b5be5 100644
--- a/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
+++ b/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
@@ -57,7 +57,7 @@ void readTrace(std::vector<TraceEntry> &result, const char *fname) {
   result.clear();
   while (fgets(buf, sizeof(buf), f)) {
     lnum++;
-    if (0 == strlen(buf) || '#' == buf[0]) continue;
+    if (strlen(buf) <= 1 || '#' == buf[0]) continue;
     if (2 != sscanf(buf, "%d %d", &e.a, &e.o)) {
       fprintf(stderr,
               "%s:%d: syntax error, expected integers '<a> <o>' on each line\n",
-- 
2.43.0


From 3cc408d4bccde2d05e024ce88605e1a116238b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 47/68] fix: trial statistics use the costs and rules of the
 map

---
 .../lifeSurvey/calcLSTrialStats.cc            | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc b/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
index 28b5be5..ac5268c 100644
--- a/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
+++ b/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
@@ -71,12 +71,11 @@ void readTrace(std::vector<TraceEntry> &result, const char *fname) {
 
 void doit(const char *lifeSurveyFileName, const char *targetListFileName,
           const char *traceFileName) {
-  const double lookaheadCost = 5.0;
-  printf("LOOKAHEAD COST=%lf\n", lookaheadCost);
-
   LSModel m;
   m.init(lifeSurveyFileName);
   const LSModelFile &f = m.mfile;
+  const double lookaheadCost = f.lookaheadCost * f.baseCost;
+  printf("LOOKAHEAD COST=%lf\n", lookaheadCost);
 
   std::vector<LSPos> targetList;
   LSModel::readTargetList(targetList, targetListFileName);
@@ -89,6 +88,8 @@ void doit(const char *lifeSurveyFileName, const char *targetListFileName,
   std::vector<int> regionRewards(f.regionPriors.size(), 0);
   int r = f.grid.getCell(pos);
   regionRewards[r] = 1;
+  int lastMoveDirection = LS_E;
+  bool usedLookaheadInThisCell = false;
 
   // replay actions and determine relevant rewards
   int step = 0;
@@ -117,14 +118,26 @@ void doit(const char *lifeSurveyFileName, const char *targetListFileName,
     if (LS_ACT_LOOK == a.type) {
       numLooks++;
       cost = lookaheadCost;
+      if (usedLookaheadInThisCell) {
+        cost = 0;
+        penalty = LS_PENALTY_ILLEGAL;
+        if (verboseG) {
+          printf("  ILLEGAL ACTION!\n");
+        }
+        numIllegalActions++;
+      }
+      usedLookaheadInThisCell = true;
     } else {
-      cost = a.useSample ? 5 : 1;
+      cost = (a.useSample ? 5 : 1) * f.baseCost;
 
       LSPos nextPos = m.getNeighbor(pos, a.moveDirection);
 
       unsigned char cellType = f.grid.getCellBounded(nextPos);
-      if (LS_OBSTACLE == cellType) {
-        penalty = 100;
+      if (LS_OBSTACLE == cellType ||
+          (LS_NE == lastMoveDirection && LS_SE == a.moveDirection) ||
+          (LS_SE == lastMoveDirection && LS_NE == a.moveDirection)) {
+        cost = 0;
+        penalty = LS_PENALTY_ILLEGAL;
         if (verboseG) {
           printf("  ILLEGAL ACTION!\n");
         }
@@ -156,6 +169,8 @@ void doit(const char *lifeSurveyFileName, const char *targetListFileName,
         }
 
         pos = nextPos;
+        lastMoveDirection = a.moveDirection;
+        usedLookaheadInThisCell = false;
       }
     }
     double net = reward - cost - penalty;
-- 
2.43.0


From a7d113bba8a27b0435d042b7774abaf485b11277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 48/68] fix: report LifeSurvey output that could not be written

---
 src/pomdpModels/lifeSurvey/dumpMap.cc        | 7 ++++++-
 src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/dumpMap.cc b/src/pomdpModels/lifeSurvey/dumpMap.cc
index 4793101..a5dfafc 100644
--- a/src/pomdpModels/lifeSurvey/dumpMap.cc
+++ b/src/pomdpModels/lifeSurvey/dumpMap.cc
@@ -135,7 +135,12 @@ int main(int argc, char *argv[]) {
       }
     }
   }
-  fclose(mapDumpFile);
+  bool writeFailed = ferror(mapDumpFile);
+  if (0 != fclose(mapDumpFile) || writeFailed) {
+    fprintf(stderr, "ERROR: couldn't write '%s': %s\n", mapDumpFileName.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", mapDumpFileName.c_str());
 }
diff --git a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
index 0610459..57c651c 100644
--- a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
@@ -149,6 +149,12 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   m.writeToFile(pomdpFile, fullIdentifiers);
+  bool writeFailed = ferror(pomdpFile);
+  if (0 != fclose(pomdpFile) || writeFailed) {
+    fprintf(stderr, "ERROR: couldn't write '%s': %s\n", pomdpFileName.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", pomdpFileName.c_str());
 }
-- 
2.43.0


From 6ae4744ffd4659b71a2a4fb23e62eccb825f30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 49/68] fix: a last LifeSurvey map line of one cell without
 newline is read

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index dc2c8e5..efd53f5 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -297,7 +297,7 @@ preambleDone:
   std::vector<std::string> rows;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
-    if (strlen(lbuf) <= 1) {
+    if ('\n' == lbuf[0]) {
       if (feof(modelFile)) {
         break;
       } else {
-- 
2.43.0


From 8118f4f1f4b0723de406d7d5b49651af671b5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 50/68] fix: an interrupted rewrite of the policy during a
 benchmark no longer loses the previous policy

---
 src/main/TestDriver.cc | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 0549add..7d6db65 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -25,6 +25,8 @@
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include <fstream>
@@ -150,21 +152,24 @@ void TestDriver::batchTestIncremental(
 
       // write output policy at each evaluation epoch if that was requested
       if (NULL != outPolicyFileName) {
-        // create a backup of the policy from the last epoch in case policy
-        // writing is interrupted
-        string cmd = string("mv ") + outPolicyFileName + " " +
-                     outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to make policy backup");
-        }
-
-        so.bounds->writePolicy(outPolicyFileName,
-                               /* canModifyBounds = */ false);
-
-        // delete the backup
-        cmd = string("rm -f ") + outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to delete policy backup");
+        // write the new policy under a temporary name and put it in place when
+        // it is complete, so that the policy from the last epoch is still there
+        // in case policy writing is interrupted
+        struct stat st;
+        bool isSpecialFile =
+            (0 == stat(outPolicyFileName, &st)) && !S_ISREG(st.st_mode);
+        if (isSpecialFile) {
+          // e.g., /dev/null
+          so.bounds->writePolicy(outPolicyFileName,
+                                 /* canModifyBounds = */ false);
+        } else {
+          string tmpFileName = string(outPolicyFileName) + ".tmp";
+          so.bounds->writePolicy(tmpFileName, /* canModifyBounds = */ false);
+          if (0 != rename(tmpFileName.c_str(), outPolicyFileName)) {
+            cerr << "ERROR: couldn't rename " << tmpFileName << " to "
+                 << outPolicyFileName << ": " << strerror(errno) << endl;
+            exit(EXIT_FAILURE);
+          }
         }
       }
 
-- 
2.43.0


From 30d84879f03bff25546a85c5607868fd201308b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 51/68] fix: a policy file that cannot be written completely is
 reported

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 2fb8832..08c3963 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -571,6 +571,11 @@ void MaxPlanesLowerBound::writeToFile(const std::string &outFileName) const {
   out << "}" << endl;
 
   out.close();
+  if (!out) {
+    cerr << "ERROR: MaxPlanesLowerBound::writeToFile: couldn't write "
+         << outFileName << ": " << strerror(errno) << endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
-- 
2.43.0


From c32e31e26a00e4408d2902f0ba7c8d1c8b7f1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 52/68] fix: the time limit of solve does not include reading
 the model

---
 src/main/zmdp.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index c290b5e..caac76d 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -76,6 +76,10 @@ void doSolve(const ZMDPConfig &config) {
   SolverObjects so;
   constructSolverObjects(so, p, config);
 
+  // the termination check for terminateWallclockSeconds excludes the time
+  // spent reading model files
+  StopWatch solverRun;
+
   // initialize the solver
   printf("%05d calculating initial heuristics\n",
          static_cast<int>(run.elapsedTime()));
@@ -98,7 +102,7 @@ void doSolve(const ZMDPConfig &config) {
 
     // check timeout
     double elapsed = run.elapsedTime();
-    if (elapsed >= p.terminateWallclockSeconds) {
+    if (solverRun.elapsedTime() >= p.terminateWallclockSeconds) {
       reachedTimeout = true;
     }
 
-- 
2.43.0


From e308af5af130fcfbf7203c48ab61a99aece325f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 53/68] fix: terminateNumBackups 0 means no limit, as
 documented

---
 src/search/RTDPCore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 25fa9d3..4e6e8b6 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -78,7 +78,7 @@ void RTDPCore::planInit(MDP *_problem, const ZMDPConfig *_config) {
   initialized = false;
   targetPrecision = config->getDouble("terminateRegretBound");
   terminateNumBackups = config->getInt("terminateNumBackups");
-  if (terminateNumBackups < 0) {
+  if (terminateNumBackups <= 0) {
     terminateNumBackups = INT_MAX;
   }
   bool useTimeWithoutHeuristic = config->getBool("useTimeWithoutHeuristic");
-- 
2.43.0


From 55a492973e95e5e43cf86b72400668224980b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 54/68] fix: carry in the sum of two times

---
 src/common/zmdpCommonTime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/zmdpCommonTime.cc b/src/common/zmdpCommonTime.cc
index 1f41e04..75c9df5 100644
--- a/src/common/zmdpCommonTime.cc
+++ b/src/common/zmdpCommonTime.cc
@@ -77,7 +77,7 @@ timeval operator+(const timeval &a, const timeval &b) {
   timeval result;
   result.tv_sec = a.tv_sec + b.tv_sec;
   result.tv_usec = a.tv_usec + b.tv_usec;
-  if (result.tv_usec > 1000000) {
+  if (result.tv_usec >= 1000000) {
     result.tv_sec++;
     result.tv_usec -= 1000000;
   }
-- 
2.43.0


From 9f33a343c0a7ba2aa550dd9c8d9b02c233c2d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 55/68] fix: a regret bound that is not positive no longer
 hangs the initialization of the bounds

---
 src/bounds/BoundPair.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bounds/BoundPair.cc b/src/bounds/BoundPair.cc
index 9423f7f..af1329c 100644
--- a/src/bounds/BoundPair.cc
+++ b/src/bounds/BoundPair.cc
@@ -35,6 +35,7 @@
 #include "zmdpCommonTime.h"
 
 #define BP_INITIALIZATION_PRECISION_FACTOR (1e-2)
+#define BP_DEFAULT_TARGET_PRECISION (1e-3)
 
 using namespace std;
 using namespace sla;
@@ -99,6 +100,11 @@ void BoundPair::initialize(MDP *_problem, const ZMDPConfig *_config) {
   problem = _problem;
   config = _config;
   targetPrecision = config->getDouble("terminateRegretBound");
+  if (targetPrecision <= 0) {
+    // no target regret bound was requested; the initial bounds still need some
+    // finite precision, otherwise calculating them would never end
+    targetPrecision = BP_DEFAULT_TARGET_PRECISION;
+  }
 
   if (maintainLowerBound) {
     lowerBound->initialize(BP_INITIALIZATION_PRECISION_FACTOR *
-- 
2.43.0


From 157b426dd162abac9608c7d7a84ce739cfde6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 56/68] fix: a storage or scores output file that cannot be
 opened is reported

---
 src/exec/PolicyEvaluator.cc | 2 +-
 src/main/TestDriver.cc      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index b08276c..3838be8 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -84,7 +84,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   if (verbose) {
     scoresOutFile = new ofstream(scoresOutputFile.c_str());
-    if (!scoresOutFile) {
+    if (!*scoresOutFile) {
       fprintf(stderr, "ERROR: couldn't open %s for writing: %s\n",
               scoresOutputFile.c_str(), strerror(errno));
       exit(EXIT_FAILURE);
diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 7d6db65..682fa9e 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -86,8 +86,8 @@ void TestDriver::batchTestIncremental(
   string storageOutputFileName = config.getString("storageOutputFile");
   if (storageOutputFileName != "none") {
     storageOutputFile = new ofstream(storageOutputFileName.c_str());
-    if (!storageOutputFile) {
-      cerr << "ERROR: couldn't open " << storageOutputFile
+    if (!*storageOutputFile) {
+      cerr << "ERROR: couldn't open " << storageOutputFileName
            << " for writing: " << strerror(errno) << endl;
       exit(EXIT_FAILURE);
     }
-- 
2.43.0


From 5be258b5d71e82efe6eec84f5cf4eac3d68b187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 57/68] fix: option combinations the maxPlanes bound cannot
 work with are refused instead of crashing

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 08c3963..40aab21 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -135,6 +135,19 @@ MaxPlanesLowerBound::MaxPlanesLowerBound(const MDP *_pomdp,
   useMaxPlanesCache = config->getBool("useMaxPlanesCache");
   useMaxPlanesExtraPruning = config->getBool("useMaxPlanesExtraPruning");
 
+  if (useMaxPlanesSupportList && !useMaxPlanesMasking) {
+    cerr << "ERROR: useMaxPlanesSupportList=1 requires useMaxPlanesMasking=1 "
+            "(-h for help)"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (useMaxPlanesExtraPruning && !useMaxPlanesCache) {
+    cerr << "ERROR: useMaxPlanesExtraPruning=1 requires useMaxPlanesCache=1 "
+            "(-h for help)"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   if (useMaxPlanesSupportList) {
     supportList.resize(pomdp->getBeliefSize());
   }
-- 
2.43.0


From 85688ab74adefe101fe1be33f2528e5e1568b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 58/68] fix: executing a policy that does not cover the current
 belief ends with an error instead of an assertion failure

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 40aab21..76a18a8 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -379,7 +379,12 @@ const LBPlane &MaxPlanesLowerBound::getBestLBPlaneConst(
     }
   }
 
-  assert(NULL != ret);
+  if (NULL == ret) {
+    cerr << "ERROR: no plane of the maxPlanes lower bound is applicable to the "
+            "current belief (does the policy belong to this model?)"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
   return *ret;
 }
 
-- 
2.43.0


From 2990a2d4b78135f60299c4702747149f46c80067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 59/68] fix: the search depth of FRTDP is limited so that a run
 past convergence does not exhaust the stack

---
 src/search/FRTDP.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/search/FRTDP.cc b/src/search/FRTDP.cc
index b75a5ec..2dde4d8 100644
--- a/src/search/FRTDP.cc
+++ b/src/search/FRTDP.cc
@@ -39,6 +39,10 @@ using namespace MatrixUtils;
 #define FRTDP_MAX_DEPTH_ADJUST_RATIO (1.1)
 #define FRTDP_QUALITY_MARGIN (1e-5)
 
+// trialRecurse() uses one stack frame per level; without this limit, a run
+// that goes on after the bounds have converged exhausts the stack
+#define FRTDP_LIMIT_MAX_DEPTH (20000)
+
 namespace zmdp {
 
 FRTDP::FRTDP(void) {
@@ -192,7 +196,8 @@ bool FRTDP::doTrial(MDPNode &cn) {
 
   if (updateQualityDiff > -FRTDP_QUALITY_MARGIN) {
     oldMaxDepth = maxDepth;
-    maxDepth *= FRTDP_MAX_DEPTH_ADJUST_RATIO;
+    maxDepth = std::min(maxDepth * FRTDP_MAX_DEPTH_ADJUST_RATIO,
+                        (double)FRTDP_LIMIT_MAX_DEPTH);
     if (zmdpDebugLevelG >= 1) {
       printf("endTrial: updateQualityDiff=%g oldMaxDepth=%g maxDepth=%g\n",
              updateQualityDiff, oldMaxDepth, maxDepth);
-- 
2.43.0


From b7a384c6c027550313a7cb47e0ddd4f9ad605360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 60/68] fix: a number of states for the custom MDP that leaves
 it without a goal is refused

---
 src/mdps/CustomMDP.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdps/CustomMDP.cc b/src/mdps/CustomMDP.cc
index 07c7f92..64df862 100644
--- a/src/mdps/CustomMDP.cc
+++ b/src/mdps/CustomMDP.cc
@@ -74,6 +74,11 @@ CustomMDP::CustomMDP(const ZMDPConfig &config) {
   // parameters; e.g. getString(), getDouble(), getBool().  See
   // src/common/zmdpConfig.h for the detailed interface.
   myNumStates = config.getInt("customMDPNumStates");
+  if (myNumStates < 1) {
+    cerr << "ERROR: customMDPNumStates must be at least 1 (got " << myNumStates
+         << ")" << endl;
+    exit(EXIT_FAILURE);
+  }
 
   // -----------------------------------------------------------------
   // The member variables *above* this point are not used outside the
-- 
2.43.0


From f941369582ebd9ceab469d017a3cbf62d4ce77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 61/68] fix: an evaluation with fewer than one trial is refused

---
 src/exec/PolicyEvaluator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 3838be8..6362721 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -66,6 +66,10 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
+  if (evaluationTrialsPerEpoch < 1) {
+    fprintf(stderr, "ERROR: evaluationTrialsPerEpoch must be at least 1\n");
+    exit(EXIT_FAILURE);
+  }
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
-- 
2.43.0


From 683430c6dfd4a572d3e4efec0be287158468a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 62/68] fix: cached evaluation asks the policy for its action
 when it tracks its own belief

---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 6362721..f1dabda 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -199,7 +199,9 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
          (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
          j++) {
       int a;
-      if (-1 == simState->userInt) {
+      // the policy's choice depends on the simulator's state alone only if
+      // the policy is told that state
+      if (-1 == simState->userInt || !assumeIdenticalModels) {
         a = exec->chooseAction();
         simState->userInt = a;
       } else {
-- 
2.43.0


From e766dd2d8a79925867fbb7d122e0464219b80d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 63/68] fix: a policy that chooses an action the evaluated
 model does not have is refused

---
 src/exec/PolicyEvaluator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index f1dabda..497ff80 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -157,6 +157,17 @@ struct PESimLogEntry {
 
 typedef std::vector<PESimLogEntry> PESimLog;
 
+// a policy made for another model may ask for an action this one does not have
+static void checkAction(int a, const MDP &model) {
+  if (a < 0 || a >= model.getNumActions()) {
+    fprintf(stderr,
+            "ERROR: the policy chose action %d, but the evaluation model only "
+            "has actions 0 to %d\n",
+            a, model.getNumActions() - 1);
+    exit(EXIT_FAILURE);
+  }
+}
+
 void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
                                    int numTrials, int numTracesToLog) {
   if (NULL == modelCache) {
@@ -203,6 +214,7 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
       // the policy is told that state
       if (-1 == simState->userInt || !assumeIdenticalModels) {
         a = exec->chooseAction();
+        checkAction(a, *simModel);
         simState->userInt = a;
       } else {
         a = simState->userInt;
@@ -339,6 +351,7 @@ void PolicyEvaluator::doBatchSimple(dvector &rewards, double &successRate,
          (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
          j++) {
       int a = exec->chooseAction();
+      checkAction(a, *simModel);
       sim->performAction(a);
       if (assumeIdenticalModels) {
         (reinterpret_cast<MDPExec *>(exec))->currentState = sim->state;
-- 
2.43.0


From 26868504d891d631712d84ed34dd7558a2faf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 64/68] fix: HSVI goes on counting backups after the bounds
 have met so that a limit on them ends the run

---
 src/search/HSVI.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/search/HSVI.cc b/src/search/HSVI.cc
index 85d9ac9..b8d7abc 100644
--- a/src/search/HSVI.cc
+++ b/src/search/HSVI.cc
@@ -147,9 +147,16 @@ bool HSVI::doTrial(MDPNode &cn) {
 
   trialTargetPrecision = (cn.ubVal - cn.lbVal) * HSVI_IMPROVEMENT_CONSTANT;
 
-  trialRecurse(cn,
-               /* logOcc = */ log(1.0),
-               /* depth = */ 0);
+  if (trialTargetPrecision <= 0 && !cn.isTerminal) {
+    // the bounds have met; keep updating the root so that a limit on the
+    // number of backups is reached
+    HSVIUpdateResult r;
+    update(cn, 0, r);
+  } else {
+    trialRecurse(cn,
+                 /* logOcc = */ log(1.0),
+                 /* depth = */ 0);
+  }
 
 #if USE_HSVI_ADAPTIVE_DEPTH
   double updateQualityRatio;
-- 
2.43.0


From 603224ec18e92be115ff7b520b8d4ef83764317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 65/68] fix: size results of sparse matrix-vector products by
 the matrix

mult(A,x) sized the result (and the sparse accumulators) by x.size(); for a
matrix that is not square the result had the wrong number of components
and the dense variant wrote out of bounds.
---
 src/common/sla.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/sla.h b/src/common/sla.h
index 676163d..29b39c4 100644
--- a/src/common/sla.h
+++ b/src/common/sla.h
@@ -701,7 +701,7 @@ inline void mult(dvector &result, const cmatrix &A, const cvector &x) {
   int xind;
   double xval;
 
-  result.resize(x.size());
+  result.resize(A.size1());
 
   FOR_EACH(xi, x.data) {
     xind = xi->index;
@@ -729,19 +729,19 @@ inline void mult(cvector &result, const cmatrix &A, const cvector &x) {
     cvector tmp;
     cvector accum;
 
-    accum.resize(x.size());
+    accum.resize(A.size1());
     FOR_EACH(xi, x.data) {
       xind = xi->index;
       xval = xi->value;
       col_end = A.data.begin() + A.col_starts[xind + 1];
-      tmp.resize(x.size());
+      tmp.resize(A.size1());
       for (Ai = A.data.begin() + A.col_starts[xind]; Ai != col_end; Ai++) {
         tmp.push_back(Ai->index, xval * Ai->value);
       }
       accum += tmp;
     }
 
-    result.resize(x.size());
+    result.resize(A.size1());
     FOR_EACH(ai, accum.data) {
       if (fabs(ai->value) > SPARSE_EPS) {
         result.data.push_back(*ai);
-- 
2.43.0


From 18a32bd2fd75d920bd3d427aaade4eee64234c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 66/68] fix: do not cut hash keys of vectors with long entries

An entry whose index or value needed more than 23 characters was cut and
its terminating NUL ended the key, so different states shared one key.
---
 src/common/MatrixUtils.h    | 37 +++++++++++++------------------------
 src/common/slaMatrixUtils.h |  4 ++--
 2 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index cd5ec56..7a609d9 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -196,39 +196,28 @@ inline int chooseFromDistribution(const cvector &b) {
 }
 
 inline const char *hashable(const dvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
+  static std::string buf;
+  char entry[HASH_VECTOR_ENTRY_MAX_LEN];
 
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
-
-  char *pos = buf;
+  buf.clear();
   FOR(i, b.size()) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, i, b(i));
+    snprintf(entry, sizeof(entry), HASH_VECTOR_PRECISION, i, b(i));
+    buf += entry;
   }
-  return buf;
+  return buf.c_str();
 }
 
 inline const char *hashable(const cvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
-
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
+  static std::string buf;
+  char entry[HASH_VECTOR_ENTRY_MAX_LEN];
 
-  char *pos = buf;
-  buf[0] = '\0';  // in case there are no entries
+  buf.clear();
   FOR_CV(b) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
-                    CV_VAL(b));
+    snprintf(entry, sizeof(entry), HASH_VECTOR_PRECISION, CV_INDEX(b),
+             CV_VAL(b));
+    buf += entry;
   }
-  return buf;
+  return buf.c_str();
 }
 
 // Calculates the average and standard deviation for a collection.
diff --git a/src/common/slaMatrixUtils.h b/src/common/slaMatrixUtils.h
index f281787..64f5f24 100644
--- a/src/common/slaMatrixUtils.h
+++ b/src/common/slaMatrixUtils.h
@@ -40,11 +40,11 @@
 
 // FIX adjusting this based on observed bounds violations
 #define HASH_VECTOR_PRECISION "%6d:%15.9lf "
-#define HASH_VECTOR_LEN (24)
+// enough room for any index and any value
+#define HASH_VECTOR_ENTRY_MAX_LEN (400)
 
 #if 0
 #define HASH_VECTOR_PRECISION "%5d:%6.4lf "
-#define HASH_VECTOR_LEN (14)
 #endif
 
 // convenience macros for iterating through compressed matrices and vectors
-- 
2.43.0


From cf65577f650cecf1a4247bd571677c54195d43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:48 +0000
Subject: [PATCH 67/68] fix: planned life survey path does not count cells
 beyond the exit

---
 src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
index 4fb7cd3..9bb5790 100644
--- a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
+++ b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
@@ -266,8 +266,10 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
   bestPathValue = -999;
 
   // add forward neighbors of current cell to regionCounts
+  // (the survey ends at the exit, nothing beyond it can be sampled)
+  bool atExit = f.grid.getAtExit(entry.pos);
   LSValueEntry nextValueSoFar = valueSoFar;
-  FOR(dir, 3) {
+  for (int dir = 0; !atExit && dir < 3; dir++) {
     LSPos nextPos = m.getNeighbor(entry.pos, dir);
     int nextCellRegion = f.grid.getCellBounded(nextPos);
     if (LS_OBSTACLE == nextCellRegion ||
@@ -281,7 +283,6 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
 
   // fold counts of unreachable regions into unreachableRegionValue
   // (all regions are considered unreachable if we are at the exit)
-  bool atExit = f.grid.getAtExit(entry.pos);
   FOR(r, f.regionPriors.size()) {
     if (LS_UNREACHABLE != nextValueSoFar.regionCounts[r]) {
       if (atExit || !m.regionReachable[r].getCell(entry.pos)) {
-- 
2.43.0


From 060fede370b63b2c11fd30ba2e231627e2f74caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 68/68] fix: life survey path planning no longer loses regions
 with exactly nine sampling cells

---
 src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
index 9bb5790..4396d1a 100644
--- a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
+++ b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
@@ -40,6 +40,9 @@ using namespace MatrixUtils;
 using namespace sla;
 
 #define LS_NUM_PATHS_TO_EVALUATE (1000000)
+/* a region count that was folded into unreachableRegionValue; must differ from
+   all real counts */
+#define LS_COUNT_FOLDED (-1)
 #define LS_ABS(x) (((x) < 0) ? -(x) : (x))
 
 namespace zmdp {
@@ -284,12 +287,12 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
   // fold counts of unreachable regions into unreachableRegionValue
   // (all regions are considered unreachable if we are at the exit)
   FOR(r, f.regionPriors.size()) {
-    if (LS_UNREACHABLE != nextValueSoFar.regionCounts[r]) {
+    if (LS_COUNT_FOLDED != nextValueSoFar.regionCounts[r]) {
       if (atExit || !m.regionReachable[r].getCell(entry.pos)) {
         double probLifeIsSampledInRegion =
             1 - pow(1 - f.regionPriors[r], nextValueSoFar.regionCounts[r]);
         nextValueSoFar.unreachableRegionValue += probLifeIsSampledInRegion;
-        nextValueSoFar.regionCounts[r] = LS_UNREACHABLE;
+        nextValueSoFar.regionCounts[r] = LS_COUNT_FOLDED;
       }
     }
   }
-- 
2.43.0

