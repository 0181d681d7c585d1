From 1468321dd1274ec24e62c2ab57cbfeeca2b6c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:57 +0000
Subject: [PATCH 01/74] fix: edge_list_to_features gives every direction its
 own feature

With the 8-neighborhood the diagonal edges were lumped together with the
vertical ones, and DirectionalGridCRF(neighborhood=8) could not be used.
---
 pystruct/utils/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..d8e5198 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,9 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    start = 0
+    for i, direction in enumerate(edge_list):
+        edge_features[start:start + len(direction), i] = 1
+        start += len(direction)
     return edge_features
-- 
2.43.0


From e96ea44ed96ae4c06001a8b77cc7f319b92d2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 02/74] fix: BinaryClf.batch_joint_feature accepts Y_true like
 every other model

Learners that pass the true labels (batch Frank-Wolfe) failed on it.
---
 pystruct/models/unstructured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..f8168a8 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -64,7 +64,7 @@ class BinaryClf(StructuredModel):
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
-    def batch_joint_feature(self, X, Y):
+    def batch_joint_feature(self, X, Y, Y_true=None):
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
-- 
2.43.0


From ecbb74354e54d818b44364c8d9f6f3b5dfe7d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 03/74] fix: BinaryClf loss-augmented inference returns a label
 on ties

np.sign gives 0, which is not a label, when the margin is exactly one.
---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index f8168a8..e740b33 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From 3b84d94a384023cb84e498a8d533e72bd6280c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 04/74] fix: LatentDirectionalGridCRF keeps the neighborhood it
 is given

The base class constructor reset it to 4, so neighborhood=8 failed with a
shape mismatch.
---
 pystruct/models/latent_grid_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..41e8d52 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -66,7 +66,8 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
         self.antisymmetric_edge_features = []
         self.n_edge_features = 2 if neighborhood == 4 else 4
         LatentGridCRF.__init__(self, n_labels, n_features, n_states_per_label,
-                               inference_method=inference_method)
+                               inference_method=inference_method,
+                               neighborhood=neighborhood)
 
     def _set_size_joint_feature(self):
         LatentGridCRF._set_size_joint_feature(self)
-- 
2.43.0


From 4b293e246f71be2bdcd2bbac53d076d0c2b7ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 05/74] fix: is_chain compares the number of edges before
 comparing the edges

A broadcast comparison accepted a single edge repeated in a larger graph,
so inference_max_product ran Viterbi with missing pairwise potentials.
---
 pystruct/inference/maxprod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..ec1ac61 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,7 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
-    return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
+    return (len(edges) == n_vertices - 1
+            and np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
 
-- 
2.43.0


From 91126c16fd39cee9b8124bc2356b9524daf9e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 06/74] fix: is_forest handles graphs without edges and
 parallel edges

np.max of an empty edge list raised, and two edges between the same pair of
vertices (a cycle) were taken for a tree, so tree_max_product silently used
only one of the two potentials.
---
 pystruct/utils/graph_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..e6e95aa 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,13 +4,15 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
-    n_vertices = np.max(edges) + 1
+    if n_vertices is None:
+        n_vertices = np.max(edges) + 1 if len(edges) else 0
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
     neighbors = [[] for i in range(n_vertices)]
     for edge in edges:
         neighbors[edge[0]].append(edge[1])
         neighbors[edge[1]].append(edge[0])
+    n_tree_edges = 0
     lonely = 0
     while lonely < n_vertices:
         for i in range(lonely, n_vertices):
@@ -28,6 +30,8 @@ def is_forest(edges, n_vertices=None):
                     parents[neighbor] = node
                     queue.append(neighbor)
                     visited[neighbor] = True
+                    n_tree_edges += 1
                 elif not parents[node] == neighbor:
                     return False
-    return True
+    # parallel edges also lead back to the parent
+    return n_tree_edges == len(edges)
-- 
2.43.0


From ad093b68834013108b46aa4b4f5245b08ce1467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 07/74] fix: tree_max_product decodes a maximizing labeling
 when there are ties

The argmax was taken of every max-marginal separately, which can combine
parts of different maximizers into a labeling that is not one.
---
 pystruct/inference/maxprod.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index ec1ac61..110dbdd 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -75,7 +75,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -110,20 +109,16 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # decode from root to leaves, each node given the label of its parent.
+    # (maximizing each max-marginal separately is inconsistent if there are ties)
+    y = np.zeros(n_vertices, dtype=np.int)
     for node in traversal:
         parent = parents[node]
+        score = unary_potentials[node] + messages_backward[node]
         if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
-
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+            score = score + pw_forward[node][y[parent]]
+        y[node] = np.argmax(score)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 218834c049e2488ff9e096041d7803fde4e0209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 08/74] fix: n-slack primal objective uses slacks and norm of
 the same weights

The slacks of the weights before the QP were combined with the norm of the
weights after it, so reported primal objectives could be below the optimum.
---
 pystruct/learners/n_slack_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..d7332bc 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -301,6 +301,8 @@ class NSlackSSVM(BaseSSVM):
                 slices = gen_even_slices(n_samples, n_batches)
                 indices = np.arange(n_samples)
                 slack_sum = 0
+                # the slacks belong to the weights before the QP is solved
+                regularizer = np.sum(self.w ** 2) / 2
                 for batch in slices:
                     new_constraints_batch = 0
                     verbose = max(0, self.verbose - 3)
@@ -345,7 +347,7 @@ class NSlackSSVM(BaseSSVM):
 
                 primal_objective = (self.C
                                     * slack_sum
-                                    + np.sum(self.w ** 2) / 2)
+                                    + regularizer)
                 self.primal_objective_curve_.append(primal_objective)
 
                 if self.verbose > 0:
-- 
2.43.0


From 8a98fe23004eea1b0d2c5e7805859346e2e3e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 09/74] fix: one-slack inference cache keeps at most
 inference_cache entries

One more entry than requested was kept for every sample.
---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..0de1b02 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -319,7 +319,7 @@ class OneSlackSSVM(BaseSSVM):
                              for cache in sample]
             if np.any(already_there):
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
-- 
2.43.0


From c6dcdb896115bf21a3aaae011d5cef0606a4c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 10/74] fix: one-slack inference cache works with rescale_C
 models

joint_feature was called without y_true, which raised an error.
---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 0de1b02..f5a3e5b 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -325,8 +325,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From 0e68bd3e030c352a3ffa53879c9ffe18aad54f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 11/74] fix: OneSlackSSVM.constraint_equal compares pairwise
 marginals

np.all was called with the second array as the axis.
---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index f5a3e5b..b8988ed 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,7 +298,7 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1 == pw_m_2)
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-- 
2.43.0


From 86c3edde263c48386f30f46911e9f3aef7c3bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 12/74] fix: cutting plane learners do not fail if no
 constraint is found

A warm start of a converged OneSlackSSVM, and data without loss, left the
objective undefined and raised UnboundLocalError.
---
 pystruct/learners/n_slack_ssvm.py   | 2 ++
 pystruct/learners/one_slack_ssvm.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index d7332bc..ba74d4e 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -277,6 +277,8 @@ class NSlackSSVM(BaseSSVM):
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
+            # no constraint might be found at all
+            objective = 0.
         else:
             # warm start
             objective = self._solve_n_slack_qp(constraints, n_samples)
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index b8988ed..0372e15 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -455,6 +455,9 @@ class OneSlackSSVM(BaseSSVM):
             constraints = self.constraints_
 
         self.last_slack_ = -1
+        # no constraint might be found at all
+        self.constraints_ = constraints
+        objective = self.objective_curve_[-1] if len(constraints) > 1 else 0.
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From 432b3d0fa763879215a7b4e59456e3653bd2f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 13/74] fix: mini-batch subgradient learning works with
 rescale_C models

---
 pystruct/learners/subgradient_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..81f576c 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -301,8 +301,9 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                delta_joint_feature = (
+                    self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                    - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From 8c859d7adf85ceafab39f7961ac16946e2ebbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 14/74] fix: FrankWolfeSSVM works with rescale_C models

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..045ef23 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -132,7 +132,7 @@ class FrankWolfeSSVM(BaseSSVM):
         joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -158,7 +158,7 @@ class FrankWolfeSSVM(BaseSSVM):
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From 7449e9b97cd4325ea0b7c96b62382952ccb807e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 15/74] fix: parallel subgradient steps average over the batch

---
 pystruct/learners/subgradient_ssvm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 81f576c..83bea1c 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -274,6 +274,7 @@ class SubgradientSSVM(BaseSSVM):
                     objective += slack
                     djoint_feature += delta_joint_feature
                     positive_slacks += 1
+            djoint_feature /= float(len(X_b))
             w = self._solve_subgradient(djoint_feature, n_samples, w)
         return objective, positive_slacks, w
 
-- 
2.43.0


From 391d4ca361f977371874289a6ebd63683a0c54ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 16/74] fix: warm-started subgradient learner keeps its
 timestamps

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 83bea1c..e392ce7 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -189,7 +189,8 @@ class SubgradientSSVM(BaseSSVM):
             else:
                 self.learning_rate_ = self.learning_rate
         else:
-            self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+            # timestamps are relative to the first entry
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From 2975aba5caa972bcd50b2fffb12e8e75202e4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 17/74] fix: SubgradientSSVM starts from scratch without
 warm_start

---
 pystruct/learners/subgradient_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index e392ce7..e0852ce 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -179,9 +179,9 @@ class SubgradientSSVM(BaseSSVM):
         if self.verbose:
             print("Training primal subgradient structural SVM")
         self.grad_old = np.zeros(self.model.size_joint_feature)
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        w = self.w.copy()
         if not warm_start:
+            self.w = np.zeros(self.model.size_joint_feature)
+            self.t = 0
             self.objective_curve_ = []
             self.timestamps_ = [time()]
             if self.learning_rate == "auto":
@@ -191,6 +191,7 @@ class SubgradientSSVM(BaseSSVM):
         else:
             # timestamps are relative to the first entry
             self.timestamps_[0] = time() - self.timestamps_[-1]
+        w = self.w.copy()
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From 195699489b7a9bd918a868e7c7f9413e7097f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 18/74] fix: SubgradientLatentSSVM restarts its step counter
 without warm_start

---
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..a395b4d 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -136,6 +136,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         if not warm_start:
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
+            self.t = 0
             self.timestamps_ = [time()]
             self.objective_curve_ = []
             if self.learning_rate == "auto":
-- 
2.43.0


From cb4a8632eed76f91f8b5e26884aa79f759f88f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 19/74] fix: FrankWolfeSSVM.fit starts from a dual feasible
 point when refitted

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 045ef23..668ffff 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -290,8 +290,8 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
-- 
2.43.0


From f348750fa73d6e379ad7411b10b847ae62412bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 20/74] fix: FrankWolfeSSVM accepts check_dual_every=0

---
 pystruct/learners/frankwolfe_ssvm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 668ffff..742a2c1 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -205,6 +205,7 @@ class FrankWolfeSSVM(BaseSSVM):
         l_mat = np.zeros(n_samples)
         l = 0.0
         k = 0
+        dual_gap = np.inf
 
         rng = check_random_state(self.random_state)
         for iteration in range(self.max_iter):
@@ -303,7 +304,11 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        if not self.objective_curve_:
+            # the duality gap was never checked
+            self.objective_curve_.append(self._calc_dual_gap(X, Y)[0])
+        else:
+            self.objective_curve_.append(self.objective_curve_[-1])
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From 08421fa6d606b2e2a0534d1749a3030ad30678d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 21/74] fix: FrankWolfeSSVM records the training loss if
 show_loss_every is set

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 742a2c1..27a69d0 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -188,6 +188,8 @@ class FrankWolfeSSVM(BaseSSVM):
             self.w = (1.0 - gamma) * self.w + gamma * ws
             l = (1.0 - gamma) * l + gamma * ls
 
+            self._compute_training_loss(X, Y, iteration)
+
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -262,6 +264,8 @@ class FrankWolfeSSVM(BaseSSVM):
                     print("dual: %f, dual_gap: %f, primal: %f"
                           % (dual_val, dual_gap, primal_val))
 
+            self._compute_training_loss(X, Y, iteration)
+
             if self.logger is not None:
                 self.logger(self, iteration)
 
-- 
2.43.0


From 179544ba935c34f749bc44735b763a8b65d0a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 22/74] fix: StructuredPerceptron.fit keeps its average
 parameter and raises NotImplementedError

---
 pystruct/learners/structured_perceptron.py | 28 ++++++++++++----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..67800eb 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -100,21 +100,23 @@ class StructuredPerceptron(BaseSSVM):
             self.model.initialize(X, Y)
         size_joint_feature = self.model.size_joint_feature
         self.w = np.zeros(size_joint_feature)
-        if self.average is not False:
-            if self.average is True:
-                self.average = 0
-            elif self.average < -1:
-                raise NotImplemented("The only negative value for averaging "
-                                     "implemented at the moment is `-1`. Try "
-                                     "`max_iter - k` but be aware of the "
-                                     "possibility of early stopping.")
+        average = self.average
+        if average is not False:
+            if average is True:
+                average = 0
+            elif average < -1:
+                raise NotImplementedError(
+                    "The only negative value for averaging "
+                    "implemented at the moment is `-1`. Try "
+                    "`max_iter - k` but be aware of the "
+                    "possibility of early stopping.")
             w_bar = np.zeros(size_joint_feature)
             n_obs = 0
         self.loss_curve_ = []
         max_losses = np.sum([self.model.max_loss(y) for y in Y])
         try:
             for iteration in range(self.max_iter):
-                if self.average == -1:
+                if average == -1:
                     # By resetting at every iteration we effectively get
                     # averaging over the last one.
                     n_obs = 0
@@ -134,7 +136,7 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                    if self.average is not False and iteration >= self.average:
+                    if average is not False and iteration >= average:
                         n_obs += 1
                         w_bar = ((1 - 1. / n_obs) * w_bar +
                                  (1. / n_obs) * self.w)
@@ -147,8 +149,8 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                        if (self.average is not False and
-                                iteration >= self.average):
+                        if (average is not False and
+                                iteration >= average):
                             n_obs += 1
                             w_bar = ((1 - 1. / n_obs) * w_bar +
                                      (1. / n_obs) * self.w)
@@ -165,6 +167,6 @@ class StructuredPerceptron(BaseSSVM):
         except KeyboardInterrupt:
             pass
         finally:
-            if self.average is not False:
+            if average is not False:
                 self.w = w_bar
         return self
-- 
2.43.0


From faed26e7767fc9b2844c849658680dcfcd0aad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 23/74] fix: the training loss curve of an earlier fit is not
 continued

---
 pystruct/learners/frankwolfe_ssvm.py         | 1 +
 pystruct/learners/n_slack_ssvm.py            | 1 +
 pystruct/learners/one_slack_ssvm.py          | 1 +
 pystruct/learners/ssvm.py                    | 5 +++++
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 1 +
 6 files changed, 10 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 27a69d0..21fd072 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -295,6 +295,7 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
+        self._reset_training_loss()
         self.w = np.zeros(self.model.size_joint_feature)
         self.l = 0
         try:
diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index ba74d4e..70bb040 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -272,6 +272,7 @@ class NSlackSSVM(BaseSSVM):
         stopping_criterion = False
         if constraints is None:
             # fresh start
+            self._reset_training_loss()
             constraints = [[] for i in range(n_samples)]
             self.last_active = [[] for i in range(n_samples)]
             self.objective_curve_ = []
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 0372e15..7f3037e 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -433,6 +433,7 @@ class OneSlackSSVM(BaseSSVM):
             self.cache_tol_ = self.cache_tol
 
         if not warm_start:
+            self._reset_training_loss()
             self.w = np.zeros(self.model.size_joint_feature)
             constraints = []
             self.objective_curve_, self.primal_objective_curve_ = [], []
diff --git a/pystruct/learners/ssvm.py b/pystruct/learners/ssvm.py
index 35a1d56..0c91369 100644
--- a/pystruct/learners/ssvm.py
+++ b/pystruct/learners/ssvm.py
@@ -94,6 +94,11 @@ class BaseSSVM(BaseEstimator):
                 print("current loss: %f" % (display_loss))
             self.loss_curve_.append(display_loss)
 
+    def _reset_training_loss(self):
+        # the curve of an earlier fit
+        if hasattr(self, 'loss_curve_'):
+            del self.loss_curve_
+
     def _objective(self, X, Y):
         if type(self).__name__ == 'OneSlackSSVM':
             variant = 'one_slack'
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index a395b4d..6d624b2 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -137,6 +137,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
             self.t = 0
+            self._reset_training_loss()
             self.timestamps_ = [time()]
             self.objective_curve_ = []
             if self.learning_rate == "auto":
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index e0852ce..6261034 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -182,6 +182,7 @@ class SubgradientSSVM(BaseSSVM):
         if not warm_start:
             self.w = np.zeros(self.model.size_joint_feature)
             self.t = 0
+            self._reset_training_loss()
             self.objective_curve_ = []
             self.timestamps_ = [time()]
             if self.learning_rate == "auto":
-- 
2.43.0


From 2343dda2531b668889db2ae81368710c6db4975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 24/74] fix: SubgradientLatentSSVM.fit with n_jobs > 1 reads
 n_jobs

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 6d624b2..0287180 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -178,7 +178,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From 34deaf0f751d6077ca3a73134c65771dbf7327b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 25/74] fix: find_constraint_latent compares latent labelings
 with each other

---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From 3a511a888cac7dd8ee67a9e68eb9e47840ded111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 26/74] fix: SubgradientLatentSSVM.score compares visible
 labels

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 0287180..e613a91 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -264,12 +264,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From 17ddbdf973486855c30acec430c546068b1a8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 27/74] fix: setting LatentSSVM.C sets the parameter of the
 base learner

---
 pystruct/learners/latent_structured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..aef7542 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -179,7 +179,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From 777facee85dab771fd3c5e50cf4c0b835af0a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 28/74] fix: MultiClassClf.batch_joint_feature accepts the
 labels of parallel inference

---
 pystruct/models/unstructured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index e740b33..c2f9cad 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -233,6 +233,8 @@ class MultiClassClf(StructuredModel):
         return result.ravel()
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        # with several jobs, the learners pass lists of labels
+        Y = np.asarray(Y)
         result = np.zeros((self.n_states, self.n_features))
         if self.rescale_C:
             if Y_true is None:
-- 
2.43.0


From ba5ce6da65017dcaaf081a59efe56cf1b71bee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 29/74] fix: SubgradientLatentSSVM records a timestamp for each
 recorded objective

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index e613a91..3f00dbb 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -152,7 +152,6 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-                self.timestamps_.append(time() - self.timestamps_[0])
                 positive_slacks = 0
                 objective = 0.
                 #verbose = max(0, self.verbose - 3)
@@ -216,6 +215,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     print("positive slacks: %d, "
                           "objective: %f" %
                           (positive_slacks, objective))
+                self.timestamps_.append(time() - self.timestamps_[0])
                 self.objective_curve_.append(objective)
 
                 if self.verbose > 2:
-- 
2.43.0


From 7c646db93a20e440d0f8e2709aa7f2b6a08aafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 30/74] fix: LatentGraphCRF.latent forbids inconsistent states
 whatever the sign and scale of the potentials

---
 pystruct/models/latent_graph_crf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index c77e5b6..e83e126 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -174,9 +174,10 @@ class LatentGraphCRF(GraphCRF):
         # forbid h that is incompoatible with y
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[other_states] = -1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
+        max_entry = np.maximum(np.max(np.abs(unary_potentials)),
+                               np.max(np.abs(pairwise_potentials), initial=1))
+        unary_potentials[other_states] = -1e2 * max_entry
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
-- 
2.43.0


From 07aab721c500c7f158eb189ada679e7a106c935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 31/74] fix: LatentNodeCRF forbids illegal states whatever the
 sign and scale of the potentials

---
 pystruct/models/latent_node_crf.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 14cbd84..a539f8b 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -204,7 +204,9 @@ class LatentNodeCRF(GraphCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
-        max_entry = np.maximum(np.max(unaries), 1)
+        pairwise_potentials = self._get_pairwise_potentials(x, w)
+        max_entry = np.maximum(np.max(np.abs(unaries)),
+                               np.max(np.abs(pairwise_potentials), initial=1))
         unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
         # forbid observed states for latent nodes
         unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
@@ -232,8 +234,8 @@ class LatentNodeCRF(GraphCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
+        # (the forbidden entries are the smallest)
+        unary_potentials[np.arange(len(y)), y] = -np.min(unary_potentials)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
@@ -504,7 +506,9 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
-        max_entry = np.maximum(np.max(unaries), 1)
+        pairwise_potentials = self._get_pairwise_potentials(x, w)
+        max_entry = np.maximum(np.max(np.abs(unaries)),
+                               np.max(np.abs(pairwise_potentials), initial=1))
         unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
         # forbid observed states for latent nodes
         unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
@@ -532,8 +536,8 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
+        # (the forbidden entries are the smallest)
+        unary_potentials[np.arange(len(y)), y] = -np.min(unary_potentials)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 1cc000cbff11e0595b70e14868a9588d9eb2c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 32/74] fix: SaveLogger saves the final model if the file name
 contains %d

---
 pystruct/utils/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..79910fd 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -47,7 +47,8 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                # iteration can be "final"
+                file_name = file_name.replace("%d", str(iteration))
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From ee935dcceafe32e8b6c1df4788245690ff11f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 33/74] fix: SaveLogger restores the inference cache if saving
 fails

---
 pystruct/utils/logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 79910fd..4dfe0b3 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -60,8 +60,10 @@ class SaveLogger(object):
                 # don't store the large inference cache!
                 learner.inference_cache_, tmp = (None,
                                                  learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
+                try:
+                    pickle.dump(learner, f, -1)
+                finally:
+                    learner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From 901b232fbae28a7785828a470fe9ae43e225f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 34/74] fix: SaveLogger does not store the inference cache of a
 base learner

---
 pystruct/utils/logging.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 4dfe0b3..4322249 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -56,14 +56,15 @@ class SaveLogger(object):
     def save(self, learner, file_name):
         """Save the model to location specified in file_name."""
         with open(file_name, "wb") as f:
-            if hasattr(learner, 'inference_cache_'):
+            # latent learners keep the cache in their base learner
+            owner = getattr(learner, 'base_ssvm', learner)
+            if hasattr(owner, 'inference_cache_'):
                 # don't store the large inference cache!
-                learner.inference_cache_, tmp = (None,
-                                                 learner.inference_cache_)
+                owner.inference_cache_, tmp = (None, owner.inference_cache_)
                 try:
                     pickle.dump(learner, f, -1)
                 finally:
-                    learner.inference_cache_ = tmp
+                    owner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From 48f80168a3c14dbc348222d2dc826a70eb711e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 35/74] fix: StructuredPerceptron calls its logger

---
 pystruct/learners/structured_perceptron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 67800eb..be42360 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -163,10 +163,14 @@ class StructuredPerceptron(BaseSSVM):
                     if self.verbose:
                         print("Loss zero. Stopping.")
                     break
+                if self.logger is not None:
+                    self.logger(self, iteration)
 
         except KeyboardInterrupt:
             pass
         finally:
             if average is not False:
                 self.w = w_bar
+        if self.logger is not None:
+            self.logger(self, 'final')
         return self
-- 
2.43.0


From f6a032f46a8110bb930bd8327b6ccd239e454773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 36/74] fix: LatentSSVM calls its logger after the last
 iteration

---
 pystruct/learners/latent_structured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index aef7542..9702168 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -125,6 +125,8 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        if self.logger is not None:
+            self.logger(self, 'final')
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From ca6f978f5dd56345f4c9b9d5dd33d910cd085745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 37/74] fix: generate_bars uses one input channel per class
 even if a class does not occur

---
 pystruct/datasets/synthetic_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 2bc4008..134d15d 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -115,7 +115,7 @@ def generate_bars(n_samples=5, noise=5, bars_size=3, total_size=8,
                     Y[i, t, l:l + bars_size] = 1
 
     Y_flips = Y.copy()
-    n_classes = len(np.unique(Y))
+    n_classes = 3 if separate_labels else 2
     for y in Y_flips:
         flips = np.random.randint(total_size, size=[noise, 2])
         y[flips[:, 0], flips[:, 1]] = np.random.randint(n_classes, size=noise)
-- 
2.43.0


From 4866cc6f7cc921a914dd3e42e27c5ed059130d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 38/74] fix: max-product and unary inference return the energy
 if asked for it

---
 pystruct/inference/inference_methods.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 1b85793..9a48d00 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .linear_programming import lp_general_graph
 from .maxprod import inference_max_product
-from .common import _validate_params
+from .common import _validate_params, compute_energy
 
 def get_installed(method_filter=None):
     if method_filter is None:
@@ -112,14 +112,19 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         return inference_ogm(unary_potentials, pairwise_potentials, edges,
                              return_energy=return_energy, **kwargs)
     elif inference_method == "unary":
-        return inference_unaries(unary_potentials, pairwise_potentials, edges,
-                                 **kwargs)
+        y = inference_unaries(unary_potentials, pairwise_potentials, edges,
+                              **kwargs)
     elif inference_method == "max-product":
-        return inference_max_product(unary_potentials, pairwise_potentials,
-                                     edges, **kwargs)
+        y = inference_max_product(unary_potentials, pairwise_potentials,
+                                  edges, **kwargs)
     else:
         raise ValueError("inference_method must be 'max-product', 'lp', 'ad3',"
                          " 'qpbo' or 'ogm', got %s" % inference_method)
+    # solvers that do not report the energy of their solution
+    if return_energy:
+        return y, -compute_energy(unary_potentials, pairwise_potentials,
+                                  edges, y)
+    return y
 
 
 def inference_ogm(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 69f42582bbea375a6ac9d983b70e099df7716150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 39/74] fix: LatentDirectionalGridCRF.loss_augmented_inference
 accepts return_energy

---
 pystruct/models/latent_grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index 41e8d52..41dab4b 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -86,7 +86,9 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
                         symmetric=False)
         return np.array(H).reshape(Y.shape)
 
-    def loss_augmented_inference(self, x, h, w, relaxed=False):
+    def loss_augmented_inference(self, x, h, w, relaxed=False,
+                                 return_energy=False):
         h = LatentGridCRF.loss_augmented_inference(self, x, h, w,
-                                                   relaxed=relaxed)
+                                                   relaxed=relaxed,
+                                                   return_energy=return_energy)
         return h
-- 
2.43.0


From c9f3c953ffcf328597784a6630bedda4be0f8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 40/74] fix: ad3+ accepts shared pairwise potentials and
 returns edge marginals as rows

---
 pystruct/inference/inference_methods.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 9a48d00..2dfc2a5 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -504,10 +504,13 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
 
     """
     import ad3
-#     n_states, pairwise_potentials = \
-#         _validate_params(unary_potentials, pairwise_potentials, edges)
-#     unaries = unary_potentials.reshape(-1, n_states)
     bMultiType = isinstance(l_unary_potentials, list)
+    if not bMultiType:
+        unary_shape = l_unary_potentials.shape
+        n_states, l_pairwise_potentials = \
+            _validate_params(l_unary_potentials, l_pairwise_potentials,
+                             l_edges)
+        l_unary_potentials = l_unary_potentials.reshape(-1, n_states)
 
     res = ad3.general_constrained_graph(l_unary_potentials, l_edges
                                         , l_pairwise_potentials, constraints
@@ -520,6 +523,10 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
         print(solver_status)
 
     if relaxed and solver_status in ["fractional", "unsolved"]:
+        if not bMultiType:
+            l_unary_marginals = l_unary_marginals.reshape(unary_shape)
+            l_pairwise_marginals = l_pairwise_marginals.reshape(-1,
+                                                                n_states ** 2)
         y = (l_unary_marginals, l_pairwise_marginals)
     else:
         if inference_exception and solver_status in ["fractional", "unsolved"]:
-- 
2.43.0


From e4e1c0afd38ca7e4191abeb3aeffa79ad1f67515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 41/74] fix: TypedCRF.setInferenceException has an effect

---
 pystruct/models/crf.py       | 13 ++++++++++---
 pystruct/models/typed_crf.py |  5 +++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..3e8a23b 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -52,6 +52,10 @@ class CRF(StructuredModel):
                              " got %s instead."
                              % (self.n_features, features.shape[1]))
 
+    def _get_inference_options(self):
+        """additional arguments for the inference method"""
+        return {}
+
     def loss_augment_unaries(self, unary_potentials, y):
         """
         we define it as a method so that subclasses can specialize it.
@@ -115,7 +119,8 @@ class CRF(StructuredModel):
 
         return inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                   self.inference_method, relaxed=relaxed,
-                                  return_energy=return_energy)
+                                  return_energy=return_energy,
+                                  **self._get_inference_options())
 
     def inference(self, x, w, relaxed=False, return_energy=False,
                   constraints=None):
@@ -174,10 +179,12 @@ class CRF(StructuredModel):
                                       self.inference_method,
                                       relaxed=relaxed,
                                       return_energy=return_energy,
-                                      constraints=constraints)
+                                      constraints=constraints,
+                                      **self._get_inference_options())
         else:
             return inference_dispatch(unary_potentials, pairwise_potentials,
                                       edges,
                                       self.inference_method,
                                       relaxed=relaxed,
-                                      return_energy=return_energy)
+                                      return_energy=return_energy,
+                                      **self._get_inference_options())
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..a51adf5 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -170,6 +170,11 @@ class TypedCRF(CRF):
         return self.inference_exception
 
     # -------------- INTERNAL STUFF --------------------------
+    def _get_inference_options(self):
+        if self.inference_exception:
+            return {'inference_exception': True}
+        return {}
+
     def _set_size_joint_feature(self):
         """
         We have:
-- 
2.43.0


From 0aa73ff9fe0f1af0e66609d8597d6a15faf62875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 42/74] fix: TypedCRF.unflattenY accepts None for a type
 without nodes

---
 pystruct/models/typed_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index a51adf5..d54f4c2 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -138,7 +138,7 @@ class TypedCRF(CRF):
         """
         lY = list()
         i_start_node = 0
-        (l_node_features, l_edges, l_edge_features) = X
+        l_node_features = self._get_node_features(X)
         for n_start_state, nf in zip(self._l_type_startindex, l_node_features):
             n_nodes = nf.shape[0]
             Y = flatY[i_start_node: i_start_node+n_nodes] - n_start_state
-- 
2.43.0


From 416a92a0895865eb5bd725c9139d72ca61efed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 43/74] fix: n-slack learner accepts empty constraints and
 those of another learner

---
 pystruct/learners/n_slack_ssvm.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 70bb040..544917e 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -281,8 +281,16 @@ class NSlackSSVM(BaseSSVM):
             # no constraint might be found at all
             objective = 0.
         else:
-            # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            # warm start, maybe with constraints found by another learner
+            if not hasattr(self, 'timestamps_'):
+                self.objective_curve_ = []
+                self.primal_objective_curve_ = []
+                self.timestamps_ = [time()]
+            self.last_active = [np.zeros(len(sample))
+                                for sample in constraints]
+            objective = 0.
+            if any(len(sample) for sample in constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
-- 
2.43.0


From 80c29d8ba24a20a3e8e07e1a2f7d20c06febef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 44/74] fix: NSlackSSVM.fit with max_iter=0 does not raise

---
 pystruct/learners/n_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 544917e..05a735f 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -403,7 +403,7 @@ class NSlackSSVM(BaseSSVM):
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
 
-        if verbose:
+        if self.verbose:
             print("Computing final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-- 
2.43.0


From 3d478ed59d05c8c8ac764d20c581b32a27661f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 45/74] fix: LatentGraphCRF.max_loss accepts latent states, as
 loss does

---
 pystruct/learners/latent_structured_svm.py   | 3 ++-
 pystruct/learners/subgradient_latent_ssvm.py | 3 ++-
 pystruct/models/latent_graph_crf.py          | 7 +++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 9702168..9a0d1d0 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -156,7 +156,8 @@ class LatentSSVM(BaseSSVM):
         """
         losses = [self.model.base_loss(y, y_pred)
                   for y, y_pred in zip(Y, self.predict(X))]
-        max_losses = [self.model.max_loss(y) for y in Y]
+        max_loss = getattr(self.model, 'base_max_loss', self.model.max_loss)
+        max_losses = [max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
     @property
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 3f00dbb..773e17a 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -266,7 +266,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         """
         losses = [self.model.base_loss(y, y_pred)
                   for y, y_pred in zip(Y, self.predict(X))]
-        max_losses = [self.model.max_loss(y) for y in Y]
+        max_loss = getattr(self.model, 'base_max_loss', self.model.max_loss)
+        max_losses = [max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
     def _objective(self, X, Y):
diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index e83e126..889cbda 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -144,6 +144,13 @@ class LatentGraphCRF(GraphCRF):
     def label_from_latent(self, h):
         return self._states_map[h]
 
+    def max_loss(self, h):
+        # as in loss, h are latent states
+        return self.base_max_loss(self.label_from_latent(h))
+
+    def base_max_loss(self, y):
+        return np.sum(self.class_weight[y])
+
     def init_latent(self, X, Y):
         # treat all edges the same
         edges = [[self._get_edges(x)] for x in X]
-- 
2.43.0


From 3c34a27f26a3737112cd8c886d3e911bf6e3a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 46/74] fix: MultiLabelClf.joint_feature for integer features
 and unsigned labels

---
 pystruct/models/multilabel_svm.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index ed305a8..41ed794 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -85,13 +85,11 @@ class MultiLabelClf(CRF):
             # continuous pairwise marginals
             y_cont, pairwise_marginals = y
             y_signs = 2 * y_cont[:, 1] - 1
-            unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = y_signs[:, np.newaxis] * x
         else:
             # discrete y
-            y_signs = 2 * y - 1
-            unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            y_signs = 2. * y - 1
+            unary_marginals = y_signs[:, np.newaxis] * x
             pairwise_marginals = []
             for edge in self.edges:
                 # indicator of one of four possible states of the edge
-- 
2.43.0


From d5a164504c95dab0d3ea70f276c94c5bdb266662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 47/74] fix: edge feature models accept labels of a small
 integer type

---
 pystruct/models/edge_feature_graph_crf.py           | 2 +-
 pystruct/models/node_type_edge_feature_graph_crf.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 72cd6d4..d884267 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -188,7 +188,7 @@ class EdgeFeatureGraphCRF(GraphCRF):
             ## pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
             class_pair_ind = (y[edges[:, 1]] + self.n_states *
-                              y[edges[:, 0]])
+                              y[edges[:, 0]].astype(np.int64))
             pw[np.arange(len(edges)), class_pair_ind] = 1
 
         pw = np.dot(edge_features.T, pw)
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..2bf2a69 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -404,7 +404,8 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     assert (0 <= y2).all() and (y2 <=
                                                 self.l_n_states[typ2]).all()
                     # set the 1s where they should
-                    class_pair_ind = (y2 + _n_states_typ2 * y1)
+                    class_pair_ind = (y2 + _n_states_typ2 *
+                                      y1.astype(np.int64))
                     _pw[np.arange(_n_edges), class_pair_ind] = 1
                 l_pw.append(_pw)
 
-- 
2.43.0


From 8368d4cba5be28595db3583a4daf1ff91df5a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 48/74] fix: multi-type models check all data, also before
 inference

---
 .../node_type_edge_feature_graph_crf.py       |  4 ++--
 pystruct/models/typed_crf.py                  | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 2bf2a69..7d38c7d 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -173,10 +173,10 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
         if len(l_edges) != self.n_types**2:
             raise ValueError("Expected %d edge arrays "
                              "or None" % (self.n_types**2))
-        l_edge_features = self._get_edge_features(x)
-        if len(l_edge_features) != self.n_types**2:
+        if len(x[2]) != self.n_types**2:
             raise ValueError("Expected %d edge feature arrays "
                              "or None" % (self.n_types**2))
+        l_edge_features = self._get_edge_features(x)
 
         TypedCRF._check_size_x(self, x)
 
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index d54f4c2..aaf396f 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,11 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
@@ -192,9 +194,9 @@ class TypedCRF(CRF):
 
     def _check_size_x(self, x):
         # node_features are [  i_in_typ -> features ]
-        l_node_features = self._get_node_features(x)
-        if len(l_node_features) != self.n_types:
+        if len(x[0]) != self.n_types:
             raise ValueError("Expected one node feature array per node type.")
+        l_node_features = self._get_node_features(x)
 
         for typ, typ_features in enumerate(l_node_features):
             if typ_features.shape[1] != self.l_n_features[typ]:
@@ -232,6 +234,14 @@ class TypedCRF(CRF):
                                  " type %d to type %d" % (typ1, typ2))
         return True
 
+    def loss_augmented_inference(self, x, y, w, relaxed=False,
+                                 return_energy=False):
+        self._check_size_x(x)
+        self._check_size_xy(x, np.asarray(y))
+        return CRF.loss_augmented_inference(self, x, y, w, relaxed=relaxed,
+                                            return_energy=return_energy)
+    loss_augmented_inference.__doc__ = CRF.loss_augmented_inference.__doc__
+
     def _check_size_xy(self, X, Y):
         if Y is None:
             return
@@ -302,6 +312,7 @@ class TypedCRF(CRF):
             Unary weights.
         """
         self._check_size_w(w)
+        self._check_size_x(x)
         l_node_features = self._get_node_features(x)
 
         l_unary_potentials = []
-- 
2.43.0


From 46dda79ad0aefd03ef85831906006d1b133e2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 49/74] fix: grid models refuse inputs with a wrong number of
 features

---
 pystruct/models/grid_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/grid_crf.py b/pystruct/models/grid_crf.py
index de0f3e1..0ebefa4 100644
--- a/pystruct/models/grid_crf.py
+++ b/pystruct/models/grid_crf.py
@@ -46,7 +46,7 @@ class GridCRF(GraphCRF):
         return make_grid_edges(x, neighborhood=self.neighborhood)
 
     def _get_features(self, x):
-        return x.reshape(-1, self.n_features)
+        return x.reshape(-1, x.shape[-1])
 
     def _reshape_y(self, y, shape_x, return_energy):
         if return_energy:
-- 
2.43.0


From b82055f118b8b5f65301e0f55d31dd74afcfc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 50/74] fix: MultiLabelClf with one label or only n_features,
 and its size checks

---
 pystruct/models/multilabel_svm.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 41ed794..e8396d1 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -42,7 +42,7 @@ class MultiLabelClf(CRF):
 
     def _set_size_joint_feature(self):
         # try to set the size of joint_feature if possible
-        if self.n_features is not None and self.n_states is not None:
+        if self.n_features is not None and self.n_labels is not None:
             if self.edges is None:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
@@ -66,6 +66,11 @@ class MultiLabelClf(CRF):
         self._set_size_joint_feature()
         self._set_class_weight()
 
+    def _set_class_weight(self):
+        # one weight per state, not per label as for other models
+        self.class_weight = np.ones(self.n_states)
+        self.uniform_class_weight = True
+
     def _get_edges(self, x):
         return self.edges
 
@@ -80,7 +85,17 @@ class MultiLabelClf(CRF):
             self.edges.shape[0], self.n_states, self.n_states)
         return pairwise_params
 
+    def _check_size_x(self, x):
+        if np.shape(x) != (self.n_features,):
+            raise ValueError("Expected %d features, got x of shape %s"
+                             % (self.n_features, np.shape(x)))
+
     def joint_feature(self, x, y):
+        self._check_size_x(x)
+        n_labels = len(y[0]) if isinstance(y, tuple) else len(y)
+        if n_labels != self.n_labels:
+            raise ValueError("Expected %d labels, got %d"
+                             % (self.n_labels, n_labels))
         if isinstance(y, tuple):
             # continuous pairwise marginals
             y_cont, pairwise_marginals = y
-- 
2.43.0


From 6d4a4b212860ca2e3f22ee432f2fd4bc2eea7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 51/74] fix: BinaryClf and MultiClassClf refuse inputs of a
 wrong size

---
 pystruct/models/unstructured_svm.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index c2f9cad..c744206 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -41,6 +41,11 @@ class BinaryClf(StructuredModel):
         return ("%s, n_features: %d"
                 % (type(self).__name__, self.size_joint_feature))
 
+    def _check_size_x(self, x):
+        if np.shape(x) != (self.size_joint_feature,):
+            raise ValueError("Expected %d features, got x of shape %s"
+                             % (self.size_joint_feature, np.shape(x)))
+
     def joint_feature(self, x, y):
         """Compute joint feature vector of x and y.
 
@@ -62,6 +67,7 @@ class BinaryClf(StructuredModel):
         """
         if y not in [-1, 1]:
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
+        self._check_size_x(x)
         return y * x / 2.
 
     def batch_joint_feature(self, X, Y, Y_true=None):
@@ -90,6 +96,7 @@ class BinaryClf(StructuredModel):
             Predicted class label.
         """
         self.inference_calls += 1
+        self._check_size_x(x)
         return 2 * (np.dot(x, w) >= 0) - 1
 
     def batch_inference(self, X, w):
@@ -121,6 +128,7 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
+        self._check_size_x(x)
         return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
@@ -198,6 +206,11 @@ class MultiClassClf(StructuredModel):
         return ("%s(n_features=%d, n_classes=%d)"
                 % (type(self).__name__, self.n_features, self.n_states))
 
+    def _check_size_x(self, x):
+        if np.shape(x) != (self.n_features,):
+            raise ValueError("Expected %d features, got x of shape %s"
+                             % (self.n_features, np.shape(x)))
+
     def joint_feature(self, x, y, y_true=None):
         """Compute joint feature vector of x and y.
 
@@ -221,6 +234,7 @@ class MultiClassClf(StructuredModel):
         p : ndarray, shape (size_joint_feature,)
             Feature vector associated with state (x, y).
         """
+        self._check_size_x(x)
         # put feature vector in the place of the weights corresponding to y
         result = np.zeros((self.n_states, self.n_features))
         result[y, :] = x
@@ -276,6 +290,7 @@ class MultiClassClf(StructuredModel):
             Predicted class label.
         """
         self.inference_calls += 1
+        self._check_size_x(x)
         scores = np.dot(w.reshape(self.n_states, -1), x)
         if return_energy:
             return np.argmax(scores), np.max(scores)
@@ -306,6 +321,7 @@ class MultiClassClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
+        self._check_size_x(x)
         scores = np.dot(w.reshape(self.n_states, -1), x)
         other_classes = np.arange(self.n_states) != y
         if self.rescale_C:
-- 
2.43.0


From 4ddb78ff45cf09bf64abfa7c2cdd1b262545c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 52/74] fix: NSlackSSVM compares relaxed labelings as a whole,
 also of several types

---
 pystruct/learners/n_slack_ssvm.py   | 7 +++----
 pystruct/learners/one_slack_ssvm.py | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 05a735f..acff92f 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -16,7 +16,8 @@ from joblib import Parallel, delayed
 from sklearn.utils import gen_even_slices
 
 from .ssvm import BaseSSVM
-from ..utils import unwrap_pairwise, find_constraint
+from ..utils import find_constraint
+from .one_slack_ssvm import OneSlackSSVM
 
 
 class NSlackSSVM(BaseSSVM):
@@ -206,11 +207,9 @@ class NSlackSSVM(BaseSSVM):
     def _check_bad_constraint(self, y_hat, slack, old_constraints):
         if slack < 1e-5:
             return True
-        y_hat_plain = unwrap_pairwise(y_hat)
 
         already_active = np.any([True for y__, _, _ in old_constraints
-                                 if np.all(y_hat_plain ==
-                                           unwrap_pairwise(y__))])
+                                 if OneSlackSSVM.constraint_equal(y_hat, y__)])
         if already_active:
             return True
 
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 7f3037e..5c1ca33 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -303,7 +303,8 @@ class OneSlackSSVM(BaseSSVM):
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
                 return False
-        # might compare array and tuple... :-/  Was like that, I keep
+        if isinstance(y_2, tuple):
+            return False
         return np.all(y_1 == y_2)
 
     def _update_cache(self, X, Y, Y_hat):
-- 
2.43.0


From 068deea5ac08fbb73baf33d72bb23028ea310101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 53/74] fix: batch methods of BinaryClf and MultiClassClf
 refuse inputs of a wrong size

---
 pystruct/models/unstructured_svm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index c744206..6e5fea9 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -71,6 +71,8 @@ class BinaryClf(StructuredModel):
         return y * x / 2.
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        for x in X[:1]:
+            self._check_size_x(x)
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
@@ -100,6 +102,8 @@ class BinaryClf(StructuredModel):
         return 2 * (np.dot(x, w) >= 0) - 1
 
     def batch_inference(self, X, w):
+        for x in X[:1]:
+            self._check_size_x(x)
         return 2 * (np.dot(X, w) >= 0) - 1
 
     def loss_augmented_inference(self, x, y, w, relaxed=None):
@@ -132,6 +136,8 @@ class BinaryClf(StructuredModel):
         return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
+        for x in X[:1]:
+            self._check_size_x(x)
         return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
@@ -333,6 +339,8 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores)
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
+        for x in X[:1]:
+            self._check_size_x(x)
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         other_classes = (np.arange(self.n_states) != Y[:, np.newaxis])
         if self.rescale_C or self.uniform_class_weight:
@@ -343,6 +351,8 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores, axis=1)
 
     def batch_inference(self, X, w, relaxed=None):
+        for x in X[:1]:
+            self._check_size_x(x)
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         return np.argmax(scores, axis=1)
 
-- 
2.43.0


From 3278a561fa699fedfad7c7a49d5b9e2d8ff78e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 54/74] fix: forbidden states of latent models stay forbidden
 for nodes of many edges

---
 pystruct/inference/common.py        | 13 +++++++++++++
 pystruct/models/latent_graph_crf.py |  6 +++---
 pystruct/models/latent_node_crf.py  | 17 +++++++++--------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/pystruct/inference/common.py b/pystruct/inference/common.py
index a43c2a4..e5aaed3 100644
--- a/pystruct/inference/common.py
+++ b/pystruct/inference/common.py
@@ -49,3 +49,16 @@ def compute_energy(unary_potentials, pairwise_potentials, edges, labels):
     for edge, pw in zip(edges, pairwise_potentials):
         energy += pw[labels[edge[0]], labels[edge[1]]]
     return energy
+
+
+def forbidden_penalty(unary_potentials, pairwise_potentials, edges):
+    """Size of a unary penalty that no labeling can make up for.
+
+    All edges of a node together may favor a forbidden state, so the penalty
+    grows with the largest number of edges at a node.
+    """
+    max_entry = np.maximum(np.max(np.abs(unary_potentials)),
+                           np.max(np.abs(pairwise_potentials), initial=1))
+    max_degree = np.max(np.bincount(np.ravel(edges).astype(np.intp)),
+                        initial=0)
+    return np.maximum(1e2, 4. * max_degree) * max_entry
diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index 889cbda..7a22604 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -7,6 +7,7 @@ from sklearn.cluster import KMeans
 
 from . import GraphCRF
 from ..inference import inference_dispatch
+from ..inference.common import forbidden_penalty
 
 
 def kmeans_init(X, Y, all_edges, n_labels, n_states_per_label,
@@ -182,10 +183,9 @@ class LatentGraphCRF(GraphCRF):
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
         pairwise_potentials = self._get_pairwise_potentials(x, w)
-        max_entry = np.maximum(np.max(np.abs(unary_potentials)),
-                               np.max(np.abs(pairwise_potentials), initial=1))
-        unary_potentials[other_states] = -1e2 * max_entry
         edges = self._get_edges(x)
+        unary_potentials[other_states] = -forbidden_penalty(
+            unary_potentials, pairwise_potentials, edges)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (self.label_from_latent(h) != y).any():
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index a539f8b..f767a79 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -15,6 +15,7 @@ from sklearn.cluster import KMeans
 
 from . import GraphCRF
 from ..inference import inference_dispatch
+from ..inference.common import forbidden_penalty
 from ..utils import expand_sym, compress_sym
 
 
@@ -205,11 +206,11 @@ class LatentNodeCRF(GraphCRF):
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
         pairwise_potentials = self._get_pairwise_potentials(x, w)
-        max_entry = np.maximum(np.max(np.abs(unaries)),
-                               np.max(np.abs(pairwise_potentials), initial=1))
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        penalty = forbidden_penalty(unaries, pairwise_potentials,
+                                    self._get_edges(x))
+        unaries[:n_visible, self.n_labels:] = -penalty
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = -penalty
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -507,11 +508,11 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
         pairwise_potentials = self._get_pairwise_potentials(x, w)
-        max_entry = np.maximum(np.max(np.abs(unaries)),
-                               np.max(np.abs(pairwise_potentials), initial=1))
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        penalty = forbidden_penalty(unaries, pairwise_potentials,
+                                    self._get_edges(x))
+        unaries[:n_visible, self.n_labels:] = -penalty
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = -penalty
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
-- 
2.43.0


From 55302f3852f04b2d51797bd1c33b796c6217dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 55/74] fix: initial latent states of samples without hidden
 nodes

The slice [-n_hidden:] takes everything if there are none, and the sample got
more states than nodes.
---
 pystruct/models/latent_node_crf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index f767a79..540416a 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -44,7 +44,7 @@ def kmeans_init(X, Y, n_labels, n_hidden_states, latent_node_features=False):
 
         graph = sparse.coo_matrix((np.ones(edges.shape[0]), edges.T),
                                   (n_visible + n_hidden, n_visible + n_hidden))
-        graph = (graph + graph.T)[-n_hidden:, :n_visible]
+        graph = (graph + graph.T)[n_visible:, :n_visible]
 
         neighbors = graph * labels_one_hot.reshape(n_visible, -1)
         # normalize (for borders)
@@ -61,7 +61,10 @@ def kmeans_init(X, Y, n_labels, n_hidden_states, latent_node_features=False):
     km.fit(all_feats_stacked)
     H = []
     for y, feats in zip(Y, all_feats):
-        H.append(np.hstack([y, km.predict(feats) + n_labels]))
+        if len(feats):
+            H.append(np.hstack([y, km.predict(feats) + n_labels]))
+        else:
+            H.append(np.array(y))
 
     return H
 
-- 
2.43.0


From 9c4a52e9d56f04d541acae90e6d47abd28a86f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 56/74] fix: batch methods of BinaryClf and MultiClassClf
 accept labels in lists

With several jobs predictions come in a list, too: the comparison of two lists
is a single truth value, and score, the one-slack loss and the loss curve were
wrong for labels given as a list.
---
 pystruct/models/unstructured_svm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 6e5fea9..beff804 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -141,7 +141,7 @@ class BinaryClf(StructuredModel):
         return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
-        return Y != Y_hat
+        return np.asarray(Y) != np.asarray(Y_hat)
 
 
 class MultiClassClf(StructuredModel):
@@ -260,6 +260,7 @@ class MultiClassClf(StructuredModel):
             if Y_true is None:
                 raise ValueError("rescale_C is true, but no y_true was passed"
                                  " to joint_feature.")
+            Y_true = np.asarray(Y_true)
             for l in range(self.n_states):
                 mask = Y == l
                 class_weight = self.class_weight[Y_true[mask]][:, np.newaxis]
@@ -341,6 +342,7 @@ class MultiClassClf(StructuredModel):
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
         for x in X[:1]:
             self._check_size_x(x)
+        Y = np.asarray(Y)
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         other_classes = (np.arange(self.n_states) != Y[:, np.newaxis])
         if self.rescale_C or self.uniform_class_weight:
@@ -357,7 +359,8 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores, axis=1)
 
     def batch_loss(self, Y, Y_hat):
-        return self.class_weight[Y] * (Y != Y_hat)
+        Y = np.asarray(Y)
+        return self.class_weight[Y] * (Y != np.asarray(Y_hat))
 
     def loss(self, y, y_hat):
         return self.class_weight[y] * (y != y_hat)
-- 
2.43.0


From b5c62621ce27fea6823710e325137031fe2ce602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 57/74] fix: one-slack learner forgets an iteration that was
 interrupted

---
 pystruct/learners/one_slack_ssvm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 5c1ca33..afbffe2 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -540,7 +540,11 @@ class OneSlackSSVM(BaseSSVM):
                 if self.verbose > 5:
                     print(self.w)
         except KeyboardInterrupt:
-            pass
+            # forget an iteration that was not finished: its constraint has no
+            # dual variable, and would be taken for an old one by a warm start
+            del constraints[len(self.alphas):]
+            del self.primal_objective_curve_[len(self.objective_curve_):]
+            del self.cached_constraint_[len(self.objective_curve_):]
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
         # compute final objective:
-- 
2.43.0


From 43003f3fffee06c956e706cf6caad789e7cccb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 58/74] fix: curves of the n-slack learner stay aligned when it
 is interrupted

---
 pystruct/learners/n_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index acff92f..bebea10 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -352,8 +352,8 @@ class NSlackSSVM(BaseSSVM):
                                                            n_samples)
                         new_constraints += new_constraints_batch
 
-                self.objective_curve_.append(objective)
                 self._compute_training_loss(X, Y, iteration)
+                self.objective_curve_.append(objective)
 
                 primal_objective = (self.C
                                     * slack_sum
-- 
2.43.0


From 1c895fd8b8e4ac9896e151f6ea08e94172025978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 59/74] fix: LatentSSVM honours initialize=False

---
 pystruct/learners/latent_structured_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 9a0d1d0..31d7d67 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -78,7 +78,8 @@ class LatentSSVM(BaseSSVM):
             Leave this true except if you really know what you are doing.
         """
 
-        self.model.initialize(X, Y)
+        if initialize:
+            self.model.initialize(X, Y)
         w = np.zeros(self.model.size_joint_feature)
         constraints = None
         ws = []
-- 
2.43.0


From f69a4bbe8373700b4b03aea137e44058fb13e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 60/74] fix: one-slack learner resumes after its cache update
 was interrupted

---
 pystruct/learners/one_slack_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index afbffe2..7809958 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -333,8 +333,9 @@ class OneSlackSSVM(BaseSSVM):
             sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
+        # samples have no entries if the update of the cache was interrupted
         if (not getattr(self, 'inference_cache_', False) or
-                self.inference_cache_ is False):
+                not all(self.inference_cache_)):
             if self.verbose > 10:
                 print("Empty cache.")
             raise NoConstraint
-- 
2.43.0


From 636676d93e5fa2f882f49b637efe54bca811c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 61/74] fix: message passing normalises both messages of an
 edge

The message from edge[1] to edge[0] was shifted by the maximum of the
previous message, so that its constant kept changing: without damping it
never settles, and along directed cycles it grows without bound until
the messages overflow.
---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 110dbdd..eb2ac09 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -149,7 +149,7 @@ def iterative_max_product(unary_potentials, pairwise_potentials, edges,
                       - messages[e, 0])
             old_message = messages[e, 1].copy()
             new_message = np.max(update, axis=1)
-            new_message -= np.max(messages[e, 1])
+            new_message -= np.max(new_message)
             new_message = damping * old_message + (1 - damping) * new_message
             messages[e, 1] = new_message
             update = new_message - old_message
-- 
2.43.0


From 331615c1d96352a6ede4351eece979b478f1ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 62/74] fix: interrupted perceptron keeps its weights when
 nothing was averaged yet

---
 pystruct/learners/structured_perceptron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index be42360..a7e8d29 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -167,7 +167,9 @@ class StructuredPerceptron(BaseSSVM):
                     self.logger(self, iteration)
 
         except KeyboardInterrupt:
-            pass
+            if average is not False and n_obs == 0:
+                # nothing was averaged yet
+                w_bar = self.w
         finally:
             if average is not False:
                 self.w = w_bar
-- 
2.43.0


From 7e93a0f60dd14c1c2370da64e19ae446e42ae2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 63/74] fix: warm-started one-slack learner starts at the
 optimum for the present C

A warm start with another C stopped at once, with the weights for the old
C, if the most violated constraint was among the constraints already.
---
 pystruct/learners/one_slack_ssvm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 7809958..45f2f60 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -460,7 +460,11 @@ class OneSlackSSVM(BaseSSVM):
         self.last_slack_ = -1
         # no constraint might be found at all
         self.constraints_ = constraints
-        objective = self.objective_curve_[-1] if len(constraints) > 1 else 0.
+        objective = 0.
+        if len(constraints) > 1:
+            # start at the optimum of the constraints, C might have changed
+            del self.alphas[len(constraints) - 1:]
+            objective = self._solve_1_slack_qp(constraints, n_samples=len(X))
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From a9965a7986ffcb1387b27171b8b158a8af3f9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 64/74] fix: mini-batch subgradient learner stops when no
 sample violates its margin

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 6261034..bc6909a 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -312,6 +312,7 @@ class SubgradientSSVM(BaseSSVM):
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
                 objective += violation
-                positive_slacks += self.batch_size
+                if violation > 0:
+                    positive_slacks += len(X_b)
                 self._solve_subgradient(delta_joint_feature / len(X_b), n_samples, w)
         return objective, positive_slacks, w
-- 
2.43.0


From 9f7c260b1ab87949f020581b2993e56dacc904ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 65/74] fix: intercept of the linear SVM is optimal when
 support vectors are at the bound

---
 pystruct/learners/svm.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/svm.py b/pystruct/learners/svm.py
index 31d73f9..115b663 100644
--- a/pystruct/learners/svm.py
+++ b/pystruct/learners/svm.py
@@ -37,12 +37,9 @@ class SVM(object):
         self.sv_y = y[sv]
         print("%d support vectors out of %d points" % (len(self.a), n_samples))
 
-        # Intercept
-        self.b = 0
-        for n in range(len(self.a)):
-            self.b += self.sv_y[n]
-            self.b -= np.sum(self.a * self.sv_y * np.dot(self.sv, self.sv[n]))
-        self.b /= len(self.a)
+        # Intercept: the multiplier of the equality constraint.
+        # (support vectors at the bound do not determine it)
+        self.b = solution['y'][0]
 
         self.w = np.zeros(n_features)
         for n in range(len(self.a)):
-- 
2.43.0


From c441856f6a04636fcf56a17ae689b5c2fb81906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 66/74] fix: linear SVM takes integer labels

---
 pystruct/learners/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/svm.py b/pystruct/learners/svm.py
index 115b663..ce6a962 100644
--- a/pystruct/learners/svm.py
+++ b/pystruct/learners/svm.py
@@ -14,7 +14,7 @@ class SVM(object):
         Xy = X * y[:, np.newaxis]
         P = cvxopt.matrix(np.dot(Xy, Xy.T))
         q = cvxopt.matrix(np.ones(n_samples) * -1)
-        A = cvxopt.matrix(y, (1, n_samples))
+        A = cvxopt.matrix(np.asarray(y, dtype=float), (1, n_samples))
         b = cvxopt.matrix(0.0)
 
         tmp1 = np.diag(np.ones(n_samples) * -1)
-- 
2.43.0


From b8ac79846966330283730c16311e3a3039bd6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 67/74] fix: LatentSSVM.fit returns self like every other
 learner

---
 pystruct/learners/latent_structured_svm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 31d7d67..8afb315 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -128,6 +128,7 @@ class LatentSSVM(BaseSSVM):
                 self.logger(self, iteration)
         if self.logger is not None:
             self.logger(self, 'final')
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From 24a942787dc27a98780bda31fd0a4af5a5f52e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 68/74] fix: SVM.fit returns self

---
 pystruct/learners/svm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/svm.py b/pystruct/learners/svm.py
index ce6a962..ad5e5f4 100644
--- a/pystruct/learners/svm.py
+++ b/pystruct/learners/svm.py
@@ -44,6 +44,7 @@ class SVM(object):
         self.w = np.zeros(n_features)
         for n in range(len(self.a)):
             self.w += self.a[n] * self.sv_y[n] * self.sv[n]
+        return self
 
     def decision_function(self, X):
         return np.dot(X, self.w) + self.b
-- 
2.43.0


From d4d8cc5c858201704071dc0ace37ed2119b6d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 69/74] fix: max-product inference uses the tolerance it is
 given

---
 pystruct/inference/maxprod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index eb2ac09..07ce9e6 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -59,7 +59,8 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping,
+                                  tol=tol)
     return y
 
 
-- 
2.43.0


From b5a3b41244040f2f5e584ed5cb09f621985a5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 70/74] fix: plot_grid creates its own axes with a current
 matplotlib

---
 pystruct/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/plotting.py b/pystruct/utils/plotting.py
index cf3a32c..eb57fa2 100644
--- a/pystruct/utils/plotting.py
+++ b/pystruct/utils/plotting.py
@@ -30,7 +30,7 @@ def plot_grid(x, cmap=None, border_color=None, axes=None, linewidth=1):
     if axes is not None:
         axes.matshow(x, cmap=cmap)
     else:
-        axes = plt.matshow(x, cmap=cmap).get_axes()
+        axes = plt.matshow(x, cmap=cmap).axes
     axes.set_xticks(np.arange(1, x.shape[1]) - .5)
     axes.set_yticks(np.arange(1, x.shape[0]) - .5)
     if border_color is None:
-- 
2.43.0


From 60d2f98a8c90f8edd72e4b8e82ec322d1561978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 71/74] fix: plot_learning works with the perceptron

---
 pystruct/plot_learning.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 4f69a0a..8c370f8 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -43,6 +43,14 @@ def plot_learning(ssvm, time=True):
     print(ssvm)
     if hasattr(ssvm, 'base_ssvm'):
         ssvm = ssvm.base_ssvm
+    if not hasattr(ssvm, 'objective_curve_'):
+        # the perceptron has no objective, only the error of every epoch
+        fig, axes = plt.subplots(1, 1)
+        axes.plot(ssvm.loss_curve_)
+        axes.set_title("Training Error")
+        axes.set_xlabel('epochs')
+        plt.show()
+        return
     print("Iterations: %d" % len(ssvm.objective_curve_))
     print("Objective: %f" % ssvm.objective_curve_[-1])
     inference_run = None
-- 
2.43.0


From d80210fec6ce24ab85cc065b570beb34116c11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 72/74] fix: plot_learning plots an objective that was computed
 only once

---
 pystruct/plot_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 8c370f8..722ea96 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -69,8 +69,8 @@ def plot_learning(ssvm, time=True):
     if time and hasattr(ssvm, 'timestamps_'):
         print("loading timestamps")
         inds = np.array(ssvm.timestamps_)
-        inds = inds[2:len(ssvm.objective_curve_) + 1] / 60.
-        inds = np.hstack([inds, [inds[-1]]])
+        inds = inds[1:len(ssvm.objective_curve_) + 1] / 60.
+        inds = np.hstack([inds[1:], [inds[-1]]])
         axes[0].set_xlabel('training time (min)')
     else:
         inds = np.arange(len(ssvm.objective_curve_))
-- 
2.43.0


From 3d15ac8888fb66673f68c0b691520b044cfa6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 73/74] fix: plot_learning shows the training error at its
 iterations

---
 pystruct/plot_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 722ea96..8567f4a 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -96,7 +96,9 @@ def plot_learning(ssvm, time=True):
             axes[1].set_xlabel('QP iterations')
 
         try:
-            axes[1].plot(inds[::ssvm.show_loss_every], ssvm.loss_curve_)
+            # there is no loss for the final objective
+            inds = inds[::ssvm.show_loss_every][:len(ssvm.loss_curve_)]
+            axes[1].plot(inds, ssvm.loss_curve_)
         except:
             axes[1].plot(ssvm.loss_curve_)
 
-- 
2.43.0


From 942b69e6b42924fba3fcac2779a5c3b0dbd2d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 74/74] fix: inference with qpbo returns the energy when asked
 to

---
 pystruct/inference/inference_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 2dfc2a5..81b2b9f 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -97,8 +97,8 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         kwargs = kwargs.copy()
         kwargs.update(additional_kwargs)
     if inference_method == "qpbo":
-        return inference_qpbo(unary_potentials, pairwise_potentials, edges,
-                              **kwargs)
+        y = inference_qpbo(unary_potentials, pairwise_potentials, edges,
+                           **kwargs)
     elif inference_method == "lp":
         return inference_lp(unary_potentials, pairwise_potentials, edges,
                             return_energy=return_energy, **kwargs)
-- 
2.43.0

