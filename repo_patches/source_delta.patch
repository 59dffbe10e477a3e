From 9adea1deb7be97fd5d6c2297b8eb8ebbc09ca45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 01/35] fix: SimpleFullConnRadiusPRM raises instead of
 returning NotImplementedError for graph distances

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9a6bc40..523c445 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -308,7 +308,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
         return ids_within_conn_r[valid_motions], dists_from_query[within_conn_r][valid_motions]
 
     def _distance_in_graph(self, starts, goals):
-        return NotImplementedError('Cannot compute graph distance efficiently with this version.')
+        raise NotImplementedError('Cannot compute graph distance efficiently with this version.')
 
     @property
     def prm_graph(self) -> nk.Graph:
-- 
2.43.0


From 58bb86ea4461688f1b3242107567005043b59c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 02/35] fix: SimpleRadiusPRM applies its connection radius on
 the first build too

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 523c445..6d81422 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -562,7 +562,8 @@ class SimpleRadiusPRM(SimplePRM):
 
             # apply a doubling scheme for connection neighbors to obtain the threshold graph
             adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
-            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr)
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         else:  # otherwise, we (try to) reuse past computation
             past_n_samples = self._samples.shape[0]
-- 
2.43.0


From 26ec108bde1638eb2d168ab3b3a1ff9407f04707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 03/35] fix: collect edges before removing them in
 set_connection_radius (removal during iteration skips edges)

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 6d81422..f4d2078 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -459,7 +459,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in self._g_prm.iterEdgesWeights():
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
             if w >= new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
-- 
2.43.0


From 1c6b2394ab063dec06c98079d7633fda62a45727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 04/35] fix: keep edges of exactly the connection radius when
 truncating a k-NN PRM

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index f4d2078..a931662 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -460,7 +460,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
         # then iterate over and remove the edges that are too large
         for u, v, w in list(self._g_prm.iterEdgesWeights()):
-            if w >= new_conn_r:
+            if w > new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
         self.conn_r = new_conn_r
-- 
2.43.0


From 06027cbb775936fef928818b871d4ca89c464ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 05/35] fix: lowering k keeps edges that are still among the k
 nearest of the other endpoint

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index a931662..e03f62e 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -436,7 +436,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
         for u, vs in enumerate(throw_away_edge_list):
             for v in vs:
-                if self._g_prm.hasEdge(u, v):
+                if self._g_prm.hasEdge(u, v) and u not in self.master_edges[v, :new_k_nearest_neighbors]:
                     self._g_prm.removeEdge(u, v)
 
         self.k_neighbors = new_k_nearest_neighbors
-- 
2.43.0


From 68297185b17b5e767cceb001644bb2f55201be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 06/35] fix: reset() restores the parameters changed since
 construction

---
 nonasymptotic/prm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index e03f62e..94e2f3a 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -288,6 +288,8 @@ class SimpleFullConnRadiusPRM(SimplePRM):
         # self.conn_r = new_conn_r
 
     def reset(self):
+        self.conn_r = self.max_conn_r
+
         self._samples = None
         self._g_prm = None
 
@@ -474,6 +476,9 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
     def reset(self):
         self.conn_r = None
+        self.k_neighbors = self.max_k_neighbors
+        self.master_edges = None
+        self.master_dists = None
 
         self.certified_max_conn_r = None  # this is the maximal conn_r that we know will recapture the correct PRM graph
 
@@ -624,6 +629,9 @@ class SimpleRadiusPRM(SimplePRM):
         self._g_prm = None
         self._samples = None
         self.ann = None
+        self.k_neighbors = 16
+        self.g_sp_lookup = None
+        self.sample_to_lookup_ind = None
 
     @property
     def prm_graph(self) -> nk.Graph:
-- 
2.43.0


From 4eefb196735be37647234378fb18e5d3b9775c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 07/35] fix: NarrowPassage path direction and curve points live
 in dim dimensions

---
 nonasymptotic/envs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index ae0cf4e..e8db725 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -402,7 +402,7 @@ class NarrowPassage(Environment):
         ]
 
         self.dim = dim
-        self.line_dir = np.array([1.0] + [0.0] * self.dim)
+        self.line_dir = np.array([1.0] + [0.0] * (self.dim - 1))
 
         # (see is motion valid for definition of lines)
         self.coll_lines = [
@@ -423,7 +423,7 @@ class NarrowPassage(Environment):
 
     def arclength_to_curve_point(self, t_normed):
         t = np.clip(t_normed, 0.0, 1.0)
-        point_on_curve = np.array([-0.5] + [0.0] * self.dim)
+        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))
         point_on_curve[0] += t
         return point_on_curve
 
-- 
2.43.0


From e0151cbe86fedddf19ace796aa89b1a9d9dbc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 08/35] fix: NarrowPassage.distance_to_path measures to the
 hallway segment [-0.5, 0.5]

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index e8db725..708f6cb 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -459,7 +459,7 @@ class NarrowPassage(Environment):
         raise NotImplementedError
 
     def distance_to_path(self, points):
-        proj_points_clipped = np.clip(points[:, 0], 0.0, 1.0).reshape(-1, 1)
+        proj_points_clipped = np.clip(points[:, 0], -0.5, 0.5).reshape(-1, 1)
         return np.linalg.norm(points - proj_points_clipped * self.line_dir, axis=1)
 
     @property
-- 
2.43.0


From 9b1385336cf8105dcad254d7c6bc8a0dfa590153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 09/35] fix: detect_intersect reports collinear segments only
 when they overlap

---
 nonasymptotic/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/util.py b/nonasymptotic/util.py
index 5aefcd2..7051d51 100644
--- a/nonasymptotic/util.py
+++ b/nonasymptotic/util.py
@@ -37,7 +37,13 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
     # then do some vectorized casework (we're really going to rely on some numpy ufunc stuff)
 
     # first, check for collinearity (avoid some bad numerical cases we'd miss)
-    is_collinear = np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed2, 0.0)
+    is_collinear = (np.equal(cross_dir, 0.0)
+                    & np.equal(intersect_coeff_unnormed1, 0.0) & np.equal(intersect_coeff_unnormed2, 0.0))
+    # (collinear or degenerate segments meet only if they also overlap in both coordinates)
+    is_overlapping = np.all(
+        (np.minimum(s1e1, s1e2) <= np.maximum(s2e1, s2e2)) & (np.minimum(s2e1, s2e2) <= np.maximum(s1e1, s1e2)),
+        axis=1
+    )
 
     # next, check parallel  (avoid some bad numerics)
     # not actually necessary because of nice numpy numerics handling
@@ -51,4 +57,4 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
             (0 <= intersect_coeff2) & (intersect_coeff2 <= 1)
     )
 
-    return np.logical_or(is_cleanly_intersecting, is_collinear)
+    return np.logical_or(is_cleanly_intersecting, is_collinear & is_overlapping)
-- 
2.43.0


From 280429989702a53ef6e573510459098eecf7b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 10/35] fix: GrayCodeWalls checks the opening shared with the
 next cube, not with the goal cube

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 708f6cb..52e5960 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -673,7 +673,7 @@ class GrayCodeWalls(Environment):
 
             # compute shared opening on path:
             start_cube_center = start_cube + np.ones(self.dim) * 0.5
-            next_cube_center = goal_cube + np.ones(self.dim) * 0.5
+            next_cube_center = next_cube + np.ones(self.dim) * 0.5
             between_cubes_point = (start_cube_center + next_cube_center) / 2
 
             # solve for point at cube opening.
-- 
2.43.0


From 52b975422f14dd537231f23ed437cd765b41db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 11/35] fix: compute_net_radius_from_prob inverts the full
 Sauer-Shelah bound (missing + 1)

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 101c9f0..19b208b 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -72,7 +72,7 @@ def compute_net_radius_from_prob(dim, n_samples, failure_prob, vol_env, ad_hoc_m
 
     return (
             (2 / n_samples / measure_unit_sphere)
-            * (math.log2(ss_comb_sum) - math.log2(failure_prob))
+            * (math.log2(ss_comb_sum) + 1 - math.log2(failure_prob))
     ) ** (1 / dim)
 
 
-- 
2.43.0


From 301b981cacc42e14fc14a7d567e6de4c9dfe3fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 12/35] fix: Hoeffding mean variant scales its tail by the ball
 measure

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 19b208b..bbf412b 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -212,7 +212,7 @@ def compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m_samples, k_neighbo
     # all points will land in it and mess everything up)
     # but preserving some monotonicity properties of the prob bound
     tail_val = np.maximum(tail_val, 0.0)
-    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 / (p_r_ball ** 2)
+    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)
     return log_p_fail
 
 
-- 
2.43.0


From dffde3c9576dc6d8044dbbdf5f9a8f582e4820f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 13/35] fix: linear radius search advances its candidate

---
 nonasymptotic/bound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index bbf412b..6088ba7 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -313,6 +313,8 @@ def linear_radius_search_over_prob_bound(radius_to_prob, rad_lb, rad_ub, success
         if test_gamma > failure_prob:
             return rad
 
+        rad += tol
+
 
 
 ## ZOMBIE CODE
-- 
2.43.0


From a4aeb5786caf5d8015d9d6e2d0a6f77e76e3fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 14/35] fix: KGraphANN closes and removes its intermediate text
 file

---
 nonasymptotic/ann.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/ann.py b/nonasymptotic/ann.py
index e93e176..ec99944 100644
--- a/nonasymptotic/ann.py
+++ b/nonasymptotic/ann.py
@@ -60,7 +60,9 @@ class KGraphANN(ApproximateNearestNeighbor):
         nn_index.save_text(self.save_txt_path)
 
         # parse the text file and return
-        lines = open(self.save_txt_path, 'r').readlines()
+        with open(self.save_txt_path, 'r') as f:
+            lines = f.readlines()
+        os.remove(self.save_txt_path)
 
         # line 0 has the number of nodes. so skip that.
         # line i corresponds to row i-1 in the input data.
-- 
2.43.0


From 3585eefa7d8e32a8b4ccc235847c3a3334f2dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 15/35] fix: knn trial passes its seed as the seed, not as the
 length of the line

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index c2c712d..5b947ec 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -13,7 +13,7 @@ from nonasymptotic.ann import get_ann
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
-    env = StraightLine(dim, delta_clear, rng_seed)
+    env = StraightLine(dim, delta_clear, seed=rng_seed)
     knn_builder = get_ann("kgraph")
     record = []
 
-- 
2.43.0


From f8c6750856b721dbee6703b1f793eec2c0f78d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 16/35] fix: knn trial stops at the neighbor counts it actually
 computed

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 5b947ec..4962115 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -31,7 +31,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         build_time = graph_build_et - graph_build_st
 
         for nn in neighbor_schedule:
-            if nn > s:
+            if nn >= s:
                 break
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
-- 
2.43.0


From c4b8cec57390e49f3b8b45e89bce70c56e95e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 17/35] fix: straight line trial imports the package the
 submitted job can see

---
 exps/run_straight_line_optimality_trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 3d3442c..5a08f7c 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -36,8 +36,8 @@ import json
 import sys
 import os
 
-from envs import StraightLine
-from prm import SimpleNearestNeighborRadiusPRM
+from nonasymptotic.envs import StraightLine
+from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM
 
 
 def straight_line_trial(delta_clear, dim, rng_seed,
-- 
2.43.0


From 1657034f0a3e218586dd7cd3f0f51a756afb8ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 18/35] fix: record of a narrow trial without connections has a
 value for every column

---
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f0578ec..89a3a27 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -74,6 +74,8 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                  n_samples,
                  np.nan,
                  np.nan,
+                 np.nan,
+                 np.nan,
                  build_runtime,
                  0,
                  'no connections made',
-- 
2.43.0


From 27a0655ddab3949658d489e5d92781e358d22052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 19/35] fix: narrow micro test config names the dimensions per
 PRM type

---
 exps/config/narrow_micro_test_run.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exps/config/narrow_micro_test_run.json b/exps/config/narrow_micro_test_run.json
index 85f5168..252f18b 100644
--- a/exps/config/narrow_micro_test_run.json
+++ b/exps/config/narrow_micro_test_run.json
@@ -2,7 +2,8 @@
   "deltas": [0.1, 0.2],
   "radius_sample_schedule": [10, 100],
   "knn_sample_schedule": [100, 1000],
-  "dims_to_test": [2, 3],
+  "radius_dims_to_test": [2, 3],
+  "knn_dims_to_test": [2, 3],
   "knn_prm_max_neighbors": 8,
   "radius_prm_max_radius": 0.5,
   "n_trials": 5
-- 
2.43.0


From 9955d541d76a252a254d7a7a7cdb5424315681a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 20/35] fix: do not submit a job when the config file is
 missing

---
 exps/submit_and_run_experiment_job.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 4e3b488..d95c336 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -70,6 +70,7 @@ if __name__ == "__main__":
 
         except FileNotFoundError:
             print("Could not find the config file '%s'." % args.config_path)
+            sys.exit(1)
 
         # generate the submission script (and store in experiment directory)
         script_name = 'run_straight_line_trial.py' if args.type == 'line' else 'run_knn_radius_trial.py'
-- 
2.43.0


From 7afe0cdbf5952dea114ac3ccbf1dc527739adb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 21/35] fix: resume only picks runs of exactly the given
 experiment name

---
 exps/submit_and_run_experiment_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index d95c336..c6b6081 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -91,7 +91,7 @@ if __name__ == "__main__":
 
     else:  # for resuming, we just launch the corresponding script
         try:
-            dirs_with_exp_name = glob.glob('./results/%s*' % args.name)
+            dirs_with_exp_name = glob.glob('./results/%s_????????-??????' % args.name)
             dirs_with_exp_name.sort(key=os.path.getmtime)
             latest_exp_path = dirs_with_exp_name[-1]
             submit_script_path = os.path.join(latest_exp_path, 'submit_job.sh')
-- 
2.43.0


From 0bcc3c3131cfa9a44e0b12cf641730d5b271842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 22/35] fix: bound_plot imports the bound from the module that
 defines it

---
 exps/tamp_environment/turtlebot_move/bound_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index 63fb471..a44be54 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -1,4 +1,4 @@
-from nonasymptotic.util import compute_numerical_bound
+from nonasymptotic.bound import compute_numerical_bound
 import numpy as np
 import matplotlib.pyplot as plt
 import os
-- 
2.43.0


From f4e31494a24ab99988926530a115fc6d8c350a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 23/35] fix: --factor is a float option

---
 exps/tamp_environment/kuka_carry/run.py     | 2 +-
 exps/tamp_environment/turtlebot_move/run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index b16cee2..91f848c 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -608,7 +608,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--min-samples', default=500, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=30000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.04, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--theta-margin', default=np.pi/12.0, type=float, help='')
     parser.add_argument('--collision-buffer', default=0.02, type=float, help='')
diff --git a/exps/tamp_environment/turtlebot_move/run.py b/exps/tamp_environment/turtlebot_move/run.py
index e84d587..9a67a24 100644
--- a/exps/tamp_environment/turtlebot_move/run.py
+++ b/exps/tamp_environment/turtlebot_move/run.py
@@ -170,7 +170,7 @@ def main():
     parser.add_argument('--optimal', action='store_true', help='Runs in an anytime mode')
     parser.add_argument('--min-samples', default=10, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=2000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.05, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--seed', default=-1, type=int, help='Seed for selection of robot size and collision placement')
     parser.add_argument('--save-dir', default="./logs/debug", type=str, help='Directory to save planning results')
-- 
2.43.0


From c4c77a5f41c5ab0a9bdfa94b14029c2930542bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 24/35] fix: kuka experiment honours its --seed option

---
 exps/tamp_environment/kuka_carry/run.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 91f848c..ad2e1b7 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -622,6 +622,10 @@ def main():
 
     args = parser.parse_args()
 
+    if args.seed >= 0:
+        random.seed(args.seed)
+        np.random.seed(args.seed)
+
     pbu.connect(use_gui=args.vis)
 
     save_dir = os.path.join(args.save_dir, "{}_{}".format(str( np.random.randint(0,10000)), str(time.time())))
-- 
2.43.0


From 819bac061157a48a10c832d1c8fdfe7ee315a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 25/35] fix: box vertices scale each local axis by its own half
 extent

---
 exps/tamp_environment/kuka_carry/separating_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/separating_axis.py b/exps/tamp_environment/kuka_carry/separating_axis.py
index e1563d5..eeb9117 100644
--- a/exps/tamp_environment/kuka_carry/separating_axis.py
+++ b/exps/tamp_environment/kuka_carry/separating_axis.py
@@ -46,7 +46,7 @@ def compute_vertices_vectorized(centers, half_extents, orientations):
     signs = np.array([[-1, -1, -1], [-1, -1, 1], [-1, 1, -1], [-1, 1, 1],
                       [1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])
     vertices = centers[:, np.newaxis, :] + np.sum(
-        half_extents[:, np.newaxis, :, np.newaxis] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
+        half_extents[:, np.newaxis, np.newaxis, :] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
         axis=-1
     )
     return vertices
-- 
2.43.0


From 478d4408294b099db332172d6f4ab16345ffd097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 26/35] fix: NarrowPassage rejects motions whose endpoints lie
 outside the environment

---
 nonasymptotic/envs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 52e5960..87bbbed 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -444,7 +444,7 @@ class NarrowPassage(Environment):
         #   check three edges:
         #       [-0.5, -clearance -> -0.5], [-0.5 -> 0.5, -clearance], [0.5, -clearance -> -0.5]
 
-        is_colliding = np.zeros((start.shape[0])).astype(bool)
+        is_colliding = np.logical_not(self._is_in_env(start) & self._is_in_env(goal))
         for i_d in range(1, self.dim):
             start_proj = start[:, [0, i_d]]
             goal_proj = goal[:, [0, i_d]]
@@ -455,6 +455,12 @@ class NarrowPassage(Environment):
 
         return np.logical_not(is_colliding)
 
+    def _is_in_env(self, points):
+        in_env = np.zeros((points.shape[0])).astype(bool)
+        for lower, upper in self.lined_up_bounds:
+            in_env = in_env | np.all((lower <= points) & (points <= upper), axis=1)
+        return in_env
+
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError
 
-- 
2.43.0


From 8aa47715c9c2837ea683a97ebc124f7bf8e5810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 27/35] fix: resumed experiments skip completed trials and
 continue the seed sequence

---
 exps/run_knn_radius_trial.py               | 7 ++++++-
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 exps/run_straight_line_optimality_trial.py | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 4962115..400f577 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -75,7 +75,12 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # there is one seed per trial (and several rows), so the seeds count the completed trials
+    n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+    for _ in range(n_seeds):
+        rng.integers(0, 2 ** 32)  # ...and past the seeds they used
 else:
     all_tasks_record_df = None
 
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 89a3a27..9a98b24 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -264,6 +264,8 @@ if __name__ == '__main__':
         # see by how many we need to skip ahead.
         n_seeds = all_tasks_record_df['seed'].unique().shape[0]
         tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+        for _ in range(n_seeds):
+            rng.integers(0, 2 ** 32)  # ...and past the seeds they used
     else:
         all_tasks_record_df = None
 
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 5a08f7c..d06e6d1 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -172,7 +172,12 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # there is one seed per trial (and several rows), so the seeds count the completed trials
+    n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+    for _ in range(n_seeds):
+        rng.integers(0, 2 ** 32)  # ...and past the seeds they used
 else:
     all_tasks_record_df = None
 
-- 
2.43.0


From ac9d834821e50101adab5a8f068ba5239f92a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 28/35] fix: reloading the saved k-NN graph keeps the other
 truncation in force

---
 nonasymptotic/prm.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 94e2f3a..fc8ca06 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -426,6 +426,18 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             # (could make gigabytes of a difference)
             return self.certified_max_conn_r, np.unique(self.master_dists, axis=None)
 
+    def _remove_edges_beyond_k_nearest(self, k):
+        throw_away_edge_list = self.master_edges[:, k:]
+        for u, vs in enumerate(throw_away_edge_list):
+            for v in vs:
+                if self._g_prm.hasEdge(u, v) and u not in self.master_edges[v, :k]:
+                    self._g_prm.removeEdge(u, v)
+
+    def _remove_edges_beyond_radius(self, conn_r):
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
+            if w > conn_r:
+                self._g_prm.removeEdge(u, v)
+
     def set_nearest_neighbors(self, new_k_nearest_neighbors):
         if new_k_nearest_neighbors > self.max_k_neighbors:
             raise ArithmeticError('Cannot grow KNN PRM past the original set number of neighbors.')
@@ -433,13 +445,11 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we need to grow the graph, then reload the master graph.
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            if self.conn_r is not None:
+                self._remove_edges_beyond_radius(self.conn_r)
 
         # next, throw away edges we don't need.
-        throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
-        for u, vs in enumerate(throw_away_edge_list):
-            for v in vs:
-                if self._g_prm.hasEdge(u, v) and u not in self.master_edges[v, :new_k_nearest_neighbors]:
-                    self._g_prm.removeEdge(u, v)
+        self._remove_edges_beyond_k_nearest(new_k_nearest_neighbors)
 
         self.k_neighbors = new_k_nearest_neighbors
 
@@ -459,11 +469,10 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we are growing the radius, we need to reload the master graph
         if self.conn_r is not None and new_conn_r > self.conn_r:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            self._remove_edges_beyond_k_nearest(self.k_neighbors)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in list(self._g_prm.iterEdgesWeights()):
-            if w > new_conn_r:
-                self._g_prm.removeEdge(u, v)
+        self._remove_edges_beyond_radius(new_conn_r)
 
         self.conn_r = new_conn_r
 
-- 
2.43.0


From ad19acbb09f104d00488f90a5dcc7add59357a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 29/35] fix: SimpleRadiusPRM re-checks its neighbor count after
 doubling it while growing

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index fc8ca06..04d1b9d 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -601,7 +601,7 @@ class SimpleRadiusPRM(SimplePRM):
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-                adj_arr, dists_arr = self.ann.new_graph_from_data(self.prm_samples, self.k_neighbors)
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
                 self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                threshold_rad=self.conn_r)
 
-- 
2.43.0


From f9bba430032d905270eada3cf43ddf5ca4212dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 30/35] fix: demo constructs SimpleRadiusPRM with its required
 path distance argument

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 04d1b9d..f2f6b77 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -742,5 +742,5 @@ if __name__ == '__main__':
     from envs import GrayCodeWalls
 
     walls = GrayCodeWalls(2, 2, 0.1)
-    prm = SimpleRadiusPRM(0.2, walls.is_motion_valid, walls.sample_from_env)
+    prm = SimpleRadiusPRM(0.2, walls.is_motion_valid, walls.sample_from_env, walls.distance_to_path)
     prm.grow_to_n_samples(1000)
-- 
2.43.0


From 01f7b833eca4947ce23f5ae900f402efaa3e5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 31/35] fix: sample-count search keeps halving beyond 2^53
 samples

---
 nonasymptotic/bound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 6088ba7..4a02f84 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -118,7 +118,8 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
         elif m_samples_ub <= m_samples_lb:
             raise ArithmeticError('Something wrong happened.')
 
-        test_samples = int((m_samples_lb + m_samples_ub) / 2)
+        # (integer arithmetic: a float midpoint stops making progress beyond 2^53)
+        test_samples = (m_samples_lb + m_samples_ub) // 2
         # test if the tester is the sample count we're looking for
         cand_gamma = samples_to_log2_prob(test_samples)
         next_gamma = samples_to_log2_prob(test_samples + 1)
-- 
2.43.0


From e2a277a5ac0552bdf519a02ef6980f3d7c0f5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 32/35] fix: Gray-code curve enters the last cell from its
 predecessor in two dimensions

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 87bbbed..7a9bd2a 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -628,7 +628,7 @@ class GrayCodeWalls(Environment):
             cube_coords = np.array(self.no_walls_linear_list[-1])
             t_backup = 0.5 - (t - (t_leg - 1) * 0.5)
             t_point = cube_coords + np.ones(self.dim) * 0.5
-            t_point[-1] += t_backup
+            t_point += t_backup * (np.array(self.no_walls_linear_list[-2]) - cube_coords)
 
         else:
             cube = self.no_walls_linear_list[int(t_leg / 2)]
-- 
2.43.0


From 4cfe21aaca39f31c539f89a36ff5192ce562c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 33/35] fix: random_point_in_mpolygon marks every part a nested
 polygon leaves of a hole

---
 nonasymptotic/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index c1b3573..9ee63c9 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -2,7 +2,7 @@ import numpy as np
 import triangle as tr
 from matplotlib import pyplot as plt
 from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, covers, difference, \
-    get_coordinates, point_on_surface, Polygon, get_num_points, Point
+    get_coordinates, point_on_surface, Polygon, get_num_points, get_parts, Point
 from shapely.affinity import affine_transform
 from shapely.plotting import plot_polygon
 
@@ -45,7 +45,8 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
             interior_polys[i_inpoly] = difference(interior_polys[i_inpoly], exterior_polys[i_expoly])
 
         # compute correct representative points
-        interior_points = get_coordinates(point_on_surface(interior_polys))
+        # (a nested polygon that touches its hole more than once leaves several parts of the hole)
+        interior_points = get_coordinates(point_on_surface(get_parts(interior_polys)))
 
     elif isinstance(mpolygon, Polygon):
         mpoly_exterior_rings = np.array([mpolygon.exterior])
-- 
2.43.0


From 98fde195cfd3a2e9b77f44be48c847652e66716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:19 +0000
Subject: [PATCH 34/35] fix: random_point_in_mpolygon keeps its outer hole
 marker outside every polygon

---
 nonasymptotic/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index 9ee63c9..d4bccf9 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -95,10 +95,10 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
         'vertices': vertices,
         'segments': segments,
         'holes': np.concatenate([
-            np.array([[-100.0, -100.0]]),
+            np.array([mpolygon.bounds[:2]]) - 1.0,
             interior_points
         ])
-        # put a point that will always be outside because of boundedness of input space
+        # put a point that will always be outside: below and left of the bounds
     }
 
     triangle_out = tr.triangulate(data, 'p')  # so the boundaries are included in the triangulation
-- 
2.43.0


From 48b4f0bdfed3f7c20a36f9d8bb29560e94aa41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:19 +0000
Subject: [PATCH 35/35] fix: GrayCodeWalls.is_motion_valid tests the entry of
 the last cell against that cell's walls

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 7a9bd2a..9e32d8c 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -701,7 +701,7 @@ class GrayCodeWalls(Environment):
             start_cube = next_cube  # this needs to be done so we don't get trapped in the same cube
 
         # if start and goal are in the same cube, then return true because cubes are convex
-        return self.distance_to_wall(start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
+        return self._distance_to_wall_in_cube(start_cube, start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
 
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError('Not done yet!')
-- 
2.43.0

