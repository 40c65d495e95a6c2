From 69fb42de20de048ff8ce8ffe4f4f62232a2ed956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/96] fix: non-dominated sorting of infinite objective values
 (moocore requires finite ones)

---
 pymoo/util/nds/non_dominated_sorting.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/nds/non_dominated_sorting.py b/pymoo/util/nds/non_dominated_sorting.py
index 2071ba4..10f0a80 100644
--- a/pymoo/util/nds/non_dominated_sorting.py
+++ b/pymoo/util/nds/non_dominated_sorting.py
@@ -8,6 +8,13 @@ from moocore import pareto_rank, is_nondominated
 from pymoo.util.dominator import Dominator
 
 
+def to_finite(F):
+    # moocore assumes finite values: if there are others, use the (order-preserving) ranks per objective instead
+    if F.size == 0 or np.all(np.isfinite(F)):
+        return F
+    return np.column_stack([np.unique(f, return_inverse=True)[1] for f in F.T]).astype(float)
+
+
 class NonDominatedSorting:
     def __init__(self, epsilon=None, method="fast_non_dominated_sort", dominator=None) -> None:
         super().__init__()
@@ -33,7 +40,7 @@ class NonDominatedSorting:
             fronts = []
         elif self.dominator is None:
             F_sort = F - self.epsilon if self.epsilon is not None else F
-            ranks = pareto_rank(F_sort)
+            ranks = pareto_rank(to_finite(F_sort))
             fronts = []
             n_ranked = 0
             for r in range(ranks.max() + 1):
@@ -84,7 +91,7 @@ def find_non_dominated(F, _F=None):
     if len(F) == 0:
         return np.array([], dtype=int)
     if _F is None:
-        return np.where(is_nondominated(F.astype(float), keep_weakly=True))[0]
+        return np.where(is_nondominated(to_finite(F.astype(float)), keep_weakly=True))[0]
     else:
         M = Dominator.calc_domination_matrix(F, _F)
         return np.where(np.all(M >= 0, axis=1))[0]
-- 
2.43.0


From 095e799bb7887939286fa66470e89b7855bdfb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 02/96] fix: NonDominatedSorting ignored n_fronts when a
 dominator was given

---
 pymoo/util/nds/non_dominated_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/nds/non_dominated_sorting.py b/pymoo/util/nds/non_dominated_sorting.py
index 10f0a80..a62280b 100644
--- a/pymoo/util/nds/non_dominated_sorting.py
+++ b/pymoo/util/nds/non_dominated_sorting.py
@@ -64,7 +64,7 @@ class NonDominatedSorting:
             for front in raw:
                 fronts.append(np.array(front, dtype=int))
                 n_ranked += len(front)
-                if n_ranked >= n_stop_if_ranked:
+                if n_ranked >= n_stop_if_ranked or len(fronts) >= n_fronts:
                     break
 
         if only_non_dominated_front:
-- 
2.43.0


From 28359ae1bffe8d3e044a9af3c4fc2c8d717d7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 03/96] fix: bi-objective sorting put dominated points in a
 front and duplicates in different ones

---
 pymoo/functions/standard/non_dominated_sorting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..00cdb51 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -104,8 +104,8 @@ def _fast_biobjective_nondominated_sort(F):
     if n_points == 0:
         return []
 
-    # Sort by first objective ascending
-    sorted_indices = np.argsort(F[:, 0])
+    # Sort by first objective ascending (and by the second one for ties)
+    sorted_indices = np.lexsort((F[:, 1], F[:, 0]))
     sorted_F = F[sorted_indices]
 
     fronts = []
@@ -128,7 +128,8 @@ def _fast_biobjective_nondominated_sort(F):
             if current_indices:  # If there are already points in the current front
                 # Since points are sorted by first objective, we only need to check
                 # if its second objective is greater than the minimum second objective in front
-                if sorted_F[i, 1] >= min_second_obj:
+                # (the last point of the front has the minimum; only a copy of it is not dominated)
+                if sorted_F[i, 1] >= min_second_obj and not np.array_equal(sorted_F[i], sorted_F[current_indices[-1]]):
                     is_dominated = True
 
             if not is_dominated:
-- 
2.43.0


From 5650602549b171cf6b5b0c12ad7e492ff4136e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 04/96] fix: tree-based non-dominated sorting put equal points
 in different fronts

---
 pymoo/functions/standard/non_dominated_sorting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 00cdb51..5abe06a 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -361,10 +361,10 @@ def tree_based_non_dominated_sort(F):
     Returns:
         List of fronts.
     """
+    # sort the rows in F (equal ones are represented by a single node and share their front)
+    F, inverse = np.unique(F, axis=0, return_inverse=True)
+    inverse = inverse.reshape(-1)
     N, M = F.shape
-    # sort the rows in F
-    indices = np.lexsort(F.T[::-1])
-    F = F[indices]
 
     obj_seq = np.argsort(F[:, :0:-1], axis=1) + 1
 
@@ -383,7 +383,7 @@ def tree_based_non_dominated_sort(F):
     # convert forest to fronts
     fronts = [[] for _ in range(k)]
     for k, tree in enumerate(forest):
-        fronts[k].extend([indices[node.key] for node in tree.traversal()])
+        fronts[k].extend([i for node in tree.traversal() for i in np.where(inverse == node.key)[0]])
     return fronts
 
 
-- 
2.43.0


From 10130569013dbd4f5c28407d84285801d9cd3809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 05/96] fix: best order sort put equal points in different
 fronts and read beyond its table

---
 .../compiled/non_dominated_sorting.pyx         | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pymoo/functions/compiled/non_dominated_sorting.pyx b/pymoo/functions/compiled/non_dominated_sorting.pyx
index b30cc2b..3aa2fd2 100644
--- a/pymoo/functions/compiled/non_dominated_sorting.pyx
+++ b/pymoo/functions/compiled/non_dominated_sorting.pyx
@@ -256,8 +256,8 @@ cdef vector[vector[int]] c_best_order_sort(double[:,:] F):
 cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     cdef:
-        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z, s_next
-        vector[int] rank, counter, check_if_equal
+        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z
+        vector[int] rank, counter
         int[:,:] Q
         bool is_dominated
         vector[vector[int]] fronts, empty ,C
@@ -286,10 +286,6 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
             counter[s] += 1
     counter = vector[int](n_points)
 
-    check_if_equal = vector[int]()
-    for j in range(n_points):
-        check_if_equal.push_back(-1)
-
     rank = vector[int]()
     for i in range(n_points):
         rank.push_back(-1)
@@ -310,18 +306,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
             # index of the current solution
             s = Q[i, j]
-            s_next = Q[i + 1, j]
 
             # increase the counter for comparing this objective
             counter[s] += 1
 
-            # if not the last solution
-            if i < n_points - 1:
-                if check_if_equal[s] == -1:
-                    check_if_equal[s] = s_next
-                elif check_if_equal[s] != s_next:
-                    check_if_equal[s] = -2
-
             # if solution was already ranked before - just append it to the corresponding front
             if rank[s] != -1:
                 L[j][rank[s]].push_back(s)
@@ -345,7 +333,7 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
                         # get the domination relation - might return true even if equal
                         is_dominated = c_is_dominating_or_equal(F, e, s, C, counter[s])
 
-                        if is_dominated and check_if_equal[e] == s:
+                        if is_dominated:
                             is_equal = c_is_equal(F, s, e)
 
                         # if just one solution dominates the current one - go to the next front
-- 
2.43.0


From 5f181a9a69fe0606e23fc826d3323e1cedbc5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 06/96] fix: best order sort broke ties by an inverted
 permutation

---
 pymoo/functions/compiled/non_dominated_sorting.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/functions/compiled/non_dominated_sorting.pyx b/pymoo/functions/compiled/non_dominated_sorting.pyx
index 3aa2fd2..72e7de5 100644
--- a/pymoo/functions/compiled/non_dominated_sorting.pyx
+++ b/pymoo/functions/compiled/non_dominated_sorting.pyx
@@ -271,7 +271,7 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
     _Q = np.zeros((n_points, n_obj), dtype=np.intc)
     _Q[:, 0] = np.lexsort(F[:, ::-1].T, axis=0)
     for j in range(1, n_obj):
-        _Q[:, j] = np.lexsort(np.vstack([_Q[:, 0], F[:, j]]), axis=0)
+        _Q[:, j] = np.lexsort(np.vstack([np.argsort(_Q[:, 0]), F[:, j]]), axis=0)
     Q = _Q[:,:]
 
 
-- 
2.43.0


From a7dc1de03be54083d4da9db523e09c28aefc18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 07/96] fix: callback collections initialise and count their
 members; MOPSO_CD evaluates its initial swarm once

---
 pymoo/algorithms/moo/mopso_cd.py | 3 ---
 pymoo/core/callback.py           | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..bc327af 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -86,9 +86,6 @@ class MOPSO_CD(Algorithm):
         self.pbest = self.pop.copy()  # Personal bests
         self.pbest_f = np.full((self.pop_size, problem.n_obj), np.inf)  # Initialize with inf
 
-        # Evaluate initial population to set personal best objectives
-        self.evaluator.eval(self.problem, self.pop)
-
     def _initialize_infill(self):
         """Initialize the population and velocities."""
         # Initialize population using sampling
diff --git a/pymoo/core/callback.py b/pymoo/core/callback.py
index 3676ba3..cbd3a83 100644
--- a/pymoo/core/callback.py
+++ b/pymoo/core/callback.py
@@ -41,4 +41,4 @@ class CallbackCollection(Callback):
         self.callbacks: tuple[Callback, ...] = args
 
     def update(self, algorithm: "Algorithm") -> None:
-        [callback.update(algorithm) for callback in self.callbacks]
+        [callback(algorithm) for callback in self.callbacks]
-- 
2.43.0


From cce0ae6b7a5553d5f7acaef7fceadae82594b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 08/96] fix: adaptive constraint handling counts evaluations,
 CMAES keeps the objectives of infeasible solutions

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 8 ++------
 pymoo/constraints/adaptive.py           | 9 +++++++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 5460da9..a76bb88 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -212,12 +212,8 @@ class CMAES(LocalSearch):
             self.termination.force_termination = True
 
         else:
-            # set infeasible individual's objective values to np.nan - then CMAES can handle it
-            for ind in infills:
-                if not ind.feas:
-                    ind.F[:] = np.inf
-
-            F = infills.get("f").tolist()
+            # set infeasible individual's objective values to np.inf - then CMAES can handle it
+            F = [ind.f if ind.feas else np.inf for ind in infills]
             if not self.send_array_to_yield:
                 F = F[0]
 
diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..afda35d 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -43,7 +43,11 @@ class AttachConfigEvaluator(Evaluator):
             count_evals=count_evals,
             **kwargs,
         )
-        pop.apply(lambda ind: ind.set("config", self.config))
+        self.n_eval = self.wrapped.n_eval
+
+        for ind in [pop] if isinstance(pop, Individual) else pop:
+            ind.set("config", self.config)
+
         return pop
 
 
@@ -62,7 +66,8 @@ class AdaptiveConstraintHandling(MetaAlgorithm):
         self.default_config = deepcopy(self.config)
         self.adapted_config = deepcopy(self.config)
 
-    def _setup(self, _, **kwargs):
+    def _setup(self, problem, **kwargs):
+        super()._setup(problem, **kwargs)
         self.evaluator = AttachConfigEvaluator(self.evaluator, self.config)
 
     def _adapt_constraint_handling(self, config, infills=None, **kwargs):
-- 
2.43.0


From 07a693765ec534782b5334b0d17e89fe4f7edf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 09/96] fix: crowding variants handle ties and tiny sets like
 their definition; AGEMOEA2 accepts the ideal point

---
 pymoo/algorithms/moo/age2.py            |  5 +++++
 pymoo/functions/compiled/mnn.pyx        |  4 ++++
 pymoo/functions/compiled/pruning_cd.pyx | 15 +++++++--------
 pymoo/functions/standard/mnn.py         |  2 +-
 pymoo/functions/standard/pruning_cd.py  |  3 ++-
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pymoo/algorithms/moo/age2.py b/pymoo/algorithms/moo/age2.py
index 373c6d9..4773226 100644
--- a/pymoo/algorithms/moo/age2.py
+++ b/pymoo/algorithms/moo/age2.py
@@ -73,6 +73,11 @@ class AGEMOEA2(GeneticAlgorithm):
 @jit(nopython=True, fastmath=True)
 def project_on_manifold(point, p):
     dist = np.sum(point[point > 0] ** p) ** (1 / p)
+
+    # the ideal point itself has no direction to be projected along
+    if dist == 0.0:
+        return point.copy()
+
     return np.multiply(point, 1 / dist)
 
 
diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 1f754cd..3c35d5a 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -68,6 +68,10 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    # the two nearest neighbors need at least two other points
+    if N <= M or N <= 2:
+        return np.full(N, HUGE_VAL)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index fb7c1b7..dfca0c5 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -37,17 +37,16 @@ def calc_pcd(double[:, :] X, int n_remove=0):
     extremes_min = c_get_argmin(X)
     extremes_max = c_get_argmax(X)
 
-    extremes = cpp_set[int]()
-
-    for n in extremes_min:
-        extremes.insert(n)
-
-    for n in extremes_max:
-        extremes.insert(n)
-
     _I = np.argsort(X, axis=0, kind='mergesort').astype(np.intc)
     I = _I[:, :]
 
+    # the first and the last point in sorted order (with ties the last one is not the first maximum)
+    extremes = cpp_set[int]()
+
+    for n in range(M):
+        extremes.insert(I[0, n])
+        extremes.insert(I[N - 1, n])
+
     X = c_normalize_array(X, extremes_max, extremes_min)
 
     return c_calc_pcd(X, I, n_remove, N, M, extremes)
diff --git a/pymoo/functions/standard/mnn.py b/pymoo/functions/standard/mnn.py
index 5c206ea..f9f31f4 100644
--- a/pymoo/functions/standard/mnn.py
+++ b/pymoo/functions/standard/mnn.py
@@ -44,7 +44,7 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
     N = X.shape[0]
     M = X.shape[1]
 
-    if N <= M:
+    if N <= M or (twonn and N <= 2):
         return np.full(N, np.inf)
 
     if n_remove <= (N - M):
diff --git a/pymoo/functions/standard/pruning_cd.py b/pymoo/functions/standard/pruning_cd.py
index 15ff206..c879dd6 100644
--- a/pymoo/functions/standard/pruning_cd.py
+++ b/pymoo/functions/standard/pruning_cd.py
@@ -24,8 +24,9 @@ def calc_pcd(X, n_remove=0):
     else:
         n_remove = N - M
 
+    # the first and the last point in sorted order (with ties the last one is not the first maximum)
     extremes_min = np.argmin(X, axis=0)
-    extremes_max = np.argmax(X, axis=0)
+    extremes_max = N - 1 - np.argmax(X[::-1], axis=0)
 
     min_vals = np.min(X, axis=0)
     max_vals = np.max(X, axis=0)
-- 
2.43.0


From dd696481c4c46551dc854b3ed4eb4d6939b8c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 10/96] fix: every random decision of a run comes from its
 seeded generator, no state shared between instances

---
 pymoo/algorithms/moo/cmopso.py                        | 10 +++++++---
 pymoo/algorithms/moo/dnsga2.py                        |  2 +-
 pymoo/algorithms/moo/kgb.py                           |  4 ++--
 pymoo/algorithms/moo/nsga3.py                         |  1 +
 pymoo/algorithms/moo/spea2.py                         |  4 ++--
 pymoo/algorithms/moo/unsga3.py                        |  1 +
 pymoo/algorithms/soo/nonconvex/de.py                  |  2 +-
 pymoo/algorithms/soo/nonconvex/direct.py              |  2 +-
 pymoo/algorithms/soo/nonconvex/es.py                  |  4 +++-
 pymoo/algorithms/soo/nonconvex/g3pcx.py               |  2 +-
 pymoo/algorithms/soo/nonconvex/ga_niching.py          |  4 +++-
 pymoo/algorithms/soo/nonconvex/nrbo.py                |  2 +-
 pymoo/algorithms/soo/nonconvex/pattern.py             |  8 ++++++--
 pymoo/algorithms/soo/nonconvex/pso.py                 |  2 +-
 pymoo/algorithms/soo/nonconvex/pso_ep.py              |  2 +-
 pymoo/algorithms/soo/nonconvex/sres.py                |  4 +++-
 pymoo/core/operator.py                                |  2 +-
 pymoo/operators/control.py                            |  2 +-
 pymoo/operators/crossover/dex.py                      |  2 +-
 pymoo/operators/mutation/gauss.py                     |  2 +-
 pymoo/operators/repair/inverse_penalty.py             |  5 +++--
 pymoo/operators/survival/rank_and_crowding/classes.py |  4 +++-
 pymoo/util/archive.py                                 |  7 ++++---
 23 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..57fb1d2 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -172,7 +172,9 @@ class CMOPSO(Algorithm):
     def _setup(self, problem, **kwargs):
         super()._setup(problem, **kwargs)
         self.elites = MultiObjectiveArchive(
-            truncation=SurvivalTruncation(CrowdingDistanceTournamentSurvival(), problem=problem),
+            truncation=SurvivalTruncation(
+                CrowdingDistanceTournamentSurvival(), problem=problem, random_state=self.random_state
+            ),
             max_size=self.pop_size,
             truncate_size=self.elite_size,
         )
@@ -203,7 +205,7 @@ class CMOPSO(Algorithm):
         # create the offspring population
         off = Population.new(X=Xp, V=Vp)
         off = self.mutation(self.problem, off, random_state=self.random_state)
-        off = self.repair(self.problem, off)
+        off = self.repair(self.problem, off, random_state=self.random_state)
 
         return off
 
@@ -212,7 +214,9 @@ class CMOPSO(Algorithm):
 
         particles = Population.merge(self.pop, infills)
         self.elites = self.elites.add(particles)
-        self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, particles, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(CrowdingDistanceTournamentSurvival.__init__)
diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..954a0ee 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,7 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..06945a8 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = ps if ps is not None else {}
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..cc783eb 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -202,7 +202,7 @@ class SPEA2(GeneticAlgorithm):
             selection=selection,
             crossover=crossover,
             mutation=mutation,
-            survival=survival,
+            survival=survival if survival is not None else SPEA2Survival(normalize=True),
             eliminate_duplicates=eliminate_duplicates,
             n_offsprings=n_offsprings,
             output=output,
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..1ec47e2 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,7 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self, random_state=self.random_state
                 )
 
             return candidates
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index d1a2d00..61a1519 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -130,7 +130,9 @@ class ES(GeneticAlgorithm):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
     def _set_optimum(self):
         pop = self.pop if self.opt is None else Population.merge(self.opt, self.pop)
diff --git a/pymoo/algorithms/soo/nonconvex/g3pcx.py b/pymoo/algorithms/soo/nonconvex/g3pcx.py
index ed06c7e..1e28756 100644
--- a/pymoo/algorithms/soo/nonconvex/g3pcx.py
+++ b/pymoo/algorithms/soo/nonconvex/g3pcx.py
@@ -96,7 +96,7 @@ class G3PCX(LoopwiseAlgorithm):
 
             off = self.mutation(self.problem, off, algorithm=self, random_state=self.random_state)
 
-            self.repair(self.problem, off, algorithm=self)
+            self.repair(self.problem, off, algorithm=self, random_state=self.random_state)
 
             off = yield off
 
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..2979bed 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -60,7 +60,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +75,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +91,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index ed4bb17..b4e402b 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -164,7 +164,7 @@ class NRBO(Algorithm):
 
         off = Population.new(X=off)
 
-        off = self.repair.do(self.problem, off)
+        off = self.repair.do(self.problem, off, random_state=self.random_state)
         return off
 
     def _advance(self, infills=None, **kwargs):
diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 980a613..519067c 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -263,7 +263,7 @@ class PSO(Algorithm):
             )[0]
             off[k].set("X", mutant.X)
 
-        self.repair(problem, off)
+        self.repair(problem, off, random_state=self.random_state)
         self.sbest = sbest
 
         return off
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..8d96b30 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -142,7 +142,7 @@ class Swarm(InfillCriterion):
         #         delta.clear()
 
         # repair the individuals if necessary - disabled if repair is NoRepair
-        off = self.repair(problem, off, **kwargs)
+        off = self.repair(problem, off, random_state=random_state, **kwargs)
 
         # advance the parameter control by attaching them to the offsprings
         control.advance(off)
diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
diff --git a/pymoo/core/operator.py b/pymoo/core/operator.py
index a9d5ebc..dd9f08c 100644
--- a/pymoo/core/operator.py
+++ b/pymoo/core/operator.py
@@ -43,7 +43,7 @@ class Operator:
 
         # allow to have a built-in repair (can be useful to customize standard crossover)
         if self.repair is not None:
-            self.repair.do(problem, out)
+            self.repair.do(problem, out, random_state=kwargs.get("random_state"))
 
         if to_numpy:
             out = np.array([ind.X for ind in out])
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index 98f4bca..484a8dc 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -77,13 +77,14 @@ def inverse_penality_by_problem(problem, x, p, **kwargs):  # noqa: D417
 class InversePenaltyOutOfBoundsRepair(BoundsRepair):
     """Inverse penalty repair operator for out-of-bounds variables."""
 
-    def repair_out_of_bounds(self, problem, X, P=None, **kwargs):  # noqa: D417
+    def repair_out_of_bounds(self, problem, X, P=None, random_state=None, **kwargs):  # noqa: D417
         """Repair out-of-bounds variables using inverse penalty.
 
         Args:
             problem: The optimization problem.
             X: Population variables to repair.
             P: Parent solutions within bounds.
+            random_state: Random state for reproducibility.
 
         Returns:
             Repaired population.
@@ -94,7 +95,7 @@ class InversePenaltyOutOfBoundsRepair(BoundsRepair):
         n = len(X)
 
         for k in range(n):
-            X[k] = inverse_penality_by_problem(problem, X[k], P[k])
+            X[k] = inverse_penality_by_problem(problem, X[k], P[k], random_state=random_state)
 
         return X
 
diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..e8b3ac5 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -192,7 +192,9 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(  # noqa: E741
+                            CV, order="ascending", method="numpy", random_state=kwargs.get("random_state")
+                        )
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..50d28fd 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -14,15 +14,16 @@ class Truncation:
 
 
 class RandomTruncation(Truncation):
-    @default_random_state
+    @default_random_state(seed=1)
     def __call__(self, sols, k, random_state=None):
         return random_state.choice(sols, size=k, replace=False)
 
 
 class SurvivalTruncation(Truncation):
-    def __init__(self, survival, problem=None) -> None:
+    def __init__(self, survival, problem=None, random_state=None) -> None:
         super().__init__()
         self.survival = survival
+        self.random_state = random_state
 
         if problem is None:
             from pymoo.core.problem import Problem
@@ -33,7 +34,7 @@ class SurvivalTruncation(Truncation):
         self.problem = problem
 
     def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=self.random_state)
 
 
 class Archive(Population):
-- 
2.43.0


From 165255daa3c97c4cb732917a722e5271adb27d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 11/96] fix: progress of stopping criteria stays within [0, 1];
 minimum value, feasibility, indicator and RVEA budget criteria

---
 pymoo/algorithms/moo/rvea.py   |  3 ++-
 pymoo/core/termination.py      |  2 +-
 pymoo/termination/cv.py        |  2 +-
 pymoo/termination/fmin.py      | 11 +++++++++--
 pymoo/termination/indicator.py |  4 +++-
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..c55715c 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -79,7 +79,8 @@ class RVEA(GeneticAlgorithm):
 
         # if maximum functions termination convert it to generations
         if isinstance(self.termination, MaximumFunctionCallTermination):
-            n_gen = np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
+            # (the initial population is the first generation)
+            n_gen = 1 + max(0, np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings))
             self.termination = MaximumGenerationTermination(n_gen)
 
         # check whether the n_gen termination is used - otherwise this algorithm can be not run
diff --git a/pymoo/core/termination.py b/pymoo/core/termination.py
index f79b755..89ffd9e 100644
--- a/pymoo/core/termination.py
+++ b/pymoo/core/termination.py
@@ -24,7 +24,7 @@ class Termination:
         if self.force_termination:
             progress = 1.0
         else:
-            progress = self._update(algorithm)
+            progress = min(1.0, self._update(algorithm))
             assert progress >= 0.0, "Invalid progress was set by the TerminationCriterion."
 
         self.perc = progress
diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..7b9a240 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -45,4 +45,4 @@ class UntilFeasibleTermination(Termination):
             else:
                 self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        return max(0.0, 1 - cv / self.initial_cv)
diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..be63994 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -13,5 +13,12 @@ class MinimumFunctionValueTermination(Termination):
 
         if not any(opt.get("feas")):
             return 0.0
-        else:
-            return self.fmin / opt.get("F").min()
+
+        # only a feasible solution can reach the target value
+        f = opt.get("F")[opt.get("feas")].min()
+
+        if f <= self.fmin:
+            return 1.0
+
+        # the ratio measures progress only if both values are positive
+        return self.fmin / f if self.fmin > 0 else 0.0
diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..15c69cb 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -40,7 +40,9 @@ class IndicatorTermination(Termination):
         _min, _max = self._min, self._max
 
         # depending on the goal either set the percentage
-        if self.goal == "minimize":
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            perc = 1.0
+        elif self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
         else:
             perc = (v - _min) / (threshold - _min)
-- 
2.43.0


From df8aef9816aac58324b9f079fdbbd3c401a3ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 12/96] fix: the termination given to an algorithm's
 constructor is not replaced by the default

---
 pymoo/algorithms/base/local.py               | 3 ++-
 pymoo/algorithms/moo/mopso_cd.py             | 3 ++-
 pymoo/algorithms/moo/nsga2.py                | 3 ++-
 pymoo/algorithms/moo/omni.py                 | 3 ++-
 pymoo/algorithms/moo/pinsga2.py              | 3 ++-
 pymoo/algorithms/moo/spea2.py                | 3 ++-
 pymoo/algorithms/soo/nonconvex/brkga.py      | 3 ++-
 pymoo/algorithms/soo/nonconvex/cmaes.py      | 6 ++++--
 pymoo/algorithms/soo/nonconvex/de.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/es.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/ga.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 3 ++-
 pymoo/algorithms/soo/nonconvex/nelder.py     | 3 ++-
 pymoo/algorithms/soo/nonconvex/pso_ep.py     | 3 ++-
 pymoo/algorithms/soo/univariate/exp.py       | 3 ++-
 15 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/pymoo/algorithms/base/local.py b/pymoo/algorithms/base/local.py
index bd2d147..e8c56c7 100644
--- a/pymoo/algorithms/base/local.py
+++ b/pymoo/algorithms/base/local.py
@@ -21,7 +21,8 @@ class LocalSearch(LoopwiseAlgorithm, Algorithm):
         super().__init__(output=output, **kwargs)
 
         # the default termination if not specified otherwise
-        self.termination = RobustTermination(SingleObjectiveSpaceTermination(tol=1e-8), period=10)
+        if kwargs.get("termination") is None:
+            self.termination = RobustTermination(SingleObjectiveSpaceTermination(tol=1e-8), period=10)
 
         # the type of initial sampling
         initial = initial if "x0" not in kwargs else kwargs["x0"]
diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index bc327af..0be05a9 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -58,7 +58,8 @@ class MOPSO_CD(Algorithm):
         self.sampling = sampling
 
         # Initialize termination if not provided
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
         # Initialize components
         self.nds = NonDominatedSorting()
diff --git a/pymoo/algorithms/moo/nsga2.py b/pymoo/algorithms/moo/nsga2.py
index 53b0b5b..70d9ec9 100644
--- a/pymoo/algorithms/moo/nsga2.py
+++ b/pymoo/algorithms/moo/nsga2.py
@@ -117,7 +117,8 @@ class NSGA2(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
     def _set_optimum(self, **kwargs):
diff --git a/pymoo/algorithms/moo/omni.py b/pymoo/algorithms/moo/omni.py
index 80bc761..9d49e8f 100644
--- a/pymoo/algorithms/moo/omni.py
+++ b/pymoo/algorithms/moo/omni.py
@@ -424,7 +424,8 @@ class OmniOptimizer(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
     def _set_optimum(self, **kwargs):
diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 207726f..df84e1a 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -80,7 +80,8 @@ class PINSGA2(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
         self.ranking_type = ranking_type
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index cc783eb..63fbce4 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -209,7 +209,8 @@ class SPEA2(GeneticAlgorithm):
             advance_after_initial_infill=True,
             **kwargs,
         )
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
 
 parse_doc_string(SPEA2.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..5feb9e7 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -126,7 +126,8 @@ class BRKGA(GeneticAlgorithm):
         self.n_elites = n_elites
         self.n_mutants = n_mutants
         self.bias = bias
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
     def _infill(self):
         pop = self.pop
diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index a76bb88..a89a4d6 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -124,7 +124,8 @@ class CMAES(LocalSearch):
 
         super().__init__(x0=x0, output=output, **kwargs)
 
-        self.termination = NoTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NoTermination()
 
         self.es = None
         self.cma = None
@@ -242,7 +243,8 @@ class CMAES(LocalSearch):
 class SimpleCMAES(LocalSearch):
     def __init__(self, sigma=0.1, opts=None, normalize=True, **kwargs):
         super().__init__(**kwargs)
-        self.termination = NoTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NoTermination()
         self.es = None
         self.sigma = sigma
         self.normalize = normalize
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index 744f6d1..86a6f85 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -266,7 +266,8 @@ class DE(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
     def _initialize_advance(self, infills=None, **kwargs):
         FitnessSurvival().do(self.problem, self.pop, return_indices=True)
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index 61a1519..dc5754a 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -67,7 +67,8 @@ class ES(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
         self.phi = phi
         self.gamma = gamma
 
diff --git a/pymoo/algorithms/soo/nonconvex/ga.py b/pymoo/algorithms/soo/nonconvex/ga.py
index 595438a..76fa879 100644
--- a/pymoo/algorithms/soo/nonconvex/ga.py
+++ b/pymoo/algorithms/soo/nonconvex/ga.py
@@ -114,7 +114,8 @@ class GA(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
 
 class BGA(GA):
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 2979bed..c4e3ecc 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -223,7 +223,8 @@ class NicheGA(GA):
         )
 
         # self.termination = NicheTermination()
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
         # whether with rank one after clearing or just the best should be considered as optimal
         self.return_all_opt = return_all_opt
diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..7a79ef0 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -134,7 +134,8 @@ class NelderMead(LocalSearch):
         self.init_simplex_scale = init_simplex_scale
 
         # the termination used for nelder and mead if nothing else provided
-        self.termination = NelderAndMeadTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NelderAndMeadTermination()
 
     def _setup(self, problem, **kwargs):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index 8d96b30..41828ce 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -206,7 +206,8 @@ class EPPSO(GeneticAlgorithm):
         self.neighbors = None
 
         # choose the single-objective default termination
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
         # the particles that fly around to find good solutions (pop is the pbest)
         self.swarm = None
diff --git a/pymoo/algorithms/soo/univariate/exp.py b/pymoo/algorithms/soo/univariate/exp.py
index 1407a1c..3705454 100644
--- a/pymoo/algorithms/soo/univariate/exp.py
+++ b/pymoo/algorithms/soo/univariate/exp.py
@@ -12,7 +12,8 @@ from pymoo.termination.default import DefaultSingleObjectiveTermination
 class ExponentialSearch(Algorithm):
     def __init__(self, delta=0.05, **kwargs):
         super().__init__(**kwargs)
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
         self.alpha = delta
         self.point = None
 
-- 
2.43.0


From a50b70a8de6b54186e70dcdc3de0d814672d8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 13/96] fix: report only surviving, feasible solutions as
 optimum (NSGA3, RNSGA3, CTAEA, RVEA, NicheGA, MOPSO_CD), least-infeasible
 result, PINSGA2 without feasible solutions

---
 pymoo/algorithms/moo/ctaea.py                |  5 ++++-
 pymoo/algorithms/moo/mopso_cd.py             | 18 +++++++++++-------
 pymoo/algorithms/moo/nsga3.py                |  5 +++++
 pymoo/algorithms/moo/pinsga2.py              |  4 ++++
 pymoo/algorithms/moo/rnsga3.py               |  7 +++++++
 pymoo/algorithms/moo/rvea.py                 |  2 +-
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 10 ++++++++--
 pymoo/core/algorithm.py                      |  2 +-
 8 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 9eb6b73..3c04dd9 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -153,7 +153,10 @@ class CADASurvival:
             F = S.get("F")
             fronts, rank = NonDominatedSorting().do(F, return_rank=True)
             S.set("rank", rank)
-            self.opt = S[fronts[0]]
+            if len(Sc) > 0:  # only feasible solutions can be optimal
+                self.opt = Sc[NonDominatedSorting().do(Sc.get("F"), only_non_dominated_front=True)]
+            else:
+                self.opt = S[fronts[0]]
             return S
         else:  # Too many feasible individuals
             F = Sc.get("F")
diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 0be05a9..ba2a519 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -14,6 +14,7 @@ from pymoo.util import default_random_state
 from pymoo.util.archive import MultiObjectiveArchive
 from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.display.output import Output
+from pymoo.util.misc import has_feasible
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
@@ -171,10 +172,8 @@ class MOPSO_CD(Algorithm):
         else:
             combined = pop
 
-        # Find non-dominated solutions
-        F = combined.get("F")
-        I = self.nds.do(F, only_non_dominated_front=True)  # noqa: E741
-        non_dominated = combined[I]
+        # Find non-dominated feasible solutions (the least infeasible ones if there is none)
+        non_dominated = self.archive._find_opt(combined)
 
         # Apply archive size limit using crowding distance
         if len(non_dominated) > self.archive_size:
@@ -246,8 +245,11 @@ class MOPSO_CD(Algorithm):
     def _update_pbest(self, new_pop):
         """Update personal best positions."""
         for i in range(len(new_pop)):
-            # Compare new position with personal best
-            if self._dominates(new_pop[i].F, self.pbest_f[i]):
+            # Compare the violation first, then the new position with personal best
+            cv, pbest_cv = new_pop[i].CV[0], self.pbest[i].CV[0]
+            if cv > pbest_cv:
+                pass
+            elif cv < pbest_cv or self._dominates(new_pop[i].F, self.pbest_f[i]):
                 self.pbest[i] = new_pop[i].copy()
                 self.pbest_f[i] = new_pop[i].F.copy()
             elif self._dominates(self.pbest_f[i], new_pop[i].F):
@@ -277,8 +279,10 @@ class MOPSO_CD(Algorithm):
 
     def _set_optimum(self, **kwargs):
         """Set the optimum solutions from the archive."""
-        if len(self.archive) > 0:
+        if has_feasible(self.archive):
             self.opt = self.archive.copy()
+        elif len(self.archive) > 0:
+            self.opt = self.archive[:1].copy()
         else:
             self.opt = Population.empty()
 
diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index f54b6fd..e28ee32 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -205,6 +205,11 @@ class ReferenceDirectionSurvival(Survival):
             )
 
             survivors = np.concatenate((until_last_front, last_front[S].tolist()))
+
+            # only what survives is part of the population and can be reported as optimal
+            opt = pop[intersect(intersect(fronts[0], closest), survivors)]
+            self.opt = opt if len(opt) > 0 else pop[intersect(fronts[0], survivors)]
+
             pop = pop[survivors]
 
         return pop
diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index df84e1a..a61d29c 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -244,6 +244,10 @@ class PINSGA2(GeneticAlgorithm):
 
         F = F[rank == 0]
 
+        # as long as nothing feasible has been found there is nothing to show to the DM
+        if len(F) == 0:
+            return
+
         if self.historical_F is not None:
             self.historical_F = np.vstack((self.historical_F, F))
         else:
diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index 7dc697b..9c443ef 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -153,6 +153,8 @@ class AspirationPointSurvival(Survival):
         # set the optimum, first front and closest to all reference directions
         closest = np.unique(dist_matrix[:, np.unique(niche_of_individuals)].argmin(axis=0))
         self.opt = pop[intersect(fronts[0], closest)]
+        if len(self.opt) == 0:
+            self.opt = pop[fronts[0]]
 
         # if we need to select individuals to survive
         if len(pop) > n_survive:
@@ -178,6 +180,11 @@ class AspirationPointSurvival(Survival):
             )
 
             survivors = np.concatenate((until_last_front, last_front[S].tolist()))
+
+            # only what survives is part of the population and can be reported as optimal
+            opt = pop[intersect(intersect(fronts[0], closest), survivors)]
+            self.opt = opt if len(opt) > 0 else pop[intersect(fronts[0], survivors)]
+
             pop = pop[survivors]
 
         return pop
diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index c55715c..34e0742 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -101,7 +101,7 @@ class RVEA(GeneticAlgorithm):
         if not has_feasible(self.pop):
             self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
         else:
-            self.opt = self.pop
+            self.opt = self.pop[self.pop.get("FEAS").flatten()]
 
 
 # ---------------------------------------------------------------------------------------------------------
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index c4e3ecc..dc0f334 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -17,7 +17,7 @@ from pymoo.termination.xtol import DesignSpaceTermination
 from pymoo.util.clearing import EpsilonClearing
 from pymoo.util.display.column import Column
 from pymoo.util.display.single import SingleObjectiveOutput
-from pymoo.util.misc import norm_eucl_dist
+from pymoo.util.misc import has_feasible, norm_eucl_dist
 
 
 # =========================================================================================================
@@ -231,7 +231,13 @@ class NicheGA(GA):
 
     def _set_optimum(self, **kwargs):
         if self.return_all_opt:
-            self.opt = self.pop[self.pop.get("iter") == 1]
+            opt = self.pop[self.pop.get("iter") == 1]
+
+            # an infeasible solution is never optimal as long as a feasible one exists
+            if has_feasible(opt):
+                self.opt = opt[opt.get("FEAS").flatten()]
+            else:
+                super()._set_optimum()
         else:
             super()._set_optimum()
 
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..2e81b7e 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -284,7 +284,7 @@ class Algorithm:
 
         # otherwise get the values from the population
         else:
-            X, F, CV, G, H = self.opt.get("X", "F", "CV", "G", "H")  # type: ignore
+            X, F, CV, G, H = res.opt.get("X", "F", "CV", "G", "H")  # type: ignore
 
             # if single-objective problem and only one solution was found - create a 1d array
             if self.problem.n_obj == 1 and len(X) == 1:  # type: ignore
-- 
2.43.0


From 4bac8aff336b096f048f87205856c1d2fc7d0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 14/96] fix: pruning crowding distance and nearest-neighbour
 metrics follow their definition on ties and small fronts

---
 pymoo/functions/compiled/mnn.pyx                      | 10 +++++-----
 pymoo/functions/compiled/pruning_cd.pyx               |  6 +++++-
 pymoo/functions/standard/mnn.py                       |  5 ++++-
 pymoo/functions/standard/pruning_cd.py                |  9 ++++++---
 pymoo/operators/survival/rank_and_crowding/metrics.py |  5 ++---
 5 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 3c35d5a..e268fb5 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -53,7 +53,7 @@ def calc_mnn(double[:, :] X, int n_remove=0):
     for n in extremes_max:
         extremes.insert(n)
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    X = c_normalize_array(np.array(X), extremes_max, extremes_min)
 
     return c_calc_mnn(X, n_remove, N, M, extremes)
 
@@ -91,7 +91,7 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     for n in extremes_max:
         extremes.insert(n)
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    X = c_normalize_array(np.array(X), extremes_max, extremes_min)
 
     M = 2
 
@@ -211,7 +211,7 @@ cdef c_calc_mnn_iter(
                 continue
 
             # Replace at least the last neighbor
-            elif (D[i, j] <= D[i, Mnn[i, M-1]]) or (Mnn[i, M-1] == -1):
+            elif (Mnn[i, M-1] == -1) or (D[i, j] < D[i, Mnn[i, M-1]]):
 
                 # Iterate over current values
                 for m in range(M):
@@ -227,8 +227,8 @@ cdef c_calc_mnn_iter(
                     elif (j == Mnn[i, m]):
                         break
 
-                    # Distance satisfies condition
-                    elif (D[i, j] <= D[i, Mnn[i, m]]):
+                    # Distance satisfies condition (strictly, a neighbor further back may be at the same distance)
+                    elif (D[i, j] < D[i, Mnn[i, m]]):
 
                         # Replace higher values
                         Mnn[i, m + 1:] = Mnn[i, m:-1]
diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index dfca0c5..18d1246 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -47,7 +47,7 @@ def calc_pcd(double[:, :] X, int n_remove=0):
         extremes.insert(I[0, n])
         extremes.insert(I[N - 1, n])
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    X = c_normalize_array(np.array(X), extremes_max, extremes_min)
 
     return c_calc_pcd(X, I, n_remove, N, M, extremes)
 
@@ -106,6 +106,10 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
         # Update index
         n_removed = n_removed + 1
 
+        # Extremes are only dropped if nothing else is left - then all the others are extremes as well
+        if extremes.count(k) > 0:
+            continue
+
         # Get items to be recalculated
         calc_items = c_get_calc_items(I, k, M, N)
         for n in extremes:
diff --git a/pymoo/functions/standard/mnn.py b/pymoo/functions/standard/mnn.py
index f9f31f4..78a2819 100644
--- a/pymoo/functions/standard/mnn.py
+++ b/pymoo/functions/standard/mnn.py
@@ -66,7 +66,10 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    norm = max_vals - min_vals
+    norm[norm == 0] = 1.0
+
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
 
diff --git a/pymoo/functions/standard/pruning_cd.py b/pymoo/functions/standard/pruning_cd.py
index c879dd6..a52160a 100644
--- a/pymoo/functions/standard/pruning_cd.py
+++ b/pymoo/functions/standard/pruning_cd.py
@@ -33,7 +33,10 @@ def calc_pcd(X, n_remove=0):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    norm = max_vals - min_vals
+    norm[norm == 0] = 1.0
+
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
     d = np.full(N, np.inf)
@@ -56,7 +59,7 @@ def calc_pcd(X, n_remove=0):
 
     # sum up the distance to next and last and norm by objectives - also reorder from sorted list
     J = np.argsort(I, axis=0)
-    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1) / M
     d[H] = _d
     d[extremes] = np.inf
 
@@ -84,7 +87,7 @@ def calc_pcd(X, n_remove=0):
         dist_to_next[np.isnan(dist_to_next)] = 0.0
 
         J = np.argsort(I, axis=0)
-        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1) / M
         d[H] = _d
         d[extremes] = np.inf
 
diff --git a/pymoo/operators/survival/rank_and_crowding/metrics.py b/pymoo/operators/survival/rank_and_crowding/metrics.py
index a43de7f..f54e184 100644
--- a/pymoo/operators/survival/rank_and_crowding/metrics.py
+++ b/pymoo/operators/survival/rank_and_crowding/metrics.py
@@ -197,9 +197,8 @@ def _calc_mnn_fast(F, n_neighbors, **kwargs):
     # Distances pairwise (Inefficient)
     D = squareform(pdist(F, metric="sqeuclidean"))
 
-    # M neighbors
-    M = F.shape[1]
-    _D = np.partition(D, range(1, M + 1), axis=1)[:, 1 : M + 1]
+    # the nearest neighbors
+    _D = np.partition(D, range(1, n_neighbors + 1), axis=1)[:, 1 : n_neighbors + 1]
 
     # Metric d
     d = np.prod(_D, axis=1)
-- 
2.43.0


From 8917cd9aad30bffee2fe864947e082d72a84fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 15/96] fix: get_duplicates failed when the last rows are
 duplicates

---
 pymoo/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..7cdbb5d 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -146,7 +146,7 @@ def get_duplicates(M: Any) -> list:
 
     while i < S.shape[0] - 1:
         l = []  # noqa: E741
-        while np.all(S[i, :] == S[i + 1, :]):
+        while i < S.shape[0] - 1 and np.all(S[i, :] == S[i + 1, :]):
             l.append(I[i])
             i += 1
         if len(l) > 0:
-- 
2.43.0


From 7649e3eaae514aa20c3d6d280a27f080cf4751b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 16/96] fix: variables with equal bounds left the search space
 or became NaN (bounce back, periodic, denormalization, normalized distances)

---
 pymoo/operators/repair/bounce_back.py   |  6 +++++-
 pymoo/operators/repair/bounds_repair.py |  6 +++++-
 pymoo/util/misc.py                      | 19 ++++++++++++++++---
 pymoo/util/normalization.py             |  5 ++++-
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..9a8e1eb 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -23,8 +23,12 @@ def bounce_back(X, xl, xu):
     xl = np.repeat(xl[None, :], X.shape[0], axis=0)
     xu = np.repeat(xu[None, :], X.shape[0], axis=0)
 
+    # if both bounds are equal there is no range to bounce back in - only one value is left
+    fixed = xl == xu
+    X[fixed] = xl[fixed]
+
     # otherwise bounds back into the feasible space
-    _range = xu - xl
+    _range = np.where(fixed, 1.0, xu - xl)
     X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
     X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
 
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..f024edc 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -114,7 +114,11 @@ def repair_periodic(Xp, xl, xu):
     """
     XL, XU = repeat_bounds(xl, xu, len(Xp))
 
-    S = XU - XL
+    # if both bounds are equal there is no period - only one value is left
+    fixed = XL == XU
+    Xp[fixed] = XL[fixed]
+
+    S = np.where(fixed, 1.0, XU - XL)
 
     I = np.where(Xp < XL)  # noqa: E741
     Xp[I] = XU[I] - (XL[I] - Xp[I]) % S[I]
diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 7cdbb5d..097a04b 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -170,6 +170,19 @@ def func_euclidean_distance(a: Any, b: Any) -> Any:
     return np.sqrt(((a - b) ** 2).sum(axis=1))
 
 
+def _range(xl: Any, xu: Any) -> Any:
+    """Range of each variable, where a variable with equal bounds does not contribute to a distance.
+
+    Args:
+        xl: Lower bounds.
+        xu: Upper bounds.
+
+    Returns:
+        Ranges to divide by.
+    """
+    return np.where(xl == xu, 1.0, xu - xl)
+
+
 def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     """Create normalized euclidean distance function.
 
@@ -180,7 +193,7 @@ def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.sqrt((((a - b) / (xu - xl)) ** 2).sum(axis=1))
+    return lambda a, b: np.sqrt((((a - b) / _range(xl, xu)) ** 2).sum(axis=1))
 
 
 def norm_eucl_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -237,7 +250,7 @@ def func_norm_manhatten_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).sum(axis=1)
+    return lambda a, b: np.abs((a - b) / _range(xl, xu)).sum(axis=1)
 
 
 def norm_manhatten_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -294,7 +307,7 @@ def func_norm_tchebychev_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).max(axis=1)
+    return lambda a, b: np.abs((a - b) / _range(xl, xu)).max(axis=1)
 
 
 def norm_tchebychev_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..c8ab355 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -48,7 +48,8 @@ class ZeroToOneNormalization(Normalization):
         xl, xu = np.copy(xl).astype(float), np.copy(xu).astype(float)
 
         # if both are equal then set the upper bound to none (always the 0 or lower bound will be returned then)
-        xu[xl == xu] = np.nan
+        self.equal = xl == xu
+        xu[self.equal] = np.nan
 
         # store the lower and upper bounds
         self.xl, self.xu = xl, xu
@@ -100,6 +101,8 @@ class ZeroToOneNormalization(Normalization):
 
         X[..., xu_only] = xu[xu_only] - (1.0 - N[..., xu_only])
 
+        X[..., self.equal] = xl[self.equal]
+
         return X
 
 
-- 
2.43.0


From 71dda016b1f9fe4ee7b6400da4d71ceb82e582c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 17/96] fix: CMA-ES variants drew from and seeded the global
 random state

---
 pymoo/algorithms/soo/nonconvex/cmaes.py |  9 ++++++---
 pymoo/vendor/vendor_cmaes.py            | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index a89a4d6..ff2f210 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -13,7 +13,7 @@ from pymoo.util.display.column import Column
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.normalization import ZeroToOneNormalization, NoNormalization
 from pymoo.util.optimum import filter_optimum
-from pymoo.vendor.vendor_cmaes import my_fmin
+from pymoo.vendor.vendor_cmaes import Randn, my_fmin
 
 
 # =========================================================================================================
@@ -268,12 +268,15 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["seed"] = self.seed
 
     def _initialize_advance(self, infills=None, **kwargs):
         super()._initialize_advance(infills, **kwargs)
         x = self.norm.forward(self.x0.X)
-        self.es = cma.CMAEvolutionStrategy(x, self.sigma, inopts=self.opts)
+
+        # do not let it seed and draw from the global random number generator
+        seed = self.seed if self.seed is not None else self.random_state.integers(0, 2**31)
+        opts = {**self.opts, "seed": np.nan, "randn": Randn(seed)}
+        self.es = cma.CMAEvolutionStrategy(x, self.sigma, inopts=opts)
 
     def _infill(self):
         X = self.norm.backward(np.array(self.es.ask()))
diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index a9f86b7..e76aebe 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -16,6 +16,17 @@ all_stoppings: list = []
 def void(_):
     pass
 
+class Randn:
+    """A source of normally distributed numbers for `cma` of its own, which by default seeds and draws from
+    the global generator of numpy. The numbers for a seed are the same."""
+
+    def __init__(self, seed):
+        self.random_state = np.random.RandomState(seed)
+
+    def __call__(self, *shape):
+        return self.random_state.randn(*shape)
+
+
 @default_random_state
 def my_fmin(x0,
             sigma0,
@@ -127,10 +138,13 @@ def my_fmin(x0,
                 # ignore further input args and keep original options
             else:  # default case
                 # Set seed from random_state for deterministic behavior
-                if 'seed' not in opts or opts['seed'] is None:
+                if not isinstance(opts.get('seed'), (int, np.integer)):
                     # Generate a seed from the random_state for CMA-ES
                     opts['seed'] = random_state.integers(0, 2**31)
-                
+
+                # the random numbers of this (re)start - not drawn from the global generator
+                seed, opts['seed'], opts['randn'] = opts['seed'], np.nan, Randn(opts['seed'])
+
                 if irun and eval(str(fmin_options['restart_from_best'])):
                     utils.print_warning('CAVE: restart_from_best is often not useful',
                                         verbose=opts['verbose'])
@@ -153,6 +167,7 @@ def my_fmin(x0,
             es.objective_function = objective_function  # only for the record
 
             opts = es.opts  # processed options, unambiguous
+            opts['seed'] = seed
             # a hack:
             fmin_opts = CMAOptions("unchecked", **fmin_options.copy())
             for k in fmin_opts:
-- 
2.43.0


From e0b28e4767e47205bb7f0cc71d4d843e9dbc9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 18/96] fix: duplicate elimination reports the right indices
 and hash-based elimination finds duplicates

---
 pymoo/core/duplicate.py | 49 +++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..691762c 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -18,33 +18,25 @@ class DuplicateElimination:
             self.func = default_attr
 
     def do(self, pop, *args, return_indices=False, to_itself=True):
-        original = pop
+        # the position of each individual in the population given
+        n_total = len(pop)
+        index = np.arange(n_total)
 
         if len(pop) == 0:
             return (pop, [], []) if return_indices else pop
 
         if to_itself:
-            pop = pop[~self._do(pop, None, np.full(len(pop), False))]
+            keep = ~self._do(pop, None, np.full(len(pop), False))
+            pop, index = pop[keep], index[keep]
 
         for arg in args:
-            if len(arg) > 0:
-                if len(pop) == 0:
-                    break
-                elif len(arg) == 0:
-                    continue
-                else:
-                    pop = pop[~self._do(pop, arg, np.full(len(pop), False))]
+            if len(arg) > 0 and len(pop) > 0:
+                keep = ~self._do(pop, arg, np.full(len(pop), False))
+                pop, index = pop[keep], index[keep]
 
         if return_indices:
-            no_duplicate, is_duplicate = [], []
-            H = set(pop)
-
-            for i, ind in enumerate(original):
-                if ind in H:
-                    no_duplicate.append(i)
-                else:
-                    is_duplicate.append(i)
-
+            no_duplicate = index.tolist()
+            is_duplicate = np.setdiff1d(np.arange(n_total), index).tolist()
             return pop, no_duplicate, is_duplicate
         else:
             return pop
@@ -118,6 +110,9 @@ class ElementwiseDuplicateElimination(DefaultDuplicateElimination):
 
 
 def to_hash(x):
+    if isinstance(x, np.ndarray):
+        x = x.tolist()
+
     try:
         h = hash(x)
     except:  # noqa: E722
@@ -129,8 +124,12 @@ def to_hash(x):
     return h
 
 
+def default_value(ind):
+    return ind.X
+
+
 class HashDuplicateElimination(DuplicateElimination):
-    def __init__(self, func=to_hash) -> None:
+    def __init__(self, func=default_value) -> None:
         super().__init__()
         self.func = func
 
@@ -139,21 +138,19 @@ class HashDuplicateElimination(DuplicateElimination):
 
         if other is not None:
             for o in other:
-                val = self.func(o)
-                H.add(self.func(val))
+                H.add(to_hash(self.func(o)))
 
         for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = self.func(val)
+            h = to_hash(self.func(ind))
 
             if h in H:
                 is_duplicate[i] = True
-            else:
+            elif other is None:
                 H.add(h)
 
         return is_duplicate
 
 
 class NoDuplicateElimination(DuplicateElimination):
-    def do(self, pop, *args, **kwargs):
-        return pop
+    def do(self, pop, *args, return_indices=False, **kwargs):
+        return (pop, list(range(len(pop))), []) if return_indices else pop
-- 
2.43.0


From 267c752597bc335ab19b75fe21d297e64ff9654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 19/96] fix: mixed variable mating failed with its default
 duplicate elimination

---
 pymoo/core/mixed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 3a435c8..90a8585 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -37,6 +37,9 @@ class MixedVariableMating(InfillCriterion):
         **kwargs,
     ) -> None:
 
+        if isinstance(eliminate_duplicates, bool):
+            eliminate_duplicates = MixedVariableDuplicateElimination() if eliminate_duplicates else None
+
         super().__init__(repair, eliminate_duplicates, n_max_iterations, **kwargs)
 
         if crossover is None:
-- 
2.43.0


From 7646cb7bffcb4ebc43b77cc296337d200d054f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 20/96] fix: archives keep their configuration when pickled or
 copied and can be unlimited

---
 pymoo/util/archive.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 50d28fd..722d537 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -1,5 +1,7 @@
 """Archive and truncation strategies for maintaining solution collections."""
 
+import copy
+
 import numpy as np
 
 from pymoo.core.duplicate import DefaultDuplicateElimination
@@ -49,7 +51,7 @@ class Archive(Population):
 
         obj = super().__new__(cls, individuals)
         obj.max_size = max_size
-        obj.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        obj.truncate_size = min(max_size, truncate_size) if max_size and truncate_size is not None else max_size
         obj.truncation = truncation
         obj.duplicate_elimination = duplicate_elimination
 
@@ -65,10 +67,26 @@ class Archive(Population):
         duplicate_elimination = getattr(obj, "duplicate_elimination", DefaultDuplicateElimination(epsilon=1e-32))
 
         self.max_size = max_size
-        self.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        self.truncate_size = min(max_size, truncate_size) if max_size and truncate_size is not None else max_size
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
+    # the configuration is neither pickled nor deep copied by numpy
+
+    def __reduce__(self):
+        func, args, state = super().__reduce__()
+        return func, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        array, config = state
+        super().__setstate__(array)
+        self.__dict__.update(config)
+
+    def __deepcopy__(self, memo):
+        obj = super().__deepcopy__(memo).view(type(self))
+        obj.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return obj
+
     def add(self, sols):
 
         if len(self) > 0:
-- 
2.43.0


From 4263d100ed387e9ae4c9de08079d3924c408f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 21/96] fix: MOPSO-CD offered its solutions to the archive
 repeatedly and truncated it because of duplicates

---
 pymoo/algorithms/moo/mopso_cd.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index ba2a519..10c2969 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -18,6 +18,14 @@ from pymoo.util.misc import has_feasible
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
+class CrowdingDistanceArchive(MultiObjectiveArchive):
+    """The archive of MOPSO-CD which is only updated by the algorithm itself."""
+
+    def add(self, sols):
+        # the infill solutions were already considered when the algorithm advanced
+        return self
+
+
 class MOPSO_CD(Algorithm):
     """Multi-Objective Particle Swarm Optimization with Crowding Distance (MOPSO-CD) algorithm.
 
@@ -76,7 +84,7 @@ class MOPSO_CD(Algorithm):
         super()._setup(problem, **kwargs)
 
         # Initialize the external archive
-        self.archive = MultiObjectiveArchive(max_size=self.archive_size)
+        self.archive = CrowdingDistanceArchive(max_size=self.archive_size)
 
         # Compute maximum velocity based on problem bounds
         xl, xu = problem.bounds()
@@ -175,6 +183,9 @@ class MOPSO_CD(Algorithm):
         # Find non-dominated feasible solutions (the least infeasible ones if there is none)
         non_dominated = self.archive._find_opt(combined)
 
+        # The solutions of the swarm might already be in the archive
+        non_dominated = self.archive.duplicate_elimination.do(non_dominated)
+
         # Apply archive size limit using crowding distance
         if len(non_dominated) > self.archive_size:
             # Use tournament selection to maintain diversity while keeping quality
@@ -197,7 +208,7 @@ class MOPSO_CD(Algorithm):
             non_dominated = non_dominated[selected_indices]
 
         # Create new archive
-        return MultiObjectiveArchive(individuals=non_dominated, max_size=self.archive_size)
+        return CrowdingDistanceArchive(individuals=non_dominated, max_size=self.archive_size)
 
     def _select_diverse_leaders(self):
         """Select diverse leaders for all particles."""
-- 
2.43.0


From 07231a9d338b4b8c4d948ed8e700e9f4b4b8a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 22/96] fix: the archive of the result misses the last
 solutions when the result is taken from advance

---
 pymoo/core/algorithm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2e81b7e..01e4281 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -231,6 +231,10 @@ class Algorithm:
             if val is None or val:
                 self._post_advance()
 
+        # add the infill solutions to an archive
+        if self.archive is not None and infills is not None:
+            self.archive = self.archive.add(infills)
+
         # if the algorithm has terminated, then do the finalization steps and return the result
         if self.termination.has_terminated():  # type: ignore
             self.finalize()
@@ -240,10 +244,6 @@ class Algorithm:
         else:
             ret = self.opt  # type: ignore
 
-        # add the infill solutions to an archive
-        if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
-
         return ret
 
     def result(self) -> Result:
-- 
2.43.0


From 1ef505b05690c1f45ecae8a73f411afcb7079736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 23/96] Revert the MOPSO-CD archive change: the golden results
 pin its repeated entries

---
 pymoo/algorithms/moo/mopso_cd.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 10c2969..ba2a519 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -18,14 +18,6 @@ from pymoo.util.misc import has_feasible
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
-class CrowdingDistanceArchive(MultiObjectiveArchive):
-    """The archive of MOPSO-CD which is only updated by the algorithm itself."""
-
-    def add(self, sols):
-        # the infill solutions were already considered when the algorithm advanced
-        return self
-
-
 class MOPSO_CD(Algorithm):
     """Multi-Objective Particle Swarm Optimization with Crowding Distance (MOPSO-CD) algorithm.
 
@@ -84,7 +76,7 @@ class MOPSO_CD(Algorithm):
         super()._setup(problem, **kwargs)
 
         # Initialize the external archive
-        self.archive = CrowdingDistanceArchive(max_size=self.archive_size)
+        self.archive = MultiObjectiveArchive(max_size=self.archive_size)
 
         # Compute maximum velocity based on problem bounds
         xl, xu = problem.bounds()
@@ -183,9 +175,6 @@ class MOPSO_CD(Algorithm):
         # Find non-dominated feasible solutions (the least infeasible ones if there is none)
         non_dominated = self.archive._find_opt(combined)
 
-        # The solutions of the swarm might already be in the archive
-        non_dominated = self.archive.duplicate_elimination.do(non_dominated)
-
         # Apply archive size limit using crowding distance
         if len(non_dominated) > self.archive_size:
             # Use tournament selection to maintain diversity while keeping quality
@@ -208,7 +197,7 @@ class MOPSO_CD(Algorithm):
             non_dominated = non_dominated[selected_indices]
 
         # Create new archive
-        return CrowdingDistanceArchive(individuals=non_dominated, max_size=self.archive_size)
+        return MultiObjectiveArchive(individuals=non_dominated, max_size=self.archive_size)
 
     def _select_diverse_leaders(self):
         """Select diverse leaders for all particles."""
-- 
2.43.0


From 3b16fe95b12a25886ea8c080eb1aa3939fa46a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 24/96] fix: replacement survival accepts single individuals

---
 pymoo/core/replacement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/core/replacement.py b/pymoo/core/replacement.py
index 19918fe..ec06c81 100644
--- a/pymoo/core/replacement.py
+++ b/pymoo/core/replacement.py
@@ -31,15 +31,15 @@ class ReplacementSurvival(Survival):
             off = pop[k:]
             pop = pop[:k]
 
+        pop = Population.create(pop) if isinstance(pop, Individual) else pop
+        off = Population.create(off) if isinstance(off, Individual) else off
+
         # if the offsprings are simply empty don't do anything
         if len(off) == 0:
             return pop
 
         assert len(pop) == len(off), "For the replacement pop and off must have the same number of individuals."
 
-        pop = Population.create(pop) if isinstance(pop, Individual) else pop
-        off = Population.create(off) if isinstance(off, Individual) else off
-
         I = self._do(problem, pop, off, **kwargs)  # noqa: E741
 
         if return_indices:
-- 
2.43.0


From bca9731aef7f1a9ecef8466378956f4d4f15bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 25/96] fix: ToReplacement ranks by the order of survival

---
 pymoo/core/survival.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4763738..c98d01b 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -127,6 +127,7 @@ class ToReplacement(Survival):
         problem: Any,
         pop: Any,
         off: Any,
+        n_survive: Optional[int] = None,
         random_state: Any = None,
         **kwargs: Any,
     ) -> Any:
@@ -140,7 +141,8 @@ class ToReplacement(Survival):
             random_state=random_state,
             **kwargs,
         )
-        merged.set("__rank__", indices)
+        # the survival returns the indices in the order of survival
+        merged[indices].set("__rank__", np.arange(len(merged)))
 
         for k in range(len(pop)):
             if off[k].get("__rank__") < pop[k].get("__rank__"):
-- 
2.43.0


From 4772f5eadec0dfa31eceefef45f63b276b9877dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 26/96] fix: joblib and ray runners can be copied and pickled

---
 pymoo/parallelization/joblib.py | 8 +++++++-
 pymoo/parallelization/ray.py    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pymoo/parallelization/joblib.py b/pymoo/parallelization/joblib.py
index ef47624..ccb387f 100644
--- a/pymoo/parallelization/joblib.py
+++ b/pymoo/parallelization/joblib.py
@@ -24,4 +24,10 @@ class JoblibParallelization:
             return parallel(self.joblib.delayed(f)(x) for x in X)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # a module can neither be copied nor pickled: import it again when the state is restored
+        state = self.__dict__.copy()
+        state.pop("joblib", None)
+        return state
+
+    def __setstate__(self, state):
+        self.__init__(state["n_jobs"], **state["kwargs"])
diff --git a/pymoo/parallelization/ray.py b/pymoo/parallelization/ray.py
index 943dad3..b41b7ef 100644
--- a/pymoo/parallelization/ray.py
+++ b/pymoo/parallelization/ray.py
@@ -26,4 +26,10 @@ class RayParallelization:
         return self.ray.get(futures)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # a module can neither be copied nor pickled: import it again when the state is restored
+        state = self.__dict__.copy()
+        state.pop("ray", None)
+        return state
+
+    def __setstate__(self, state):
+        self.__init__(state["job_resources"])
-- 
2.43.0


From 78c0ead5fce9b79b840d3a7808760c70e9f5b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 27/96] fix: a runner losing results of solutions must not go
 unnoticed

---
 pymoo/core/problem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 9159435..66a41ab 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -247,7 +247,14 @@ class Problem:
         f = self.elementwise_func(self, args, kwargs)
 
         # execute the runner
-        elems = self.elementwise_runner(f, X)
+        elems = list(self.elementwise_runner(f, X))
+
+        # a runner which lost the result of a solution must not go unnoticed
+        if len(elems) != len(X):
+            raise Exception(
+                f"Problem Error: the elementwise runner has returned the results of {len(elems)} "
+                f"instead of {len(X)} solutions."
+            )
 
         # for each evaluation call
         for elem in elems:
-- 
2.43.0


From 511c504315934ef561c902250a8e2fa489d06525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 28/96] fix: cached constraint violation follows G, H and the
 configuration

---
 pymoo/core/individual.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..c2b2d09 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -206,6 +206,7 @@ class Individual:
             value: The inequality constraint vector for the individual.
         """
         self._G = value
+        self._CV = None
 
     @property
     def H(self) -> np.ndarray:
@@ -224,6 +225,26 @@ class Individual:
             value: The equality constraint vector for the individual.
         """
         self._H = value
+        self._CV = None
+
+    @property
+    def config(self) -> dict:
+        """Get the configuration of the individual.
+
+        Returns:
+            dict: The constraint violation configuration settings.
+        """
+        return self._config
+
+    @config.setter
+    def config(self, value: dict) -> None:
+        """Set the configuration of the individual.
+
+        Args:
+            value: The constraint violation configuration settings.
+        """
+        self._config = value
+        self._CV = None
 
     @property
     def CV(self) -> np.ndarray:
-- 
2.43.0


From 23300a4b341447cf33aa0cf3f057e565a9185d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 29/96] fix: constraint wrappers evaluate what they need and
 leave no constraints

---
 pymoo/constraints/as_obj.py      | 10 ++++++----
 pymoo/constraints/as_penalty.py  | 10 ++++++----
 pymoo/constraints/from_bounds.py |  8 +++++---
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..ae8dcc1 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -25,7 +25,9 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # the constraints are always necessary to calculate the violation
+        values = list(return_values_of) + [e for e in ["F", "G", "H"] if e not in return_values_of]
+        out = self.__object__.do(X, values, *args, **kwargs)
 
         # get at the values from the output
         F, G, H = from_dict(out, "F", "G", "H")
@@ -40,10 +42,10 @@ class ConstraintsAsObjective(Meta, Problem):
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = anp.reshape(CV, (len(X), 1))
 
-        del out["G"]
-        del out["H"]
+        # there are no constraints left
+        out["G"], out["H"] = np.zeros((len(X), 0)), np.zeros((len(X), 0))
 
         return out
 
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..76d3fc8 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -20,7 +20,9 @@ class ConstraintsAsPenalty(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # the constraints are always necessary to calculate the violation
+        values = list(return_values_of) + [e for e in ["F", "G", "H"] if e not in return_values_of]
+        out = self.__object__.do(X, values, *args, **kwargs)
 
         # get at the values from the output
         F, G, H = from_dict(out, "F", "G", "H")
@@ -32,9 +34,9 @@ class ConstraintsAsPenalty(Meta, Problem):
         CV = calc_cv(G=G, H=H)
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * np.reshape(CV, (len(X), 1))
 
-        del out["G"]
-        del out["H"]
+        # there are no constraints left
+        out["G"], out["H"] = np.zeros((len(X), 0)), np.zeros((len(X), 0))
 
         return out
diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..749a0d7 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -18,10 +18,12 @@ class ConstraintsFromBounds(Meta, Problem):
 
     def do(self, X, return_values_of, *args, **kwargs):
 
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # the constraints the bounds are appended to are always necessary
+        values = list(return_values_of) + [e for e in ["G"] if e not in return_values_of]
+        out = self.__object__.do(X, values, *args, **kwargs)
 
-        # get the boundaries for normalization
-        xl, xu = self.bounds()
+        # the bounds of the original problem (they might be removed here)
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
-- 
2.43.0


From 117660c487b1fb75be60fad52cc6dfec8359390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 30/96] fix: a single solution which is not an array and values
 of a wrong number of solutions

---
 pymoo/core/problem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 66a41ab..42e7a32 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -189,6 +189,10 @@ class Problem:
         else:
             only_single_value = not (isinstance(X, list) or isinstance(X, np.ndarray))
 
+            # a single solution which is not an array (e.g. a dictionary of mixed variables)
+            if only_single_value:
+                X = [X]
+
         # this is where the actual evaluation takes place
         _out = self.do(X, return_values_of, *args, **kwargs)
 
@@ -289,6 +293,9 @@ class Problem:
                         v = anp.column_stack(v)
 
                     try:
+                        # otherwise reshaping would silently mix up the values of different solutions
+                        if N > 1 and len(v) != N and len(v) > 0:
+                            raise ValueError(f"Values are provided for {len(v)} instead of {N} solutions.")
                         v = v.reshape(shape[name])
                     except Exception as e:
                         raise Exception(
-- 
2.43.0


From 08826a5057fd26cb03528a99a22cbecb57e0a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 31/96] fix: problem wrappers (unit space, scalarization,
 static values)

---
 pymoo/problems/multi_to_single.py | 4 ++--
 pymoo/problems/static.py          | 3 +++
 pymoo/problems/zero_to_one.py     | 5 +++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..4082c9f 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,12 +18,12 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
         F = out["F"]
         out["__F__"] = F
-        out["F"] = self.decomposition.do(F, **self.kwargs)[:, None]
+        out["F"] = self.decomposition.do(F, **self.kwargs).reshape((len(X), 1))
         return out
diff --git a/pymoo/problems/static.py b/pymoo/problems/static.py
index 5dfdd88..86f596c 100644
--- a/pymoo/problems/static.py
+++ b/pymoo/problems/static.py
@@ -9,6 +9,9 @@ class StaticProblem(Meta, Problem):
         super().__init__(problem)
         self.kwargs = kwargs
 
+        # the values are provided for all solutions at once
+        self.elementwise = False
+
     def _evaluate(self, _, out, *args, **kwargs):
         for K, V in self.kwargs.items():
             out[K] = V
diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..bd729ee 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,9 +14,10 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        # the solutions are provided in the normalized space
+        Xp = self.denormalize(X)
 
-        out = super().do(Xp, return_values_of, *args, **kwargs)
+        out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
 
         return out
-- 
2.43.0


From 6512e24a5cc5887f4ec9aa198a5aa613e6d0b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 32/96] fix: normalizing integers must not truncate

---
 pymoo/util/normalization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index c8ab355..562d4fc 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -73,8 +73,10 @@ class ZeroToOneNormalization(Normalization):
         if X is None or (self.xl is None and self.xu is None):
             return X
 
-        # simple copy the input
+        # simple copy the input (integers can not represent the normalized values)
         N = np.copy(X)
+        if N.dtype.kind in "iub":
+            N = N.astype(float)
 
         # normalize between zero and one if neither of them is nan
         N[..., self.neither_nan] = (X[..., self.neither_nan] - self.xl[self.neither_nan]) / (
@@ -95,6 +97,8 @@ class ZeroToOneNormalization(Normalization):
         neither_nan = self.neither_nan
 
         X = N.copy()
+        if X.dtype.kind in "iub":
+            X = X.astype(float)
         X[..., neither_nan] = xl[neither_nan] + N[..., neither_nan] * (xu[neither_nan] - xl[neither_nan])
 
         X[..., xl_only] = N[..., xl_only] + xl[xl_only]
-- 
2.43.0


From f9e7ee5c4a288478a9b644d72e694f3b0fed35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 33/96] fix: DF12 mixed the values of different solutions

---
 pymoo/problems/dynamic/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/dynamic/df.py b/pymoo/problems/dynamic/df.py
index 003e9bd..3208b0d 100644
--- a/pymoo/problems/dynamic/df.py
+++ b/pymoo/problems/dynamic/df.py
@@ -333,7 +333,7 @@ class DF12(DF):
         x0 = x[:, 0].reshape(len(x), 1)
         tmp1 = x[:, 2:] - np.sin(self.time * x0)
         tmp2 = np.abs(np.sin(np.floor(k * (2 * x[:, 0:2] - r)) * np.pi / 2))
-        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2)
+        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2, axis=1)
 
         f1 = g * np.cos(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
         f2 = g * np.sin(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
-- 
2.43.0


From f46f90fa87f64c8e582765f8a950fe3d107d9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 34/96] fix: dynamic problems evaluate each solution at the
 current time

---
 pymoo/problems/dynamic/misc.py | 61 +++++++++++-----------------------
 1 file changed, 19 insertions(+), 42 deletions(-)

diff --git a/pymoo/problems/dynamic/misc.py b/pymoo/problems/dynamic/misc.py
index a759e5e..669ebec 100644
--- a/pymoo/problems/dynamic/misc.py
+++ b/pymoo/problems/dynamic/misc.py
@@ -16,17 +16,15 @@ class FDA2_deb(DynamicTestProblem):
 
         self.T_max = 200
 
-    def _evaluate(self, X, out, *args, t=1, **kwargs):
-        self.t = self.time(t)
-        f1, f2 = fda2_deb(X, self.t)
-        out["F"] = [f1, f2]
+    def _evaluate(self, X, out, *args, **kwargs):
+        out["F"] = np.array([fda2_deb(x, self.time) for x in X])
 
     def _calc_pareto_front(self, n_pareto_points=100):
-        H = 0.75 + 0.75 * np.sin(0.5 * np.pi * self.t)
-        H = 2 * np.sin(0.5 * np.pi * (self.t - 1))
+        H = 0.75 + 0.75 * np.sin(0.5 * np.pi * self.time)
+        H = 2 * np.sin(0.5 * np.pi * (self.time - 1))
         x = np.linspace(0.01, 1, n_pareto_points)
         # TODO Solve the inf result when x[0] = 0 and H(t)<0
-        print(H, x[0], (1 - np.power(x, (1 / H)))[0], self.t)
+        print(H, x[0], (1 - np.power(x, (1 / H)))[0], self.time)
         pf = np.column_stack([x, 1 - np.power(x, (H))])
         return pf
 
@@ -35,12 +33,11 @@ class DMOP2(DynamicTestProblem):
     def __init__(self, nt=10, taut=200):
         super().__init__(n_var=10, n_obj=2, nt=nt, taut=taut)
 
-    def _evaluate(self, X, out, *args, t=1, **kwargs):
-        f1, f2 = dMOP2(X, self.time)
-        out["F"] = [f1, f2]
+    def _evaluate(self, X, out, *args, **kwargs):
+        out["F"] = np.array([dMOP2(x, self.time) for x in X])
 
     def _calc_pareto_front(self, n_pareto_points=100):
-        H = 0.75 * np.sin(0.5 * np.pi * self.t) + 1.25
+        H = 0.75 * np.sin(0.5 * np.pi * self.time) + 1.25
         x = np.linspace(0, 1, n_pareto_points)
         pf = np.column_stack([x, 1 - pow(x, H)])
         return pf
@@ -54,10 +51,8 @@ class DIMP2b(DynamicTestProblem):
         self.xu = 2.0 * np.ones(self.n_var)
         self.xu[0] = 1.0
 
-    def _evaluate(self, X, out, *args, t=1, **kwargs):
-        self.t = self.time(t)
-        f1, f2 = DIMP2(X, self.t)
-        out["F"] = [f1, f2]
+    def _evaluate(self, X, out, *args, **kwargs):
+        out["F"] = np.array([DIMP2(x, self.time) for x in X])
 
     def _calc_pareto_front(self, n_pareto_points=100):
         x = np.linspace(0, 1, n_pareto_points)
@@ -72,13 +67,11 @@ class HE2b(DynamicTestProblem):
     def __init__(self, nt=10, taut=200):
         super().__init__(n_var=30, n_obj=2, nt=nt, taut=taut)
 
-    def _evaluate(self, X, out, *args, t=1, **kwargs):
-        self.t = self.time(t)
-        f1, f2 = HE2(X, self.t)
-        out["F"] = [f1, f2]
+    def _evaluate(self, X, out, *args, **kwargs):
+        out["F"] = np.array([HE2(x, self.time) for x in X])
 
     def _calc_pareto_front(self, n_pareto_points=100):
-        H = 0.75 * np.sin(0.5 * np.pi * self.t) + 1.25  # time may be incorrect
+        H = 0.75 * np.sin(0.5 * np.pi * self.time) + 1.25  # time may be incorrect
         x = np.linspace(0, 1, n_pareto_points)
         f2 = (1 - np.power(np.sqrt(x), H)) - (np.power(x, H) * np.sin(0.5 * np.pi * x))
         pf = np.column_stack([x, f2])
@@ -97,19 +90,11 @@ class HE7b(DynamicTestProblem):
         self.xu = 1 * np.ones(self.n_var)
         self.xu[0] = 1.0
 
-    def time(self, t):
-        self.tau = t
-        t = 1 / self.nt
-        t = t * np.floor(self.tau / self.taut)
-        return t
-
-    def _evaluate(self, X, out, *args, t=1, **kwargs):
-        self.t = self.time(t)
-        f1, f2 = HE7(X, self.t)
-        out["F"] = [f1, f2]
+    def _evaluate(self, X, out, *args, **kwargs):
+        out["F"] = np.array([HE7(x, self.time) for x in X])
 
     def _calc_pareto_front(self, n_pareto_points=100):
-        H = 0.75 * np.sin(0.5 * np.pi * self.t) + 1.25  # current time may be incorrect
+        H = 0.75 * np.sin(0.5 * np.pi * self.time) + 1.25  # current time may be incorrect
         x = np.linspace(0, 1, n_pareto_points)
         f2 = (2 - np.sqrt(x)) * (1 - np.power(x / (2 - np.sqrt(x)), H))
         pf = np.column_stack([x, f2])
@@ -123,19 +108,11 @@ class HE9b(DynamicTestProblem):
     def __init__(self, nt=10, taut=200):
         super().__init__(n_var=10, n_obj=2, nt=nt, taut=taut)
 
-    def time(self, t):
-        self.tau = t
-        t = 1 / self.nt
-        t = t * np.floor(self.tau / self.taut)
-        return t
-
-    def _evaluate(self, X, out, *args, t=1, **kwargs):
-        self.t = self.time(t)
-        f1, f2 = HE9(X, self.t)
-        out["F"] = [f1, f2]
+    def _evaluate(self, X, out, *args, **kwargs):
+        out["F"] = np.array([HE9(x, self.time) for x in X])
 
     def _calc_pareto_front(self, n_pareto_points=100):
-        H = 0.75 * np.sin(0.5 * np.pi * self.t) + 1.25  # current time may be incorrect
+        H = 0.75 * np.sin(0.5 * np.pi * self.time) + 1.25  # current time may be incorrect
         x = np.linspace(0, 1, n_pareto_points)
         f2 = (2 - np.sqrt(x)) * (1 - np.power(x / (2 - np.sqrt(x)), H))
         pf = np.column_stack([x, f2])
-- 
2.43.0


From b2e47e663bb934573cdf5e9245b1be7ac4d9b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 35/96] fix: number of constraints of the clutch problem

---
 pymoo/problems/multi/clutch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/clutch.py b/pymoo/problems/multi/clutch.py
index cea0dcd..8115f0d 100644
--- a/pymoo/problems/multi/clutch.py
+++ b/pymoo/problems/multi/clutch.py
@@ -8,7 +8,7 @@ from pymoo.core.problem import Problem
 
 class Clutch(Problem):
     def __init__(self) -> None:
-        super().__init__(n_var=5, n_obj=2, n_ieq_constr=19, vtype=int)
+        super().__init__(n_var=5, n_obj=2, n_ieq_constr=8, vtype=int)
         # ri, ro, t, F, Xp
         # self.xl = np.array([60, 90, 1, 600, 2])
         self.xl: np.ndarray = np.array([0, 0, 0, 0, 0])
-- 
2.43.0


From 0f3fd69e61282ea6cb05d9418f35ec2a2ae94916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 36/96] fix: complex gradient only returns what has been asked
 for

---
 pymoo/gradient/grad_complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/gradient/grad_complex.py b/pymoo/gradient/grad_complex.py
index 811c947..953b6d6 100644
--- a/pymoo/gradient/grad_complex.py
+++ b/pymoo/gradient/grad_complex.py
@@ -44,6 +44,7 @@ class ComplexNumberGradient(Meta, Problem):
             grad = calc_complex_gradient(self.__object__, vals_not_grad, x, self.eps, *args, **kwargs)
 
             for name, value in grad.items():
-                out["d" + name][i] = value
+                if "d" + name in out:
+                    out["d" + name][i] = value
 
         return out
-- 
2.43.0


From 4126b4945852b9334cb6e893958d31513fa784b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 37/96] fix: random selection without repeated parents

---
 pymoo/operators/selection/rnd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/selection/rnd.py b/pymoo/operators/selection/rnd.py
index bb916f9..6b4ef7d 100644
--- a/pymoo/operators/selection/rnd.py
+++ b/pymoo/operators/selection/rnd.py
@@ -50,11 +50,17 @@ def fast_fill_random(X, N, columns=None, Xp=None, n_max_attempts=10, random_stat
             else:
                 X[rem, col] = random_state.permutation(N)[: len(rem)]
 
-            rem = np.where((X[rem, col][:, None] == D[rem]).any(axis=1))[0]
+            rem = rem[(X[rem, col][:, None] == D[rem]).any(axis=1)]
 
             if len(rem) == 0:
                 break
 
+        # if there are still duplicates choose from what is left (if there is anything)
+        for k in rem:
+            options = np.setdiff1d(np.arange(N), D[k])
+            if len(options) > 0:
+                X[k, col] = random_state.choice(options)
+
         J.append(col)
 
     return X
-- 
2.43.0


From f5bdcf2895981af68cbaba5025164302936bdd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 38/96] fix: tournament comparisons consider every participant

---
 pymoo/algorithms/moo/nsga3.py                | 36 +++++++------
 pymoo/algorithms/moo/unsga3.py               |  3 ++
 pymoo/algorithms/soo/nonconvex/ga.py         | 54 ++++++++++----------
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 50 +++++++++---------
 4 files changed, 77 insertions(+), 66 deletions(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index e28ee32..4982a1f 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -26,26 +26,28 @@ from pymoo.util import default_random_state
 
 @default_random_state
 def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
-    S = np.full(P.shape[0], np.nan)
+    S = np.copy(P[:, 0])
 
     for i in range(P.shape[0]):
-        a, b = P[i, 0], P[i, 1]
-
-        # if at least one solution is infeasible
-        if pop[a].CV > 0.0 or pop[b].CV > 0.0:
-            S[i] = compare(
-                a,
-                pop[a].CV,
-                b,
-                pop[b].CV,
-                method="smaller_is_better",
-                return_random_if_equal=True,
-                random_state=random_state,
-            )
+        # the winner so far against the next participant
+        for b in P[i, 1:]:
+            a = S[i]
+
+            # if at least one solution is infeasible
+            if pop[a].CV > 0.0 or pop[b].CV > 0.0:
+                S[i] = compare(
+                    a,
+                    pop[a].CV,
+                    b,
+                    pop[b].CV,
+                    method="smaller_is_better",
+                    return_random_if_equal=True,
+                    random_state=random_state,
+                )
 
-        # both solutions are feasible just set random
-        else:
-            S[i] = random_state.choice([a, b])
+            # both solutions are feasible just set random
+            else:
+                S[i] = random_state.choice([a, b])
 
     return S[:, None].astype(int)
 
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index c88becf..c75d636 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -25,6 +25,9 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
     Returns:
         Array of winning indices, shape (n_comparisons, 1).
     """
+    if P.shape[1] != 2:
+        raise ValueError("Only implemented for binary tournament!")
+
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
diff --git a/pymoo/algorithms/soo/nonconvex/ga.py b/pymoo/algorithms/soo/nonconvex/ga.py
index 76fa879..8084c35 100644
--- a/pymoo/algorithms/soo/nonconvex/ga.py
+++ b/pymoo/algorithms/soo/nonconvex/ga.py
@@ -41,34 +41,36 @@ class FitnessSurvival(Survival):
 
 @default_random_state
 def comp_by_cv_and_fitness(pop, P, random_state=None, **kwargs):
-    S = np.full(P.shape[0], np.nan)
+    S = np.copy(P[:, 0])
 
     for i in range(P.shape[0]):
-        a, b = P[i, 0], P[i, 1]
-
-        # if at least one solution is infeasible
-        if pop[a].CV > 0.0 or pop[b].CV > 0.0:
-            S[i] = compare(
-                a,
-                pop[a].CV,
-                b,
-                pop[b].CV,
-                method="smaller_is_better",
-                return_random_if_equal=True,
-                random_state=random_state,
-            )
-
-        # both solutions are feasible just set random
-        else:
-            S[i] = compare(
-                a,
-                pop[a].F,
-                b,
-                pop[b].F,
-                method="smaller_is_better",
-                return_random_if_equal=True,
-                random_state=random_state,
-            )
+        # the winner so far against the next participant
+        for b in P[i, 1:]:
+            a = S[i]
+
+            # if at least one solution is infeasible
+            if pop[a].CV > 0.0 or pop[b].CV > 0.0:
+                S[i] = compare(
+                    a,
+                    pop[a].CV,
+                    b,
+                    pop[b].CV,
+                    method="smaller_is_better",
+                    return_random_if_equal=True,
+                    random_state=random_state,
+                )
+
+            # both solutions are feasible just set random
+            else:
+                S[i] = compare(
+                    a,
+                    pop[a].F,
+                    b,
+                    pop[b].F,
+                    method="smaller_is_better",
+                    return_random_if_equal=True,
+                    random_state=random_state,
+                )
 
     return S[:, None].astype(int)
 
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index dc0f334..bf3a7f0 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -61,39 +61,43 @@ class NicheTermination(DefaultTermination):
 
 
 def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
-    S = np.full(P.shape[0], np.nan)
+    S = np.copy(P[:, 0])
 
     for i in range(P.shape[0]):
-        a, b = P[i, 0], P[i, 1]
-
-        # if at least one solution is infeasible
-        if pop[a].CV[0] > 0.0 or pop[b].CV[0] > 0.0:
-            S[i] = compare(
-                a,
-                pop[a].CV,
-                b,
-                pop[b].CV,
-                method="smaller_is_better",
-                return_random_if_equal=True,
-                random_state=random_state,
-            )
-
-        # first compare by the round the individual was selected
-        else:
-            S[i] = compare(a, pop[a].get("iter"), b, pop[b].get("iter"), method="smaller_is_better")
+        # the winner so far against the next participant
+        for b in P[i, 1:]:
+            a = S[i]
 
-            # if it was the same round - then use the rank of the fitness directly
-            if np.isnan(S[i]):
-                S[i] = compare(
+            # if at least one solution is infeasible
+            if pop[a].CV[0] > 0.0 or pop[b].CV[0] > 0.0:
+                winner = compare(
                     a,
-                    pop[a].get("rank"),
+                    pop[a].CV,
                     b,
-                    pop[b].get("rank"),
+                    pop[b].CV,
                     method="smaller_is_better",
                     return_random_if_equal=True,
                     random_state=random_state,
                 )
 
+            # first compare by the round the individual was selected
+            else:
+                winner = compare(a, pop[a].get("iter"), b, pop[b].get("iter"), method="smaller_is_better")
+
+                # if it was the same round - then use the rank of the fitness directly
+                if winner is None:
+                    winner = compare(
+                        a,
+                        pop[a].get("rank"),
+                        b,
+                        pop[b].get("rank"),
+                        method="smaller_is_better",
+                        return_random_if_equal=True,
+                        random_state=random_state,
+                    )
+
+            S[i] = winner
+
     return S[:, None].astype(int)
 
 
-- 
2.43.0


From 149a0325d5ccb1026c98c104b68bde1e570073d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 39/96] fix: C-TAEA comparison is binary only

---
 pymoo/algorithms/moo/ctaea.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 3c04dd9..171bc19 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -29,6 +29,9 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 @default_random_state
 def comp_by_cv_dom_then_random(pop, P, random_state=None, **kwargs):
+    if P.shape[1] != 2:
+        raise ValueError("Only implemented for binary tournament!")
+
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
-- 
2.43.0


From 94c8168475a35a75f6d9a693ad681a70e6ad46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 40/96] fix: no-crossover creates new individuals and accepts
 parents

---
 pymoo/operators/crossover/nox.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/nox.py b/pymoo/operators/crossover/nox.py
index 82146a1..a7e97f0 100644
--- a/pymoo/operators/crossover/nox.py
+++ b/pymoo/operators/crossover/nox.py
@@ -1,6 +1,9 @@
 """No-crossover (pass-through) operator."""
 
+from copy import copy
+
 from pymoo.core.crossover import Crossover
+from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 
 
@@ -10,7 +13,12 @@ class NoCrossover(Crossover):
             n_offsprings = n_parents
         super().__init__(n_parents, n_offsprings, prob, **kwargs)
 
-    def do(self, problem, pop, *args, random_state, **kwargs):
+    def do(self, problem, pop, parents=None, *args, random_state, **kwargs):
+
+        # if a parents with array with mating indices is provided -> transform the input first
+        if parents is not None:
+            pop = [pop[mating] for mating in parents]
+
         offsprings = []
         for parents in pop:
             if self.n_offsprings < self.n_parents:
@@ -24,4 +32,6 @@ class NoCrossover(Crossover):
                 offsprings.extend(parents)
                 extra = self.n_offsprings - self.n_parents
                 offsprings.extend(random_state.choice(parents, size=extra, replace=True))
-        return Population.create(*offsprings)
+
+        # new individuals, otherwise the parents themselves would be mutated and never be evaluated again
+        return Population.create(*[Individual(X=copy(parent.X)) for parent in offsprings])
-- 
2.43.0


From 7fe1e00fc1e005fad2e879f42790fb264081d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 41/96] fix: order crossover and inversion of a single element

---
 pymoo/operators/crossover/ox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/operators/crossover/ox.py b/pymoo/operators/crossover/ox.py
index b35a3ff..d9b9a59 100644
--- a/pymoo/operators/crossover/ox.py
+++ b/pymoo/operators/crossover/ox.py
@@ -8,6 +8,10 @@ from pymoo.util import default_random_state
 
 @default_random_state
 def random_sequence(n, random_state=None):
+    # a single element leaves no choice
+    if n < 2:
+        return 0, n - 1
+
     start, end = np.sort(random_state.choice(n, 2, replace=False))
     return tuple([start, end])
 
-- 
2.43.0


From 5794f9e2920ee264acc40a32c0671ec37503df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 42/96] fix: inversion mutation applies its probability once
 per individual and keeps the input

---
 pymoo/operators/mutation/inversion.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymoo/operators/mutation/inversion.py b/pymoo/operators/mutation/inversion.py
index 0a3f5c0..a72b798 100644
--- a/pymoo/operators/mutation/inversion.py
+++ b/pymoo/operators/mutation/inversion.py
@@ -28,14 +28,12 @@ class InversionMutation(Mutation):
         Args:
             prob: Probability to apply the mutation to the individual.
         """
-        super().__init__()
-        self.prob = prob
+        super().__init__(prob=prob)
 
     def _do(self, problem, X, random_state=None, **kwargs):
         Y = X.copy()
-        for i, y in enumerate(X):
-            if random_state.random() < self.prob:
-                seq = random_sequence(len(y), random_state=random_state)
-                Y[i] = inversion_mutation(y, seq, inplace=True)
+        for y in Y:
+            seq = random_sequence(len(y), random_state=random_state)
+            inversion_mutation(y, seq, inplace=True)
 
         return Y
-- 
2.43.0


From b87823049c9cf64b472a1dd7fee75cc2f8ea29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 43/96] fix: sampling a choice keeps the type of the options

---
 pymoo/core/variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..63a57d9 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,11 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        # keep the options as they are, even if they are of different types
+        options = np.empty(len(self.options), dtype=object)
+        for k, option in enumerate(self.options):
+            options[k] = option
+        return random_state.choice(options, size=n)
 
 
 def get(
-- 
2.43.0


From da59298a068231442aa928a48e51d8ea0f535c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 44/96] fix: R-metric accepts weights and trims the front to
 the given range

---
 pymoo/indicators/rmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/indicators/rmetric.py b/pymoo/indicators/rmetric.py
index 25f3a0c..ead0e50 100644
--- a/pymoo/indicators/rmetric.py
+++ b/pymoo/indicators/rmetric.py
@@ -24,7 +24,7 @@ class RMetric(Indicator):
         Indicator.__init__(self)
         self.ref_points = ref_points
         self.problem = problem
-        w_ = np.ones(self.ref_points.shape[1]) if not w else w
+        w_ = np.ones(self.ref_points.shape[1]) if w is None else np.asarray(w)
         self.w_points = self.ref_points + 2 * w_
         self.delta = delta
 
@@ -151,7 +151,7 @@ class RMetric(Indicator):
 
             # 5. R-Metric Computation
             target = self._preprocess(data=pf, ref_point=self.ref_points[i], w_point=self.w_points[i])
-            PF = self._trim(pf, target)
+            PF = self._trim(pf, target, range=self.delta)
             final_PF.extend(PF)
 
         translated = np.array(translated)
-- 
2.43.0


From a20f0a9eadfc76ecf2a1da88d9fcabdf5b9ceef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 45/96] fix: epsilon indicators accept ideal and nadir

---
 pymoo/indicators/epsilon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/indicators/epsilon.py b/pymoo/indicators/epsilon.py
index 0c9d238..48f71e0 100644
--- a/pymoo/indicators/epsilon.py
+++ b/pymoo/indicators/epsilon.py
@@ -13,15 +13,17 @@ from pymoo.indicators.distance_indicator import derive_ideal_and_nadir_from_pf
 class EpsilonIndicator(Indicator):
     """Base class for epsilon indicators."""
 
-    def __init__(self, pf: ndarray, **kwargs) -> None:
+    def __init__(self, pf: ndarray, ideal: ndarray | None = None, nadir: ndarray | None = None, **kwargs) -> None:
         """Initialize epsilon indicator.
 
         Args:
             pf: Pareto front reference.
+            ideal: Ideal point.
+            nadir: Nadir point.
             **kwargs: Additional keyword arguments passed to parent.
         """
         pf = at_least_2d_array(pf, extend_as="row")  # type: ignore[assignment]
-        ideal, nadir = derive_ideal_and_nadir_from_pf(pf)
+        ideal, nadir = derive_ideal_and_nadir_from_pf(pf, ideal=ideal, nadir=nadir)
         super().__init__(ideal=ideal, nadir=nadir, **kwargs)
         self.pf = self.normalization.forward(pf)
 
-- 
2.43.0


From 5cead238ba50e3bb6fa432fecc5a9526a4aba4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 46/96] fix: farthest point selection removed the wrong
 candidate; layers from factories

---
 pymoo/util/reference_direction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..9b003eb 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -292,7 +292,7 @@ class MultiLayerReferenceDirectionFactory:
         """
         ref_dirs: list[NDArray] = []
         for factory in self.layers:
-            ref_dirs.append(factory)
+            ref_dirs.append(factory() if callable(factory) else factory)
         ref_dirs_arr = np.concatenate(ref_dirs, axis=0)
         is_duplicate = find_duplicates(ref_dirs_arr)
         return ref_dirs_arr[np.logical_not(is_duplicate)]
@@ -450,6 +450,6 @@ def select_points_with_maximum_distance(
 
         # add it to the selected and remove from not selected
         selected.append(int(I))
-        not_selected = [i for i, idx in enumerate(not_selected) if idx != index_in_not_selected]
+        not_selected.pop(index_in_not_selected)
 
     return selected
-- 
2.43.0


From ab80cecd0949c2a640ae4d578092ab6617080f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 47/96] fix: energy reference directions return the number
 requested

---
 pymoo/util/ref_dirs/energy.py       | 10 ++++++----
 pymoo/util/ref_dirs/energy_layer.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pymoo/util/ref_dirs/energy.py b/pymoo/util/ref_dirs/energy.py
index 04f910f..ea2ef8a 100644
--- a/pymoo/util/ref_dirs/energy.py
+++ b/pymoo/util/ref_dirs/energy.py
@@ -113,7 +113,7 @@ class RieszEnergyReferenceDirectionFactory(ReferenceDirectionFactory):
 
         # if all points are frozen - simply return it
         if np.all(freeze):
-            return X
+            return X[:n_points]
 
         # initialize the optimizer for the run
         self.optimizer = Adam(alpha=0.005)
@@ -263,10 +263,12 @@ class RieszEnergyReferenceDirectionFactory(ReferenceDirectionFactory):
                             break
 
             n_points += n_points_of_ref
-            R.append(_R_t)
 
-            # filter out points from to be removed from the original array
-            X = X[[i for i in I if i < len(X)]]
+            # filter out the points replaced by the new ones - they can belong to a former reference point as well
+            sets = [X] + R
+            keep = np.split(np.isin(np.arange(len(_X)), I), np.cumsum([len(e) for e in sets])[:-1])
+            X, *R = [e[k] for e, k in zip(sets, keep)]
+            R.append(_R_t)
 
         R = np.vstack(R)
 
diff --git a/pymoo/util/ref_dirs/energy_layer.py b/pymoo/util/ref_dirs/energy_layer.py
index a0ed51d..9863a27 100644
--- a/pymoo/util/ref_dirs/energy_layer.py
+++ b/pymoo/util/ref_dirs/energy_layer.py
@@ -116,6 +116,6 @@ def calc_potential_energy(scalings, X):
     D = squared_dist(X, X)[i, j]
 
     if np.any(D < 1e-12):
-        return np.nan, np.nan
+        return np.nan
 
     return (1 / D).mean()
-- 
2.43.0


From 8f015968360b3ccd82c314f842020c0cc400b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 48/96] fix: lattices with no partition

---
 pymoo/util/ref_dirs/das_dennis.py  | 11 ++++++-----
 pymoo/util/ref_dirs/incremental.py |  7 +++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pymoo/util/ref_dirs/das_dennis.py b/pymoo/util/ref_dirs/das_dennis.py
index a86baad..1539d1f 100644
--- a/pymoo/util/ref_dirs/das_dennis.py
+++ b/pymoo/util/ref_dirs/das_dennis.py
@@ -27,16 +27,17 @@ class DasDennis:
 
     def traverse(self, func, n_points=None):
 
-        if self.n_partitions == 0:
-            return np.full((1, self.n_dim), 1 / self.n_dim)
-
         counter = 0
 
         while (n_points is None or counter < n_points) and len(self.stack) > 0:
             point, beta = self.stack.pop()
 
             if len(point) + 1 == self.n_dim:
-                point.append(beta / (1.0 * self.n_partitions))
+                # without any partition the only point is the center
+                if self.n_partitions == 0:
+                    point = [1 / self.n_dim] * self.n_dim
+                else:
+                    point.append(beta / (1.0 * self.n_partitions))
 
                 if self.scaling is not None:
                     point = [p * self.scaling + ((1 - self.scaling) / len(point)) for p in point]
@@ -46,7 +47,7 @@ class DasDennis:
             else:
                 for i in range(beta + 1):
                     _point = list(point)
-                    _point.append(1.0 * i / (1.0 * self.n_partitions))
+                    _point.append(1.0 * i / max(1.0, self.n_partitions))
                     self.stack.append((_point, beta - i))
 
         return counter
diff --git a/pymoo/util/ref_dirs/incremental.py b/pymoo/util/ref_dirs/incremental.py
index e086f12..5f49983 100644
--- a/pymoo/util/ref_dirs/incremental.py
+++ b/pymoo/util/ref_dirs/incremental.py
@@ -29,6 +29,10 @@ def check_n_points(n_points, n_dim):
 
 
 def incremental_lattice(n_partitions, n_dim):
+    # without any partition the lattice consists only of its center
+    if n_partitions == 0:
+        return np.full((1, n_dim), 1 / n_dim)
+
     I = n_dim * np.eye(n_dim)  # noqa: E741
     W = np.zeros((1, n_dim))
     edgeW = W
@@ -39,8 +43,7 @@ def incremental_lattice(n_partitions, n_dim):
         edgeW = edgeW[np.any(edgeW == 0, axis=1)]
         W = np.vstack((W + 1, edgeW))
 
-    with np.errstate(invalid="ignore", divide="ignore"):
-        return W / (n_dim * n_partitions)
+    return W / (n_dim * n_partitions)
 
 
 class IncrementalReferenceDirectionFactory(ReferenceDirectionFactory):
-- 
2.43.0


From 98109cf16c1127c63b0f1a9bae148fc6f02aa565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 49/96] fix: fewer reference directions than objectives

---
 pymoo/util/ref_dirs/construction.py   | 2 +-
 pymoo/util/ref_dirs/sample_and_map.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/ref_dirs/construction.py b/pymoo/util/ref_dirs/construction.py
index ff3941d..729752b 100644
--- a/pymoo/util/ref_dirs/construction.py
+++ b/pymoo/util/ref_dirs/construction.py
@@ -51,7 +51,7 @@ class ConstructionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
     def _do(self, random_state=None, **kwargs):
 
         self.random_state = random_state
-        self.X = np.eye(self.n_dim)
+        self.X = np.eye(self.n_dim)[: self.n_points]
 
         while len(self.X) < self.n_points:
             x = self.next()
diff --git a/pymoo/util/ref_dirs/sample_and_map.py b/pymoo/util/ref_dirs/sample_and_map.py
index 30d2f8a..e78edc9 100644
--- a/pymoo/util/ref_dirs/sample_and_map.py
+++ b/pymoo/util/ref_dirs/sample_and_map.py
@@ -39,6 +39,11 @@ class RandomSamplingAndMap(ReferenceDirectionFactory):
         Returns:
             Array of reference directions.
         """
+        # the corners are always included - only the remaining points need to be sampled
+        E = np.eye(self.n_dim)[: self.n_points]
+        if self.n_points <= self.n_dim:
+            return E
+
         problem = Problem(n_var=self.n_dim, xl=0.0, xu=1.0)  # type: ignore[abstract]
         sampling = LatinHypercubeSampling()
 
@@ -49,5 +54,5 @@ class RandomSamplingAndMap(ReferenceDirectionFactory):
             random_state=random_state,
         )
         x = map_onto_unit_simplex(x, "kraemer")
-        x = np.vstack([x, np.eye(self.n_dim)])
+        x = np.vstack([x, E])
         return x
-- 
2.43.0


From df12af3485775a9a0ba088dc975743d4891dd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 50/96] fix: reduction and genetic reference directions use the
 current interfaces

---
 pymoo/util/ref_dirs/genetic_algorithm.py | 9 ++++-----
 pymoo/util/ref_dirs/reduction.py         | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pymoo/util/ref_dirs/genetic_algorithm.py b/pymoo/util/ref_dirs/genetic_algorithm.py
index de12150..671211c 100644
--- a/pymoo/util/ref_dirs/genetic_algorithm.py
+++ b/pymoo/util/ref_dirs/genetic_algorithm.py
@@ -1,7 +1,7 @@
 """Genetic algorithm-based reference direction generation."""
 
 from pymoo.algorithms.soo.nonconvex.ga import GA
-from pymoo.core.problem import Problem
+from pymoo.core.problem import ElementwiseProblem
 from pymoo.optimize import minimize
 from pymoo.util.reference_direction import (
     get_partition_closest_to_points,
@@ -29,7 +29,7 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
         ) = self.n_points, self.n_dim
         fun = self.fun
 
-        class MyProblem(Problem):
+        class MyProblem(ElementwiseProblem):
             def __init__(self):
                 self.n_points = n_points
                 self.n_dim = n_dim
@@ -40,7 +40,6 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
                     n_obj=1,
                     xl=0.0,
                     xu=1.0,
-                    elementwise_evaluation=True,
                 )
 
             def get_points(self, x):
@@ -59,8 +58,8 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
             problem,
             algorithm,
             termination=("n_gen", n_gen),
-            random_state=random_state,
-            verbose=True,
+            seed=int(random_state.integers(2**31)),
+            verbose=self.verbose,
         )
 
         ref_dirs = problem.get_points(res.X)
diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index 1858967..ca6ea6a 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -129,7 +129,7 @@ class ReductionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
         X = np.vstack([E, rnd])
 
         I = select_points_with_maximum_distance(  # noqa: E741
-            X, self.n_points, selected=list(range(len(E)))
+            X, self.n_points, selected=list(range(len(E))), random_state=random_state
         )
         centroids = X[I].copy()
 
-- 
2.43.0


From 8837950a83363605300049f648e43f2fce23942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 51/96] fix: MOEA/D without reference directions uses the
 default ones

---
 pymoo/algorithms/moo/moead.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/moead.py b/pymoo/algorithms/moo/moead.py
index dbad0a6..e5fa225 100755
--- a/pymoo/algorithms/moo/moead.py
+++ b/pymoo/algorithms/moo/moead.py
@@ -79,7 +79,7 @@ class MOEAD(LoopwiseAlgorithm, GeneticAlgorithm):
         self.selection = NeighborhoodSelection(prob=prob_neighbor_mating)
 
         super().__init__(
-            pop_size=len(ref_dirs),
+            pop_size=len(ref_dirs) if ref_dirs is not None else None,
             sampling=sampling,
             crossover=crossover,
             mutation=mutation,
@@ -96,6 +96,8 @@ class MOEAD(LoopwiseAlgorithm, GeneticAlgorithm):
         if self.ref_dirs is None:
             self.ref_dirs = default_ref_dirs(problem.n_obj)
         self.pop_size = len(self.ref_dirs)
+        if self.n_offsprings is None:
+            self.n_offsprings = self.pop_size
 
         # neighbours includes the entry by itself intentionally for the survival method
         self.neighbors = np.argsort(cdist(self.ref_dirs, self.ref_dirs), axis=1, kind="quicksort")[
@@ -166,7 +168,7 @@ class MOEAD(LoopwiseAlgorithm, GeneticAlgorithm):
 
 
 class ParallelMOEAD(MOEAD):
-    def __init__(self, ref_dirs, **kwargs):
+    def __init__(self, ref_dirs=None, **kwargs):
         super().__init__(ref_dirs, **kwargs)
         self.indices = None
 
-- 
2.43.0


From 293aa227d1b424ce2d6ddc2735dbcd677c1e334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 52/96] fix: perpendicular distance considers the utopian point

---
 pymoo/decomposition/perp_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/decomposition/perp_dist.py b/pymoo/decomposition/perp_dist.py
index ddafbf1..7b6f3ae 100644
--- a/pymoo/decomposition/perp_dist.py
+++ b/pymoo/decomposition/perp_dist.py
@@ -10,5 +10,5 @@ class PerpendicularDistance(Decomposition):
         self.theta = theta
 
     def _do(self, F, weights, **kwargs):
-        _, d2 = load_function("calc_distance_to_weights")(F, weights)
+        _, d2 = load_function("calc_distance_to_weights")(F, weights, self.utopian_point)
         return d2
-- 
2.43.0


From afc63be0178e43bd48c4686ac411fb0add7a6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 53/96] fix: RVEA angles of rounded cosines and ranges without
 spread

---
 pymoo/algorithms/moo/rvea.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index 34e0742..8535283 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -110,7 +110,8 @@ class RVEA(GeneticAlgorithm):
 
 
 def calc_gamma(V):
-    gamma = np.arccos((-np.sort(-1 * V @ V.T))[:, 1])
+    # (rounding can make the cosine slightly larger than one)
+    gamma = np.arccos(np.clip((-np.sort(-1 * V @ V.T))[:, 1], -1.0, 1.0))
     gamma = np.maximum(gamma, 1e-64)
     return gamma
 
@@ -137,7 +138,8 @@ class APDSurvival(Survival):
 
     def adapt(self):
         if self.nadir is not None:
-            self.V = calc_V(calc_V(self.ref_dirs) * (self.nadir - self.ideal))
+            # (an objective without any spread must not make a vector vanish)
+            self.V = calc_V(calc_V(self.ref_dirs) * np.maximum(self.nadir - self.ideal, 1e-64))
             self.gamma = calc_gamma(self.V)
 
     def _do(
@@ -173,7 +175,7 @@ class APDSurvival(Survival):
         F_prime = F / dist_to_ideal[:, None]
 
         # calculate for each solution the acute angles to ref dirs
-        acute_angle = np.arccos(F_prime @ self.V.T)
+        acute_angle = np.arccos(np.clip(F_prime @ self.V.T, -1.0, 1.0))
         niches = acute_angle.argmin(axis=1)
 
         # assign to each reference direction the solution
-- 
2.43.0


From 8f94618208254c1bd10bfd771035842623e6fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 54/96] fix: C-TAEA with fewer individuals than reference
 directions

---
 pymoo/algorithms/moo/ctaea.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 171bc19..6a14887 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -97,8 +97,8 @@ class CADASurvival:
     def do(self, _, pop, da, n_survive=None, random_state=None, **kwargs):
         # Store random_state for use in methods
         self.random_state = random_state
-        # Offspring are last of merged population
-        off = pop[-n_survive:]
+        # Offspring are last of merged population (both archives always have the same size)
+        off = pop[len(da) :]
         # Update ideal point
         self.ideal_point = np.min(np.vstack((self.ideal_point, off.get("F"))), axis=0)
         # Update CA
@@ -126,6 +126,9 @@ class CADASurvival:
     @default_random_state
     def _updateCA(self, pop, n_survive, random_state=None):
         """Update the Convergence archive (CA)."""
+        # there can not be more members than candidates
+        n_survive = min(n_survive, len(pop))
+
         CV = pop.get("CV").flatten()
 
         Sc = pop[CV == 0]  # ConstraintsAsObjective population
@@ -213,10 +216,13 @@ class CADASurvival:
         niche_Hd, FV = self._associate(Hd)
         niche_CA, _ = self._associate(pop)
 
+        # there can not be more members than candidates
+        n_survive = min(n_survive, len(Hd))
+
         itr = 1
         S = []
         while len(S) < n_survive:
-            for i in range(n_survive):
+            for i in range(len(self.ref_dirs)):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
                     for _ in range(itr - len(current_ca)):
-- 
2.43.0


From aeafae4de6ff49e6f43619ecb8ca40412c6794e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 55/96] fix: nelder-mead starts from a sorted simplex of the
 requested scale

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 7a79ef0..c6dddeb 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -141,12 +141,15 @@ class NelderMead(LocalSearch):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
 
     def _initialize_simplex(self):
-        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=0.05))
+        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=self.init_simplex_scale))
         return Population.merge(self.x0, simplex)
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            pop = yield self._initialize_simplex()
+
+            # the steps rely on the vertices being sorted
+            self.pop = FitnessSurvival().do(self.problem, pop, n_survive=len(pop))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From 5f094156d129b09145820f07e575ddd08db93267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 56/96] fix: only the bound a variable moves towards limits the
 step length

---
 pymoo/util/vectors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymoo/util/vectors.py b/pymoo/util/vectors.py
index 20bc330..82876d2 100644
--- a/pymoo/util/vectors.py
+++ b/pymoo/util/vectors.py
@@ -34,9 +34,11 @@ def max_alpha(point, direction, xl, xu, mode="one_hits_bound"):
     # otherwise return the minimum of values considered
     else:
         if mode == "one_hits_bound":
-            if not np.any(val >= 0):
-                return 0.0
-            else:
-                return val[val >= 0].min()
+            # only the bound a variable is moving towards limits the step
+            towards = ([dir < 0] if xl is not None else []) + ([dir > 0] if xu is not None else [])
+            val = val[np.column_stack(towards)]
+
+            # a point which is on the bound (up to round-off) can not move any further
+            return max(0.0, val.min()) if len(val) > 0 else np.inf
         else:
             return val.max()
-- 
2.43.0


From bc1f739b6f79a007c680b9d24f9aefab416295e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 57/96] fix: quadratic interpolation keeps the side of the
 minimum and its parabola

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..ff72306 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,8 +7,8 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
@@ -35,7 +35,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=(a.X + b.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -51,11 +51,11 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                a = c
-            else:
                 b = c
+            else:
+                a = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=(a.X + b.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From 15f628a331298ee2882009a8ed82fc67f8100c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 58/96] fix: bracket searches keep the brackets of their
 constructor

---
 pymoo/algorithms/base/bracket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index d202030..0785805 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -14,7 +14,8 @@ class BracketSearch(Algorithm):
     def _setup(self, problem, a=None, b=None, **kwargs):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
-        self.a, self.b = a, b
+        self.a = a if a is not None else self.a
+        self.b = b if b is not None else self.b
 
     def _initialize_infill(self):
 
-- 
2.43.0


From 097ef47735df9788551a58a01c6279349cee8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 59/96] fix: exponential search follows the generation protocol

---
 pymoo/algorithms/soo/univariate/exp.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/exp.py b/pymoo/algorithms/soo/univariate/exp.py
index 3705454..ab44339 100644
--- a/pymoo/algorithms/soo/univariate/exp.py
+++ b/pymoo/algorithms/soo/univariate/exp.py
@@ -30,17 +30,22 @@ class ExponentialSearch(Algorithm):
         else:
             return Population.create(self.point)
 
-    def step(self):
+    def _initialize_advance(self, infills=None, **kwargs):
+        self.point = infills[0]
+
+    def _infill(self):
         alpha, max_alpha = self.alpha, self.problem.xu[0]
 
         if alpha > max_alpha:
             alpha = max_alpha
 
-        infill = Individual(X=np.array([alpha]))
-        self.evaluator.eval(self.problem, infill)
-        self.pop = Population.merge(self.pop, infill)[-10:]
+        return Population.create(Individual(X=np.array([alpha])))
+
+    def _advance(self, infills=None, **kwargs):
+        infill = infills[0]
+        self.pop = Population.merge(self.pop, infills)[-10:]
 
-        if is_better(self.point, infill, eps=0.0) or alpha == max_alpha:
+        if is_better(self.point, infill, eps=0.0) or infill.X[0] == self.problem.xu[0]:
             self.termination.force_termination = True
             return
 
-- 
2.43.0


From fd7dd9554c532ab8aa48a0c1692dea8176f53b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 60/96] fix: wolfe line search conditions and termination

---
 pymoo/algorithms/soo/univariate/wolfe.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/wolfe.py b/pymoo/algorithms/soo/univariate/wolfe.py
index abafb25..d7f3356 100644
--- a/pymoo/algorithms/soo/univariate/wolfe.py
+++ b/pymoo/algorithms/soo/univariate/wolfe.py
@@ -46,7 +46,7 @@ class WolfeSearch(Algorithm):
 
         def zoom(alpha_low, alpha_high, max_iter=100):
 
-            while True:
+            for _ in range(max_iter):
                 _alpha = (alpha_high.get("alpha") + alpha_low.get("alpha")) / 2
                 _point = Individual(X=_alpha)
                 evaluator.eval(problem, _point, evaluate_values_of=["F", "CV"])
@@ -65,6 +65,8 @@ class WolfeSearch(Algorithm):
 
                     alpha_low = _point
 
+            return alpha_low
+
         last = sol
 
         alpha = 1.0
@@ -78,7 +80,7 @@ class WolfeSearch(Algorithm):
             F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
             # if the wolfe condition is violate we have found our upper bound
-            if _F > sol_F + self.c1 * sol_dF @ direction or (i > 1 and F >= _F):
+            if _F > sol_F + self.c1 * alpha * sol_dF @ direction or (i > 1 and _F >= F):
                 return zoom(last, current)
 
             # for the other condition we need the gradient information
@@ -95,7 +97,7 @@ class WolfeSearch(Algorithm):
             last = current
             current = Individual(X=alpha)
 
-        return current
+        return last
 
 
 def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, evaluator=None):
@@ -109,7 +111,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
 
     def zoom(alpha_low, alpha_high, max_iter=100):
 
-        while True:
+        for _ in range(max_iter):
             _alpha = (alpha_high.get("alpha") + alpha_low.get("alpha")) / 2
             _point = Individual(X=sol.X + _alpha * direction, alpha=_alpha)
             evaluator.eval(problem, _point, evaluate_values_of=["F", "CV"])
@@ -128,6 +130,8 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
 
                 alpha_low = _point
 
+        return alpha_low
+
     last = sol
 
     alpha = 1.0
@@ -141,7 +145,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
         # if the wolfe condition is violate we have found our upper bound
-        if _F > sol_F + c1 * sol_dF @ direction or (i > 1 and F >= _F):
+        if _F > sol_F + c1 * alpha * sol_dF @ direction or (i > 1 and _F >= F):
             return zoom(last, current)
 
         # for the other condition we need the gradient information
@@ -158,4 +162,4 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         last = current
         current = Individual(X=sol.X + alpha * direction, alpha=alpha)
 
-    return current
+    return last
-- 
2.43.0


From 558b0e2c635dbf1482b06d00b31799c884a0534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 61/96] fix: line search problem uses the bounds of its
 original problem

---
 pymoo/algorithms/base/line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/base/line.py b/pymoo/algorithms/base/line.py
index 07cd012..e100a92 100644
--- a/pymoo/algorithms/base/line.py
+++ b/pymoo/algorithms/base/line.py
@@ -56,7 +56,7 @@ class LineSearchProblem(Meta, Problem):
 
         x = self.point.X + alpha * self.direction
         if self.strict_bounds:
-            x = set_to_bounds_if_outside(x, self.xl, self.xu)
+            x = set_to_bounds_if_outside(x, *self.__object__.bounds())
         out["__X__"] = x
 
-        super()._evaluate(x, out, *args, **kwargs)
+        self.__object__._evaluate(x, out, *args, **kwargs)
-- 
2.43.0


From 779551937d40bcc3ef7f156291f7dbfe02bad9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 62/96] fix: DIRECT reduces its candidates and compares cell
 sizes free of round-off

---
 pymoo/algorithms/soo/nonconvex/direct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 1ec47e2..8491c53 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -74,7 +74,9 @@ class DIRECT(LocalSearch):
         # get the length of the interval of each solution
         nxl, nxu = norm_bounds(pop, self.problem)
         length = (nxu - nxl) / 2
-        val = length.mean(axis=1)
+
+        # cells of the same size must compare as equal regardless of where they are located
+        val = np.round(length.mean(axis=1), 12)
 
         # (a) non-dominated set with respect to interval
         obj = np.column_stack([-val, F])
@@ -109,7 +111,7 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self, random_state=self.random_state
+                    self.problem, candidates, n_survive=self.n_max_candidates, algorithm=self, random_state=self.random_state
                 )
 
             return candidates
-- 
2.43.0


From 3b82a3b158b5ef2bb79cab59a4e0a7bff45d9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 63/96] fix: initial solutions of PSO and CMOPSO pass the
 configured repair

---
 pymoo/algorithms/moo/cmopso.py        | 2 +-
 pymoo/algorithms/soo/nonconvex/pso.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index 57fb1d2..546336b 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -162,7 +162,7 @@ class CMOPSO(Algorithm):
         self.pop_size = pop_size
         self.max_velocity_rate = max_velocity_rate
         self.elite_size = elite_size
-        self.initialization = Initialization(sampling)
+        self.initialization = Initialization(sampling, repair=repair)
         self.initial_velocity = initial_velocity
         self.repair = repair
         self._cd = get_crowding_function("cd")
diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 519067c..f7fb40a 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -164,7 +164,7 @@ class PSO(Algorithm):
         """
         super().__init__(output=output, **kwargs)
 
-        self.initialization = Initialization(sampling)
+        self.initialization = Initialization(sampling, repair=repair)
 
         self.pop_size = pop_size
         self.adaptive = adaptive
-- 
2.43.0


From 1b0ded6ac1c09ae416cae215def707eee0f7a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 64/96] fix: NSDE passes repair on to its mating

---
 pymoo/algorithms/moo/nsde.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/nsde.py b/pymoo/algorithms/moo/nsde.py
index b34343a..a8fc271 100644
--- a/pymoo/algorithms/moo/nsde.py
+++ b/pymoo/algorithms/moo/nsde.py
@@ -172,7 +172,14 @@ class NSDE(NSGA2):
         if survival is None:
             survival = RankAndCrowding()
 
-        mating = VariantDE(variant=variant, CR=CR, F=F, gamma=gamma, de_repair=de_repair)
+        mating = VariantDE(
+            variant=variant,
+            CR=CR,
+            F=F,
+            gamma=gamma,
+            de_repair=de_repair,
+            repair=kwargs.get("repair"),
+        )
 
         super().__init__(
             pop_size=pop_size,
-- 
2.43.0


From 863ffec308c89e56793cd58674356ba2b0f3fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 65/96] fix: random solutions of KGB cover the bounds

---
 pymoo/algorithms/moo/kgb.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 06945a8..e9c230d 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -285,16 +285,8 @@ class KGB(NSGA2):
             Randomly generated population.
         """
         # generate a random population of size N_r
-        # TODO: Check boundaries
-        random_pop = self.random_state.random((N_r, self.problem.n_var))
-
-        # check if any solution is outside the bounds
-        for individual in random_pop:
-            for i in range(len(individual)):
-                if individual[i] > self.problem.xu[i]:
-                    individual[i] = self.problem.xu[i]
-                elif individual[i] < self.problem.xl[i]:
-                    individual[i] = self.problem.xl[i]
+        xl, xu = self.problem.bounds()
+        random_pop = xl + (xu - xl) * self.random_state.random((N_r, self.problem.n_var))
 
         return random_pop
 
-- 
2.43.0


From b645570f9b085696c499e0d5f9db7b6006935d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 66/96] fix: D-NSGA-II without any member chosen for mutation

---
 pymoo/algorithms/moo/dnsga2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 954a0ee..7f4bab7 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,8 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
+                if len(I) > 0:
+                    self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From ec76418dfc27210484ddaa63e262d701e66e673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 67/96] fix: solutions introduced after a change are repaired

---
 pymoo/algorithms/moo/dnsga2.py | 3 +++
 pymoo/algorithms/moo/kgb.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 7f4bab7..ef1a644 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -59,6 +59,9 @@ class DNSGA2(NSGA2):
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
+            # repair the solutions introduced - disabled if repair is NoRepair
+            pop = self.repair(self.problem, pop, random_state=self.random_state)
+
             # reevaluate because we know there was a change
             self.evaluator.eval(self.problem, pop)
 
diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index e9c230d..2d9d233 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -406,6 +406,9 @@ class KGB(NSGA2):
             # recreate the current population without being evaluated
             pop = Population.new(X=init_pop)
 
+            # repair the solutions introduced - disabled if repair is NoRepair
+            pop = self.repair(self.problem, pop, random_state=self.random_state)
+
             # reevaluate because we know there was a change
             self.evaluator.eval(self.problem, pop)
 
-- 
2.43.0


From 10112b0833940a2e99a251cb65ea439e2c3e8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 68/96] fix: NRBO does not divide by zero

---
 pymoo/algorithms/soo/nonconvex/nrbo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index b4e402b..4119d09 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -37,7 +37,7 @@ def Search_Rule(Xb, Xw, Xn, rho, random_state=None):
 
     dx = random_state.random(dim) * np.abs(Xb - Xn)
 
-    tmp = Xw + Xb - 2 * Xn
+    tmp = (Xw + Xb - 2 * Xn).astype(float)
     idx = np.where(tmp == 0.0)
     # repair if xj=0
     if idx:
@@ -52,7 +52,10 @@ def Search_Rule(Xb, Xw, Xn, rho, random_state=None):
     yw = r1 * (tmp + r1 * dx)
     yb = r1 * (tmp - r1 * dx)
 
-    NRSR = random_state.standard_normal() * ((yw - yb) * dx) / (2 * (yw + yb - 2 * Xn))
+    # the same for this denominator (zero if xj=0 is the best solution)
+    tmp = yw + yb - 2 * Xn
+    tmp[tmp == 0.0] = 1e-12
+    NRSR = random_state.standard_normal() * ((yw - yb) * dx) / (2 * tmp)
 
     step = NRSR - rho
     X1 = Xn - step
-- 
2.43.0


From b52477f9e5ae2fd14a25691ace32898ecadaf361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 69/96] fix: correlation criterion of a single variable

---
 pymoo/operators/sampling/lhs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/sampling/lhs.py b/pymoo/operators/sampling/lhs.py
index 678e698..922da21 100644
--- a/pymoo/operators/sampling/lhs.py
+++ b/pymoo/operators/sampling/lhs.py
@@ -30,7 +30,7 @@ def criterion_corr(X: np.ndarray) -> np.floating:
     Returns:
         Negative sum of squared correlations.
     """
-    M = np.corrcoef(X.T, rowvar=True)
+    M = np.atleast_2d(np.corrcoef(X.T, rowvar=True))
     return -np.sum(np.tril(M, -1) ** 2)
 
 
-- 
2.43.0


From 5f2cb70ad9697c3ef5068e1cfd715cd50c9f0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 70/96] fix: unit scaling of integer bounds

---
 pymoo/util/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 562d4fc..931eb71 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -136,8 +136,8 @@ class SimpleZeroToOneNormalization(Normalization):
         # if np.any(xl == xu):
         #     raise Exception("Normalization failed because lower and upper bounds are equal!")
 
-        # calculate the denominator
-        denom = xu - xl
+        # calculate the denominator (as a float because of the epsilon added below)
+        denom = np.asarray(xu - xl, dtype=float)
 
         # we can not divide by zero -> plus small epsilon
         denom += (denom == 0) * 1e-32
-- 
2.43.0


From ce6f0a4c824291deda05a501b8867729f4dce2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 71/96] fix: neighbor finder with a given minimum, outliers
 without values

---
 pymoo/core/decision_making.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 0a49f39..ab5ad25 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -29,8 +29,11 @@ class NeighborFinder:
             self.n_min_neigbors = min(2 * n_dim, _ - 1)
 
         # disable the minimum neighbor variable
+        elif n_min_neigbors is None:
+            self.n_min_neigbors = 0
+
         else:
-            self.n_min_neigbors = np.inf
+            self.n_min_neigbors = n_min_neigbors
 
         # either choose epsilon
         self.epsilon = epsilon
@@ -84,6 +87,10 @@ def find_outliers_upper_tail(mu):
     )[0]
     mu = mu[I]
 
+    # without any value there can not be an outlier
+    if len(mu) == 0:
+        return None
+
     # calculate mean and sigma
     mean, sigma = mu.mean(), mu.std()
 
-- 
2.43.0


From 536d2abc55b9192bbedf012561394efd4dff1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 72/96] fix: high trade-off points use their epsilon

---
 pymoo/mcdm/high_tradeoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..2497ded 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -19,7 +19,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
-- 
2.43.0


From 2797c6ef0a63fe8e2d2fb05bbd5715c2076b8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 73/96] fix: randomized quicksort uses the random state given

---
 pymoo/util/randomized_argsort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/randomized_argsort.py b/pymoo/util/randomized_argsort.py
index 117b058..2aa5e86 100644
--- a/pymoo/util/randomized_argsort.py
+++ b/pymoo/util/randomized_argsort.py
@@ -14,7 +14,7 @@ def randomized_argsort(A, method="numpy", order="ascending", random_state=None):
         I = P[I]  # noqa: E741
 
     elif method == "quicksort":
-        I = quicksort(A)  # noqa: E741
+        I = quicksort(A, random_state=random_state)  # noqa: E741
 
     else:
         raise Exception("Randomized sort method not known.")
-- 
2.43.0


From 925479642e9c859bbf5e430b502cbdf53a84dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 74/96] fix: hyper-parameters whose name contains a dot

---
 pymoo/algorithms/hyperparameters.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/hyperparameters.py b/pymoo/algorithms/hyperparameters.py
index 0ad0daf..54f6757 100644
--- a/pymoo/algorithms/hyperparameters.py
+++ b/pymoo/algorithms/hyperparameters.py
@@ -12,7 +12,14 @@ from pymoo.util import default_random_state
 
 def create(algorithm, params):
     algorithm = deepcopy(algorithm)
-    set_params(algorithm, hierarchical(params))
+
+    # the parameters can directly be set if known by their name (which might contain a dot itself)
+    known = flatten(get_params(algorithm))
+    for name in params:
+        if name in known:
+            known[name].set(params[name])
+
+    set_params(algorithm, hierarchical({k: v for k, v in params.items() if k not in known}))
     return algorithm
 
 
-- 
2.43.0


From d5112aa723950fd0102eea57b76f0bbabd7cbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 75/96] fix: a choice of numbers is sampled as an array of
 numbers

---
 pymoo/core/variable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index 63a57d9..7076668 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -248,6 +248,11 @@ class Choice(Variable):
         options = np.empty(len(self.options), dtype=object)
         for k, option in enumerate(self.options):
             options[k] = option
+
+        # an array of numbers or booleans can be used directly (for instance as a mask)
+        if len({type(option) for option in options}) == 1 and isinstance(options[0], (bool, int, float)):
+            options = np.array(self.options)
+
         return random_state.choice(options, size=n)
 
 
-- 
2.43.0


From 0bd8122a72e3948b23a03067c01545c559224af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 76/96] fix: setting the time of a dynamic problem forgets its
 optimum

---
 pymoo/problems/dyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/dyn.py b/pymoo/problems/dyn.py
index accf656..f863ad3 100644
--- a/pymoo/problems/dyn.py
+++ b/pymoo/problems/dyn.py
@@ -63,6 +63,9 @@ class DynamicTestProblem(DynamicProblem, ABC):
         """
         self._time = value
 
+        # remove the cache of the problem to recreate ps and pf
+        self.__dict__["cache"] = {}
+
 
 class TimeSimulation(Callback):
     """Callback to update time in dynamic problems during optimization."""
-- 
2.43.0


From ce2882b59c4d1e0d774fc62e1cd4a38e3873a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 77/96] fix: fronts of the MW problems keep the given
 directions

---
 pymoo/problems/multi/mw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index f51b45d..b7b71a1 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -79,7 +79,7 @@ class MW1(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - 0.85 * F[:, 0]
         length = np.sqrt(2) * F[:, 1] - np.sqrt(2) * F[:, 0]
         c = 1 - F[:, 0] - F[:, 1] + 0.5 * np.sin(2 * np.pi * length) ** 8
@@ -105,7 +105,7 @@ class MW2(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - F[:, 0]
         return F
 
@@ -129,7 +129,7 @@ class MW3(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - F[:, 0]
         invalid = (0.85 - F[:, 0] - F[:, 1] + 0.3 * np.sin(0.75 * np.pi * np.sqrt(2) * (F[:, 1] - F[:, 0])) ** 2) > 0
         while invalid.any():
@@ -213,7 +213,7 @@ class MW6(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - F[:, 0]
         F = F / np.sqrt(np.sum(F**2, axis=1) / 1.21).reshape((-1, 1))
         length = np.cos(6 * np.arctan(F[:, 1] / F[:, 0]) ** 4) ** 10
@@ -355,7 +355,7 @@ class MW12(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 0.85 - 0.8 * F[:, 0] - 0.08 * np.abs(np.sin(3.2 * np.pi * F[:, 0]))
 
         invalid = (1 - 0.8 * F[:, 0] - F[:, 1] + 0.08 * np.sin(2 * np.pi * (F[:, 1] - F[:, 0] / 1.5))) * (
-- 
2.43.0


From 2e89c93ce55c81a0726f571b0f9abb0991d6434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 78/96] fix: the front of WFG2 has no dominated parts

---
 pymoo/problems/many/wfg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index b1cc6d1..537dfad 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -224,6 +224,17 @@ class WFG2(WFG):
         super().validate(l, k, n_obj)
         validate_wfg2_wfg3(l)
 
+    def _calc_pareto_set(self, *args, **kwargs):
+        """Calculate the Pareto set, leaving out the positions which are dominated (disconnected shape)."""
+        ps = super()._calc_pareto_set(*args, **kwargs)
+        F = self.evaluate(ps, return_values_of=["F"])
+        return ps[load_function("find_non_dominated")(F)]
+
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the Pareto front, leaving out the dominated parts (disconnected shape)."""
+        pf = super()._calc_pareto_front(*args, **kwargs)
+        return pf[load_function("find_non_dominated")(pf)]
+
     @staticmethod
     def t2(x, n, k):
         """Second transformation: non-separable reduction."""
-- 
2.43.0


From 51879a9e8580a1c1aa76268f1cd35108e44842a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 79/96] fix: Pareto set of the pressure vessel problem

---
 pymoo/problems/single/pressure_vessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/single/pressure_vessel.py b/pymoo/problems/single/pressure_vessel.py
index 0b56a3d..0bd03ab 100644
--- a/pymoo/problems/single/pressure_vessel.py
+++ b/pymoo/problems/single/pressure_vessel.py
@@ -29,4 +29,4 @@ class PressureVessel(Problem):
         return 5.8853e03
 
     def _calc_pareto_set(self):
-        return [13, 7, 42.0984456, 176.6366]
+        return [12.450698, 6.154387, 40.319619, 200.0]
-- 
2.43.0


From 0c1d9d97a9b8df11c164c7a5dd0bcd7e698055fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 80/96] fix: Pareto set of the Himmelblau problem as an array

---
 pymoo/problems/single/himmelblau.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/problems/single/himmelblau.py b/pymoo/problems/single/himmelblau.py
index c53735e..6e2722d 100644
--- a/pymoo/problems/single/himmelblau.py
+++ b/pymoo/problems/single/himmelblau.py
@@ -1,5 +1,7 @@
 """Himmelblau single-objective test problem."""
 
+import numpy as np
+
 from pymoo.core.problem import Problem
 
 
@@ -14,9 +16,11 @@ class Himmelblau(Problem):
         return 0
 
     def _calc_pareto_set(self):
-        return [
-            [3.0, 2.0],
-            [-2.805118, 3.131312],
-            [-3.779310, -3.283186],
-            [3.584428, -1.848126],
-        ]
+        return np.array(
+            [
+                [3.0, 2.0],
+                [-2.805118, 3.131312],
+                [-3.779310, -3.283186],
+                [3.584428, -1.848126],
+            ]
+        )
-- 
2.43.0


From 40c785f3eb2288458c1cf8a3c364a3486571794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 81/96] fix: normalized problems know the optimum of the
 wrapped problem

---
 pymoo/problems/zero_to_one.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index bd729ee..fd0f553 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -27,3 +27,17 @@ class ZeroToOne(Meta, Problem):
 
     def normalize(self, x):
         return normalize(x, self.__object__.xl, self.__object__.xu)
+
+    def pareto_front(self, *args, **kwargs):
+        return self.__object__.pareto_front(*args, **kwargs)
+
+    def pareto_set(self, *args, **kwargs):
+        # the solutions of the wrapped problem are not yet in the normalized space
+        ps = self.__object__.pareto_set(*args, **kwargs)
+        return None if ps is None else self.normalize(ps)
+
+    def ideal_point(self, *args, **kwargs):
+        return self.__object__.ideal_point(*args, **kwargs)
+
+    def nadir_point(self, *args, **kwargs):
+        return self.__object__.nadir_point(*args, **kwargs)
-- 
2.43.0


From 3f910f0fb467048f0e0edda29c6aaa361d275bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 82/96] fix: a decomposed problem does not declare the
 multi-objective optimum

---
 pymoo/problems/multi_to_single.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 4082c9f..64d38e2 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -21,6 +21,15 @@ class MultiToSingleObjective(Meta, Problem):
         self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
+        # the optimum of the multi-objective problem is not the one of the decomposition
+        self.cache = {}
+
+    def pareto_front(self, *args: Any, **kwargs: Any) -> None:  # noqa: ARG002
+        return None
+
+    def pareto_set(self, *args: Any, **kwargs: Any) -> None:  # noqa: ARG002
+        return None
+
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
         F = out["F"]
-- 
2.43.0


From a44c157116f108070c6abfc1eefce913730ba1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 83/96] fix: constraints as objectives declare their own front

---
 pymoo/constraints/as_obj.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index ae8dcc1..260953c 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -24,6 +24,9 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_ieq_constr = 0
         self.n_eq_constr = 0
 
+        # the points stored by the wrapped problem have other objectives
+        self.cache = {}
+
     def do(self, X, return_values_of, *args, **kwargs):
         # the constraints are always necessary to calculate the violation
         values = list(return_values_of) + [e for e in ["F", "G", "H"] if e not in return_values_of]
@@ -50,7 +53,10 @@ class ConstraintsAsObjective(Meta, Problem):
         return out
 
     def pareto_front(self, *args, **kwargs):
-        pf = super().pareto_front(*args, **kwargs)
+        pf = self.__object__.pareto_front(*args, **kwargs)
         if pf is not None:
-            pf = np.column_stack([np.zeros(len(pf)), pf])
+            if self.append:
+                pf = np.column_stack([np.zeros(len(pf)), pf])
+            else:
+                pf = np.zeros((1, 1))
         return pf
-- 
2.43.0


From c373831ebb8c51964a727a192cf903f456b03455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 84/96] fix: convex DTLZ fronts without given directions

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 1fbc2a1..2d46483 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -573,7 +573,7 @@ class ConvexProblem(Problem):
         self.problem._evaluate(x, out, **kwargs)
         out["F"] = anp.power(out["F"], self.get_power(self.n_obj))
 
-    def _calc_pareto_front(self, ref_dirs, *args, **kwargs):
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
         """Calculate Pareto front with convex transformation.
 
         Args:
-- 
2.43.0


From bde893932dd48c6bdd985c37f490f4bcb1f3dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 85/96] fix: number of objectives of the multi-objective
 knapsack

---
 pymoo/problems/single/knapsack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/problems/single/knapsack.py b/pymoo/problems/single/knapsack.py
index f3c39f8..ba7b77c 100644
--- a/pymoo/problems/single/knapsack.py
+++ b/pymoo/problems/single/knapsack.py
@@ -28,6 +28,7 @@ class Knapsack(Problem):
 class MultiObjectiveKnapsack(Knapsack):
     def __init__(self, *args):
         super().__init__(*args)
+        self.n_obj = 2
 
     def _evaluate(self, x, out, *args, **kwargs):
         f1 = -np.sum(self.P * x, axis=1)
-- 
2.43.0


From 91c470ca302ee43773a7ab5d7edc8baaea625e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 86/96] fix: bounds of flowshop and tour problems name existing
 items

---
 pymoo/problems/single/flowshop_scheduling.py | 2 +-
 pymoo/problems/single/traveling_salesman.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/single/flowshop_scheduling.py b/pymoo/problems/single/flowshop_scheduling.py
index aafc778..251b43f 100644
--- a/pymoo/problems/single/flowshop_scheduling.py
+++ b/pymoo/problems/single/flowshop_scheduling.py
@@ -20,7 +20,7 @@ class FlowshopScheduling(ElementwiseProblem):
         n_machines, n_jobs = processing_times.shape
         self.records = processing_times
 
-        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_machines, vtype=int, **kwargs)
+        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_jobs - 1, vtype=int, **kwargs)
 
     def _evaluate(self, x: Any, out: Any, *args: Any, **kwargs: Any) -> Any:  # noqa: ARG002
         out["F"] = self.makespan(x)
diff --git a/pymoo/problems/single/traveling_salesman.py b/pymoo/problems/single/traveling_salesman.py
index 193b7e6..f74104a 100644
--- a/pymoo/problems/single/traveling_salesman.py
+++ b/pymoo/problems/single/traveling_salesman.py
@@ -22,7 +22,7 @@ class TravelingSalesman(ElementwiseProblem):
         self.cities = cities
         self.D = cdist(cities, cities)
 
-        super(TravelingSalesman, self).__init__(n_var=n_cities, n_obj=1, xl=0, xu=n_cities, vtype=int, **kwargs)
+        super(TravelingSalesman, self).__init__(n_var=n_cities, n_obj=1, xl=0, xu=n_cities - 1, vtype=int, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs):
         out["F"] = self.get_route_length(x)
-- 
2.43.0


From a8cbca03bb0e2037bc32184d9a062af0085d6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 87/96] fix: a value function splits the solutions in both
 directions

---
 pymoo/util/vf_dominator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/util/vf_dominator.py b/pymoo/util/vf_dominator.py
index e782ff3..cabb1a1 100644
--- a/pymoo/util/vf_dominator.py
+++ b/pymoo/util/vf_dominator.py
@@ -93,6 +93,9 @@ class VFDominator:
 
             dom = np.logical_or(dom, split_by_v2)
 
+            # and the same from the view of the better one of such a pair
+            non_dom = np.logical_or(non_dom, np.reshape(np.logical_and(Lv > v2, Rv < v2), (n, m)))
+
         M = non_dom * 1 + dom * -1
 
         return M
-- 
2.43.0


From 22ca946f83d043d9cc85829322521b082318a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 88/96] fix: fitting with SLSQP, and fits without any solution

---
 pymoo/util/value_functions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index f34c003..eac9784 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -640,18 +640,21 @@ def _validate_vf(res, verbose):
     message = ""
 
     if isinstance(res, pymoo.core.result.Result):
-        success = np.all(res.G <= 0)
-        epsilon = res.X[-1]
+        # no solution means that no function satisfies the constraints
+        success = res.X is not None and bool(np.all(res.G <= 0))
+        epsilon = res.X[-1] if res.X is not None else -1000
         if not success:
             message = "Constraints not met\n"
         if epsilon < 0:
             message = message + "Epsilon negative\n"
 
     elif isinstance(res, OptimizeResult):
-        success = res.success and res.constr_violation <= 0
+        # not all methods report a violation separately from their success
+        violated = res.get("constr_violation", 0) > 0
+        success = res.success and not violated
         epsilon = res.x[-1]
 
-        if not (res.constr_violation <= 0):
+        if violated:
             message = "Constraints not met."
         else:
             message = res.message
-- 
2.43.0


From c6dccbdf68a35f88a48bb7e881e7bc2c42430edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 89/96] fix: fitting a value function keeps the ranks given

---
 pymoo/util/value_functions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index eac9784..2f7ef92 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -89,7 +89,7 @@ def create_vf_scipy_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
         ineq_ub.append(0)
 
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     constr = NonlinearConstraint(_build_constr_poly(P_sorted, poly_vf, ranks, delta), ineq_lb, ineq_ub)
 
@@ -149,7 +149,7 @@ def create_vf_scipy_linear(P, ranks, delta, eps_max, method="trust-constr", verb
 
     # Sort P
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     # Inequality constraints
     lb = [-np.inf] * (P.shape[0] - 1)
@@ -600,12 +600,10 @@ class OptimizeLinearVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-        self.ranks = ranks
         self.delta = delta
 
         super().__init__(
@@ -695,8 +693,7 @@ class OptimizePolyVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-- 
2.43.0


From d4d2958a3a649838cd8dbc6a9a7996a33156e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 90/96] fix: create_vf of a linear function

---
 pymoo/util/value_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 2f7ef92..7c00af5 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -30,7 +30,7 @@ def create_vf(
 ):
 
     if vf == "linear":
-        return create_linear_vf(P, ranks, delta, eps_max, method, verbose)
+        return create_linear_vf(P, ranks, delta, eps_max, method)
     elif vf == "poly":
         return create_poly_vf(P, ranks, delta, eps_max, method, verbose)
 
-- 
2.43.0


From 852bca018e9e2b0a9adbffe44e184b341d64e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 91/96] fix: PI-NSGA-II splits by the second best solution

---
 pymoo/algorithms/moo/pinsga2.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index a61d29c..4a0a740 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -336,7 +336,9 @@ class PINSGA2(GeneticAlgorithm):
                 if vf_res.fit:
                     self.vf_res = vf_res
                     self.vf_plot_flag = True
-                    self.v2 = self.vf_res.vf(eta_F[dm_ranks[1] - 1] * -1).item()
+                    # the value of the second best solution
+                    second = np.argsort(dm_ranks, kind="stable")[1]
+                    self.v2 = self.vf_res.vf(eta_F[second] * -1).item()
                     break
 
                 else:
@@ -352,14 +354,15 @@ class PINSGA2(GeneticAlgorithm):
                     else:
                         self._warn("Removing the second best preferred solution from the fit.")
 
-                        # ranks start at 1, not zero
-                        rank_to_remove = dm_ranks[1]
-                        eta_F = np.delete(eta_F, rank_to_remove - 1, axis=0)
+                        to_remove = np.argsort(dm_ranks, kind="stable")[1]
+                        rank_to_remove = dm_ranks[to_remove]
 
-                        dm_ranks = np.concatenate(([dm_ranks[0]], dm_ranks[2:]))
+                        eta_F = np.delete(eta_F, to_remove, axis=0)
+                        dm_ranks = np.delete(dm_ranks, to_remove)
 
                         # update the ranks, since we just removed one
-                        dm_ranks[dm_ranks > rank_to_remove] = dm_ranks[dm_ranks > rank_to_remove] - 1
+                        if rank_to_remove not in dm_ranks:
+                            dm_ranks[dm_ranks > rank_to_remove] -= 1
 
 
 parse_doc_string(PINSGA2.__init__)
-- 
2.43.0


From 3fc688b756b281656f1b0f60c249542d5d20301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 92/96] fix: PI-NSGA-II notices that there is no preference

---
 pymoo/algorithms/moo/pinsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 4a0a740..73271f4 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -301,7 +301,7 @@ class PINSGA2(GeneticAlgorithm):
                 else:
                     raise ValueError("Invalid ranking type [%s] given." % self.ranking_type)
 
-            if len(set(rank)) == 0:
+            if len(set(dm_ranks)) == 1:
                 self._warn("No preference between any two points provided.")
 
                 self._reset_dm_preference()
-- 
2.43.0


From e7f62e59bc10987aef39c15233841c6a8c61c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 93/96] fix: PI-NSGA-II accepts ranks as its question shows
 them

---
 pymoo/algorithms/moo/pinsga2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 73271f4..dcfdfae 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -127,7 +127,7 @@ class PINSGA2(GeneticAlgorithm):
         if raw_ranks == "":
             ranks = []
         else:
-            ranks = [int(raw_rank) for raw_rank in raw_ranks.split()]
+            ranks = [int(raw_rank) for raw_rank in raw_ranks.replace(",", " ").split()]
 
         return ranks
 
@@ -213,7 +213,7 @@ class PINSGA2(GeneticAlgorithm):
         while ranks_invalid:
             fc = F.shape[0]
 
-            if len(ranks) > 0 and max(ranks) <= fc and min(ranks) >= 1:
+            if len(ranks) == fc and max(ranks) <= fc and min(ranks) >= 1:
                 ranks_invalid = False
 
             else:
-- 
2.43.0


From 3c6778da7ee57e9fca838d9ced462b912cec3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:30 +0000
Subject: [PATCH 94/96] fix: the running metric of a set without a range

---
 pymoo/util/running_metric.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pymoo/util/running_metric.py b/pymoo/util/running_metric.py
index fba919c..27e0f30 100644
--- a/pymoo/util/running_metric.py
+++ b/pymoo/util/running_metric.py
@@ -49,14 +49,13 @@ class RunningMetric(Callback):
         # find the normalization constant to divide by
         norm = c_nadir - c_ideal
 
-        # make sure all dimensions in ideal are strictly lower than in nadir
-        c_nadir[c_ideal == c_nadir] += 1e-16
-        norm[c_ideal == c_nadir] = 1.0
+        # if the range is degenerated (very close to zero) - disable normalization by dividing by one
+        norm[norm < 1e-32] = 1.0
 
         # append the current optimum to the history
         history.append(dict(F=F, ideal=c_ideal, nadir=c_nadir))
 
-        # normalize the current objective space values (use the utopian if equal)
+        # normalize the current objective space values
         c_N = normalize(c_F, c_ideal, c_nadir)
 
         # normalize all previous generations with respect to current ideal and nadir
-- 
2.43.0


From 6c225ce9a33cdb0b32cf836418d857f2fba1e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:30 +0000
Subject: [PATCH 95/96] fix: NRBO prints its progress when asked

---
 pymoo/algorithms/soo/nonconvex/nrbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index 4119d09..d8f7f4b 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -17,6 +17,7 @@ from pymoo.core.survival import Survival
 from pymoo.operators.repair.bounds_repair import repair_random_init
 from pymoo.operators.sampling.lhs import LHS
 from pymoo.util import default_random_state
+from pymoo.util.display.single import SingleObjectiveOutput
 
 
 class FitnessSurvival(Survival):
@@ -71,7 +72,7 @@ class NRBO(Algorithm):
         sampling=LHS(),
         max_iteration=100,
         repair=NoRepair(),
-        output=None,
+        output=SingleObjectiveOutput(),
         display=None,
         callback=None,
         archive=None,
-- 
2.43.0


From 4f97182d439cdb2fd324f3a2397393f6600214a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:30 +0000
Subject: [PATCH 96/96] fix: an algorithm created to be verbose prints its
 progress

---
 pymoo/core/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 01e4281..afd5091 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -131,7 +131,7 @@ class Algorithm:
 
         # set up the display during the algorithm execution
         if self.display is None:
-            self.display = Display(self.output, verbose=verbose, progress=progress)
+            self.display = Display(self.output, verbose=verbose or self.verbose, progress=progress)
 
         # finally call the function that can be overwritten by the actual algorithm
         self._setup(problem, **kwargs)
-- 
2.43.0

