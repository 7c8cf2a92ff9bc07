From 7652d448053d903f038c2b2496f84349af021f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 01/50] fix: use a stable sort in the hypervolume sweep so that
 tied coordinates are valued correctly

---
 hvd/hypervolume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index f19fd9a..2c165c0 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -154,7 +154,8 @@ class HyperVolume:
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
         # build a list of tuples of (point[i], node)
-        idx = np.argsort([node.cargo[i] for node in nodes])
+        # the sort must be stable: ties have to keep the order of the previous dimensions
+        idx = np.argsort([node.cargo[i] for node in nodes], kind="stable")
         # decorated = [(node.cargo[i], node) for node in nodes]
         # sort by this value
         # decorated.sort()
-- 
2.43.0


From c1ae5cb5c0a987cd221fcb67e89c3beadd22d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 02/50] fix: negate given objective points and Jacobians in the
 hypervolume indicator under maximization

---
 hvd/hypervolume_derivatives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..562073b 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:  # `self.ref` and `self.func` are negated under maximization
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,12 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:  # the internal problem is always a minimization one
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        sign = 1 if self.minimization else -1
+        YdX = np.array([self.jac(x) for x in X]) if YdX is None else sign * np.asarray(YdX)
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From ccc6bd9905392fa874fd21f2943ed86ba78e8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 03/50] fix: points beyond the reference point do not
 contribute to hypervolume derivatives

---
 hvd/hypervolume_derivatives.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 562073b..8528735 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -108,6 +108,9 @@ class HypervolumeDerivatives:
         else:
             self._nondominated_indices = non_domin_sort(self._objective_points, only_front_indices=True)[0]
         # self._nondominated_indices = get_non_dominated(self._objective_points, return_index=True)
+        # points beyond the reference point do not contribute to the hypervolume
+        idx = self._nondominated_indices
+        self._nondominated_indices = idx[np.all(self._objective_points[idx] <= self.ref, axis=1)]
         self._dominated_indices = set(range(len(self._objective_points))) - set(self._nondominated_indices)
 
     def _check_X(self, X: np.ndarray):
@@ -258,6 +261,8 @@ class HypervolumeDerivatives:
                 # get the dimension of points in `pareto_front_` that are not dominated by `x_`
                 idx = pareto_front_ < y_
                 out[idx] = 0
+                # points beyond the reference point have no effect
+                out[np.any(pareto_front_ > ref_, axis=1)] = 0
                 # hypervolume improvement of points in `pareto_front_` decreases ∂HV/∂y_k^i
                 out = np.insert(out, k, 0, axis=1)
                 for s, j in enumerate(proj_idx):
@@ -349,7 +354,12 @@ class HypervolumeDerivatives:
         """
         N, dim = pareto_front.shape
         HVdY = np.zeros((N, dim))
-        if len(ref) == 1:  # 1D case
+        # points beyond the reference point do not contribute to the hypervolume
+        inside = np.all(pareto_front <= ref, axis=1)
+        if not np.all(inside):
+            if np.any(inside):
+                HVdY[inside] = self.hypervolume_dY(pareto_front[inside], ref)
+        elif len(ref) == 1:  # 1D case
             HVdY = np.array([[-1]])
         elif len(ref) == 2:  # 2D case
             # sort the pareto front with repsect to increasing y1 and decreasing y2
-- 
2.43.0


From fbefcd4f0019d69a5caa34cc057371bc4acf3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 04/50] fix: keep exact copies of a nondominated point and
 return integer indices in get_non_dominated

---
 hvd/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..9a28233 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -229,9 +229,8 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
     pareto_indices = []
     for idx, p in enumerate(pareto_front):
         if weakly_dominated:
-            cond = np.all(np.any(pareto_front[:idx] > p, axis=1)) and np.all(
-                np.any(pareto_front[idx + 1 :] > p, axis=1)
-            )
+            # copies of the same point do not dominate each other
+            cond = np.all(np.any(pareto_front > p, axis=1) | np.all(pareto_front == p, axis=1))
         else:
             cond = np.all(
                 np.any(pareto_front[:idx] > p, axis=1) & np.all(~np.isclose(pareto_front[:idx], p), axis=1)
@@ -241,7 +240,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
             )
         if cond:
             pareto_indices.append(idx)
-    pareto_indices = np.array(pareto_indices)
+    pareto_indices = np.array(pareto_indices, dtype=int)
     pareto_front = pareto_front[pareto_indices].copy()
     return pareto_indices if return_index else pareto_front
 
-- 
2.43.0


From 63a79af94fb7b2a238a56536e5e6c095f8f657c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 05/50] fix: save the optimisation state without its Jacobian
 callback

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From 3b6c27605a986bf0bfa082eba48796e6406ccca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 06/50] fix: drop stale constraint Hessians and allow slicing
 and single-point updates of states without derivatives

---
 hvd/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6af91d3..b3153eb 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -155,17 +155,18 @@ class State:
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
         self.cstr_grad = self.eval_cstr_jac(self.primal)
-        if compute_hessian:
-            self.cstr_hess = self.eval_cstr_hess(self.primal)
+        self.cstr_hess = self.eval_cstr_hess(self.primal) if compute_hessian else None
 
     def update_one(self, x: np.ndarray, k: int) -> None:
         primal_vars = x[: self.n_var]
         self.X[k] = x
         self.Y[k] = self.evaluate(self.func, primal_vars)
-        self.J[k] = self.eval_jac(primal_vars)
+        if self.J is not None:
+            self.J[k] = self.eval_jac(primal_vars)
         self.cstr_value[k], self.active_indices[k] = self.eval_cstr(primal_vars)
         self.cstr_grad[k] = self.eval_cstr_jac(primal_vars)
-        self.cstr_hess[k] = self.eval_cstr_hess(primal_vars)
+        if self.cstr_hess is not None:
+            self.cstr_hess[k] = self.eval_cstr_hess(primal_vars)
 
     def is_feasible(self) -> np.ndarray:
         """Check whether the solutions are feasible.
@@ -308,9 +309,9 @@ class State:
         obj.n_jac_evals = obj.n_jac_evals
         obj.X = obj.X[indices]
         obj.Y = obj.Y[indices]
-        obj.J = obj.J[indices]
+        obj.J = None if obj.J is None else obj.J[indices]
         obj.cstr_value = obj.cstr_value[indices]
         obj.active_indices = obj.active_indices[indices]
         obj.cstr_grad = obj.cstr_grad[indices]
-        obj.cstr_hess = obj.cstr_hess[indices]
+        obj.cstr_hess = None if obj.cstr_hess is None else obj.cstr_hess[indices]
         return obj
-- 
2.43.0


From ca192e2f403ec63b0657820fae368803eaa85c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:49 +0000
Subject: [PATCH 07/50] fix: a zero Newton step does not restrict the
 hypervolume Newton step size

---
 hvd/newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..d6ea137 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -273,7 +273,8 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
-        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
+        # a zero step does not restrict the step-size
+        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0]), initial=np.inf))
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
-- 
2.43.0


From 42c4ab85f64eed3182d2ff69fb4ecae7fe92f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 08/50] fix: accept scalar-valued constraint functions given as
 zero-dimensional arrays in the Newton methods

---
 hvd/mmd_newton.py | 4 ++--
 hvd/newton.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..9655707 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -120,10 +120,10 @@ class MMDNewton:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
diff --git a/hvd/newton.py b/hvd/newton.py
index d6ea137..8be7548 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -87,10 +87,10 @@ class HVN:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
@@ -414,10 +414,10 @@ class DpN:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
-- 
2.43.0


From 3f6c40913c117f6a4c4d56f33be9f1884d7ccea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 09/50] fix: project the Delta_p Newton step on every bound it
 points out of

---
 hvd/newton.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 8be7548..0c34cd7 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -680,9 +680,9 @@ class DpN:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
-            proj_axis = normal_vectors[:, proj_dim]
-            step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
+            # the components pointing outwards at the bounds on which a point lies
+            blocked = (dist == 0) & (v < 0)
+            step_primal[blocked[:, : self.dim_p] | blocked[:, self.dim_p :]] = 0
             step[:, : self.dim_p] = step_primal
             # re-calculate the `max_step_size` for projected directions
             v = step[:, : self.dim_p] @ normal_vectors
-- 
2.43.0


From 858cb20008ac44ae9eebee1c59e9566a7faa9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 10/50] fix: keep fractional step sizes after projecting the
 Delta_p Newton step on the box

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 0c34cd7..bb3d6e8 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -687,5 +687,5 @@ class DpN:
             # re-calculate the `max_step_size` for projected directions
             v = step[:, : self.dim_p] @ normal_vectors
             s = np.array([dist[i] / np.abs(np.minimum(0, vv)) for i, vv in enumerate(v)])
-            max_step_size = np.array([min(1, np.nanmin(_)) for _ in s])
+            max_step_size = np.array([min(1.0, np.nanmin(_)) for _ in s])
         return step, max_step_size
-- 
2.43.0


From 128f1835ca0f1b0b3c9d0d098ec4dd3a8927d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 11/50] fix: keep the matching of the reference set fixed
 during the line search

---
 hvd/mmd_newton.py | 8 ++++----
 hvd/newton.py     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 9655707..8b63546 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -301,9 +301,9 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
-            self.indicator.re_match = False
+            self.ref.re_match = False
             R_ = self._compute_R(state_)[0]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             return np.linalg.norm(R_)
 
         step_size = min(max_step_size) if max_step_size is not None else 1
@@ -337,10 +337,10 @@ class MMDNewton:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.indicator.re_match = False
+            self.ref.re_match = False
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
diff --git a/hvd/newton.py b/hvd/newton.py
index bb3d6e8..5f4614e 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -622,9 +622,9 @@ class DpN:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.active_indicator.re_match = False
+            self.ref.re_match = False
             R_ = self._compute_R(state)[0][i]
-            self.active_indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
-- 
2.43.0


From a12b8c35e360108a3ee0b97f1e87370ccdb45845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 12/50] fix: match the right components when there are more of
 them than clusters of the approximation set

---
 hvd/reference_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..7f354d9 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
 from scipy.optimize import linear_sum_assignment
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -132,17 +132,17 @@ class ReferenceSet:
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: Dict[int, np.ndarray]) -> List[Tuple[int, int]]:
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            idx = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
+            # with more components than clusters of `Y`, only some of the components are matched
+            idx = list(zip(*linear_sum_assignment(cost)))
         return idx
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
-- 
2.43.0


From b29a444d675943871b2202349564a846d0aab499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 13/50] fix: match reference sets of which some component is
 nearest to no approximation point

---
 hvd/reference_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 7f354d9..38d612b 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -127,7 +127,8 @@ class ReferenceSet:
             if self.Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                # components to which no point is assigned are left out
+                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components) if np.any(labels == i)]
             # parition `Y` according to `Y_idx`
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
-- 
2.43.0


From df733f14cf060354edea70cf0a27a64e05d411f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 14/50] fix: do not shift the reference set passed in by the
 caller

---
 hvd/reference_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 38d612b..707317b 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -27,6 +27,7 @@ class ReferenceSet:
         """
         self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else ref
         assert isinstance(self._ref, dict)
+        self._ref = dict(self._ref)  # shifting must not change the reference set of the caller
         self.n_components: int = len(self._ref)  # the number of connected components of the reference set
         self.n_obj: int = self._ref[0].shape[1]
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
-- 
2.43.0


From 6873b1ab59759c35ea1a548dd6bfba425b3d984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 15/50] fix: accept a single shift direction given as an array

---
 hvd/reference_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 707317b..1a28e5a 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -35,6 +35,9 @@ class ReferenceSet:
         self.eta: Dict[int, np.ndarray] = eta
         if self.eta is None:
             self._compute_shift_direction()
+        elif isinstance(self.eta, np.ndarray) and self.eta.ndim == 1:
+            # the same direction for each component
+            self.eta = {k: self.eta for k in self._ref}
         self._medoids: Dict[int, np.ndarray] = {i: None for i in range(self.n_components)}
         self.plot = plot
 
-- 
2.43.0


From 1248b231d1d02e30db63954ff4aeefd1e9b12ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 16/50] fix: scale the Hessian of the generational distance by
 the distances for p != 2

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..ebe2e30 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From 9eb07e745bffda973fdd42d0c482c1960574389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 17/50] fix: average the inverted generational distance over
 the current reference set

---
 hvd/delta_p.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index ebe2e30..34b388b 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -138,10 +138,13 @@ class InvertedGenerationalDistance:
         self.func = func
         self.jac = jac
         self.hess = hess
-        self.M = self.ref.N
         self.matching = matching
         self.re_match = True
 
+    @property
+    def M(self) -> int:
+        return self.ref.N  # it changes when the reference set is matched
+
     def __str__(self) -> str:
         return "IGD (w/matching)" if self.matching else "IGD"
 
-- 
2.43.0


From 706f0fbc677f3707f1b3cd4946622cb13026e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 18/50] fix: order points that tie in several objectives
 consistently in the hypervolume sweep

---
 hvd/hypervolume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index 2c165c0..6d1baed 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -145,7 +145,8 @@ class HyperVolume:
         """Sets up the list data structure needed for calculation."""
         dimensions = len(self.ref)
         nodeList = MultiList(dimensions)
-        nodes = [MultiList.Node(dimensions, point) for point in front]
+        # points that tie in the first objectives must enter the lists in the order of the next objective
+        nodes = [MultiList.Node(dimensions, point) for point in sorted(front, key=tuple)]
         for i in range(dimensions):
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
-- 
2.43.0


From 0c12b91e512c33051daeab27850ad597777f4576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 19/50] fix: use exactly the odd and even variables 2..n in
 CF1-CF7 (also for odd n_var)

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From 8a0221417bcbfd733a7b8f1daf6a5f646aaf40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 20/50] fix: add the missing quadratic term of the second
 variable in CF4

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 750e397..1f3415c 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -219,7 +219,7 @@ class CF4(CMOP):
         h = jax.numpy.where(
             temp[0],
             jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, abs(Y[:, 1]), (Y[:, 2:] ** 2).ravel()])),
-            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, jnp.array([0.125]), (Y[:, 2:] ** 2).ravel()])),
+            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, 0.125 + (Y[:, 1] - 1) ** 2, (Y[:, 2:] ** 2).ravel()])),
         )
         F1 = X[:, 0] + jnp.sum(h[:, J1], 1)
         F2 = 1 - X[:, 0] + jnp.sum(h[:, J2], 1)
-- 
2.43.0


From df36cc4ae6cdc5bf6baced325a549c960efcac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 21/50] fix: report only the feasible points of the CF1 Pareto
 front

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 1f3415c..948a52e 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -63,7 +63,7 @@ class CF1(CMOP):
         return 1 - y[:, 0] - y[:, 1] + jnp.abs(jnp.sin(10 * jnp.pi * (y[:, 0] - y[:, 1] + 1)))
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
-        f = np.linspace(0, 1, N)
+        f = np.arange(21) / 20  # the rest of the line f1 + f2 = 1 is infeasible
         return np.c_[f, 1 - f]
 
 
-- 
2.43.0


From 569732823b420f10b07fa0ac8bee1aa855b0b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 22/50] fix: include the isolated optimum (0, 1) in the CF2
 Pareto front

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 948a52e..a50210c 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -127,7 +127,7 @@ class CF2(CMOP):
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
         f = np.linspace(0, 1, N)
-        idx = (1 / 16 <= f) & (f <= 4 / 16) | (9 / 16 <= f) & (f <= 1)
+        idx = (f == 0) | (1 / 16 <= f) & (f <= 4 / 16) | (9 / 16 <= f) & (f <= 1)
         f = f[idx]
         return np.c_[f, 1 - jnp.sqrt(f)]
 
-- 
2.43.0


From 4d80989174765fed2f01932e7785ce9776868576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 23/50] fix: compute the second objective of the CF8 Pareto
 front pointwise

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index a50210c..6cbb94d 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -479,7 +479,7 @@ class CF8(UF8):
             R[int(i * N / 5) : int((i + 1) * N / 5), 0] = np.sqrt(
                 i / 4 * (1 - R[int(i * N / 5) : int((i + 1) * N / 5), 2] ** 2)
             )
-        R[:, 1] = np.sqrt(np.max(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
+        R[:, 1] = np.sqrt(np.maximum(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
         return R
 
 
-- 
2.43.0


From b97c1090f2f5269d1bafa49bb34b33cdcca5b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 24/50] fix: keep dominated points out of the ZDT3 Pareto set

---
 hvd/problems/utils.py | 10 ++++++++++
 hvd/problems/zdt.py   |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/hvd/problems/utils.py b/hvd/problems/utils.py
index 05ddfa9..17c3859 100644
--- a/hvd/problems/utils.py
+++ b/hvd/problems/utils.py
@@ -24,3 +24,13 @@ def get_ref_dirs(n_obj: int, n_points: int | None = None, n_partitions: int | No
 
 def generic_sphere(ref_dirs: np.ndarray) -> np.ndarray:
     return ref_dirs / np.tile(np.linalg.norm(ref_dirs, axis=1)[:, None], (1, ref_dirs.shape[1]))
+
+
+def spread_over(t: np.ndarray, intervals: np.ndarray) -> np.ndarray:
+    """Map values in [0, 1] onto a union of disjoint intervals, proportionally to their lengths."""
+    intervals = np.asarray(intervals, dtype=float)
+    length = np.diff(intervals, axis=1).ravel()
+    end = np.cumsum(length)
+    s = np.asarray(t, dtype=float) * end[-1]
+    i = np.minimum(np.searchsorted(end, s), len(end) - 1)
+    return np.minimum(intervals[i, 0] + s - (end[i] - length[i]), intervals[i, 1])
diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 1dd6a3b..3999e71 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -5,6 +5,7 @@ import numpy as np
 from numpy.typing import ArrayLike
 
 from .base import MOP, fixed_n_obj
+from .utils import spread_over
 
 _EPS = 1e-12
 
@@ -67,6 +68,11 @@ class ZDT3(ZDT1):
         r = x[0] / g
         return jnp.array([x[0], g * (1 - jnp.sqrt(jnp.maximum(r, _EPS)) - r * jnp.sin(10 * jnp.pi * x[0]))])
 
+    def get_pareto_set(self, n_pareto_points: int = 100, kind: str = "linear") -> np.ndarray:
+        x = super().get_pareto_set(n_pareto_points, kind)
+        x[:, 0] = spread_over(x[:, 0], self.regions)
+        return x
+
     def get_pareto_front(self, n_points: int = 100, flatten: bool = True) -> np.ndarray:
         blocks = []
         for lo, hi in self.regions:
-- 
2.43.0


From 2d2d718b231f63935b497edd3975d06424bfa032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 25/50] fix: keep dominated points out of the DTLZ7 Pareto set

---
 hvd/problems/dtlz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..96b0b07 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -7,7 +7,7 @@ from pymoo.util.remote import Remote
 
 from ..utils import timeit
 from .base import CMOP
-from .utils import generic_sphere, get_ref_dirs
+from .utils import generic_sphere, get_ref_dirs, spread_over
 
 # NOTE: `eps` is to cap the decision variables below for DTLZ6 since it is not differentiable at x = 0
 eps = 1e-30
@@ -149,11 +149,14 @@ class DTLZ6(DTLZ5):
 
 
 class DTLZ7(_DTLZ):
+    # the positions (per coordinate) whose images are nondominated
+    regions = np.array([[0, 0.2514118360], [0.6316265307, 0.8594008566]])
+
     def g(self, x_M: jnp.ndarray) -> float:
         return 1 + 9 / self.k * jnp.sum(x_M[-self.k :])
 
     def get_pareto_set(self, N: int = 1000) -> np.ndarray:
-        x = np.random.rand(N, self.n_var - self.k)
+        x = spread_over(np.random.rand(N, self.n_var - self.k), self.regions)
         return np.c_[x, np.tile(0, (N, self.k))]
 
     def get_pareto_front(self):
-- 
2.43.0


From 14ac2c6572d7416ab56bb023766364db19044f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 26/50] fix: keep dominated points out of the WFG2 Pareto set
 and front

---
 hvd/problems/wfg.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/hvd/problems/wfg.py b/hvd/problems/wfg.py
index 1919c14..7ec3a88 100644
--- a/hvd/problems/wfg.py
+++ b/hvd/problems/wfg.py
@@ -11,6 +11,7 @@ import numpy as np
 from numpy.typing import ArrayLike
 
 from .base import CMOP
+from .utils import spread_over
 
 
 def _correct_to_01(x: jnp.ndarray, epsilon: float = 1.0e-10) -> jnp.ndarray:
@@ -389,6 +390,28 @@ class WFG1(WFG):
 
 class WFG2(WFG):
     problem_number = 2
+    # the means of the first position block whose images are nondominated: t * cos(5 * pi * t)^2 has a new maximum
+    regions = np.array(
+        [
+            [0.0, 0.0415885354],
+            [0.1296924672, 0.2095949656],
+            [0.3549347146, 0.4049933326],
+            [0.5640500911, 0.6033554792],
+            [0.7690984707, 0.8025237409],
+            [0.9724372739, 1.0],
+        ]
+    )
+
+    def _optimal_positions(self, positions: np.ndarray) -> np.ndarray:
+        gap = self.k // (self.n_obj - 1)
+        positions = positions.copy()
+        mean = positions[:, :gap].mean(axis=1, keepdims=True)
+        target = spread_over(mean, self.regions)
+        # move the block towards 0 or 1, such that its mean becomes optimal
+        positions[:, :gap] *= np.where(target < mean, target / np.maximum(mean, 1e-300), 1)
+        rest = np.where(target > mean, (1 - target) / np.maximum(1 - mean, 1e-300), 1)
+        positions[:, :gap] = 1 - (1 - positions[:, :gap]) * rest
+        return super()._optimal_positions(positions)
 
 
 class WFG3(WFG):
-- 
2.43.0


From e5c61ed5cd6a75c6b8b8b441e73522a3ae470df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 27/50] fix: report feasible Pareto sets and fronts of the
 equality-constrained DTLZ problems

---
 hvd/problems/eqdtlz.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/hvd/problems/eqdtlz.py b/hvd/problems/eqdtlz.py
index bbdb7ff..b3f5a8d 100644
--- a/hvd/problems/eqdtlz.py
+++ b/hvd/problems/eqdtlz.py
@@ -37,6 +37,15 @@ class ConstrainedDTLZ(_DTLZ):
         xx = x[0 : M - 1] - 0.5
         return jnp.abs(jnp.sum(xx**2) - r**2) - 1e-4
 
+    def get_pareto_set(self, N: int = 1000) -> np.ndarray:
+        # the feasible positions lie on a sphere around the centre of the box
+        u = np.random.rand(N, self.n_obj - 1) - 0.5
+        u /= np.maximum(np.linalg.norm(u, axis=1, keepdims=True), 1e-300)
+        return np.c_[0.5 + np.sqrt(0.4**2 + 1e-4) * u, np.tile(0.5, (N, self.k))]
+
+    def get_pareto_front(self, N: int = 1000, **kwargs) -> np.ndarray:
+        return self.objective_batch(self.get_pareto_set(N))
+
 
 class IDTLZ1(InvertedDTLZ, DTLZ1):
     pass
@@ -54,33 +63,33 @@ class IDTLZ4(InvertedDTLZ, DTLZ4):
     pass
 
 
-class Eq1DTLZ1(DTLZ1, ConstrainedDTLZ):
+class Eq1DTLZ1(ConstrainedDTLZ, DTLZ1):
     pass
 
 
-class Eq1IDTLZ1(IDTLZ1, ConstrainedDTLZ):
+class Eq1IDTLZ1(ConstrainedDTLZ, IDTLZ1):
     pass
 
 
-class Eq1DTLZ2(DTLZ2, ConstrainedDTLZ):
+class Eq1DTLZ2(ConstrainedDTLZ, DTLZ2):
     pass
 
 
-class Eq1IDTLZ2(IDTLZ2, ConstrainedDTLZ):
+class Eq1IDTLZ2(ConstrainedDTLZ, IDTLZ2):
     pass
 
 
-class Eq1DTLZ3(DTLZ3, ConstrainedDTLZ):
+class Eq1DTLZ3(ConstrainedDTLZ, DTLZ3):
     pass
 
 
-class Eq1IDTLZ3(IDTLZ3, ConstrainedDTLZ):
+class Eq1IDTLZ3(ConstrainedDTLZ, IDTLZ3):
     pass
 
 
-class Eq1DTLZ4(DTLZ4, ConstrainedDTLZ):
+class Eq1DTLZ4(ConstrainedDTLZ, DTLZ4):
     pass
 
 
-class Eq1IDTLZ4(IDTLZ4, ConstrainedDTLZ):
+class Eq1IDTLZ4(ConstrainedDTLZ, IDTLZ4):
     pass
-- 
2.43.0


From 665fa1be469f4d7534a11fe8e3679c79a23614fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:11 +0000
Subject: [PATCH 28/50] fix: ignore rounding errors at the WFG optimum, which
 moved the WFG1 Pareto front

---
 hvd/problems/wfg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/wfg.py b/hvd/problems/wfg.py
index 7ec3a88..e6ecfc3 100644
--- a/hvd/problems/wfg.py
+++ b/hvd/problems/wfg.py
@@ -21,7 +21,8 @@ def _correct_to_01(x: jnp.ndarray, epsilon: float = 1.0e-10) -> jnp.ndarray:
 
 def _shift_linear(value: jnp.ndarray, shift: float = 0.35) -> jnp.ndarray:
     result = jnp.abs(value - shift) / jnp.abs(jnp.floor(shift - value) + shift)
-    return _correct_to_01(result)
+    # WFG1 raises the result to the power 0.02, so rounding errors at the optimum must not survive
+    return _correct_to_01(jnp.where(result < 1.0e-10, 0.0, result))
 
 
 def _shift_deceptive(
-- 
2.43.0


From fa3291ae616e67c23a18839b1667c7de78cfa5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 29/50] fix: MMDNewton skipped the line search when the median
 of the signed step components vanished

---
 hvd/mmd_newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 8b63546..0834865 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -295,7 +295,8 @@ class MMDNewton:
     ) -> float:
         """backtracking line search with Armijo's condition. Global step-size control"""
         c1 = 1e-6
-        if 11 < 2 or np.any(np.isclose(np.median(step[:, : self.dim_p]), np.finfo(np.double).resolution)):
+        # nothing to search for if there is no step; a vanishing median does not imply so, e.g., opposite steps
+        if np.all(np.isclose(step, 0)):
             return np.array([1])
 
         def phi_func(alpha):
-- 
2.43.0


From 385769bf050ab5ecaedd55757050418eca98b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 30/50] fix: MMDNewton without matching shifted the reference
 set in every iteration and required as many targets as points

---
 hvd/mmd_newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 0834865..64c044c 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -285,8 +285,9 @@ class MMDNewton:
             masks = np.bitwise_and(np.isclose(distance, 0), np.isclose(step_norm, 0))
 
         indices = np.nonzero(masks)[0]
-        self.ref.shift(0.08, indices)
-        for k in indices:  # log the updated medoids
+        if len(indices) > 0:  # without matching, `shift` ignores the indices and moves the entire reference set
+            self.ref.shift(0.08, indices)
+        for k in indices[indices < self.ref.N]:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
 
-- 
2.43.0


From 013685fcdd3079d0a34c76fd60f88b996a58a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 31/50] fix: SMS-EMOA failed for three or more objectives
 (NumPy code cannot be traced by jax.jit)

---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From 47f2d3fb803db756b82c000bb70fb17a4f0ce12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 32/50] fix: Lara divided by the norm of vanishing gradients
 and turned the entire population into NaN

---
 hvd/gradient_based.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/gradient_based.py b/hvd/gradient_based.py
index 9562a21..bb23a90 100644
--- a/hvd/gradient_based.py
+++ b/hvd/gradient_based.py
@@ -130,8 +130,10 @@ class Lara:
         R = np.zeros((state.N, state.n_var))
         for i in range(state.N):
             v = state.J[i]
+            # a vanishing gradient does not have a direction, e.g., at the minimizer of an objective
+            norm = np.linalg.norm(v, axis=1, keepdims=True)
             # TODO: FIXIT!!
-            R[i] = -1 * np.sum([v[k] / np.linalg.norm(v[k]) for k in range(self.n_obj)], axis=0)
+            R[i] = -1 * np.sum(v / np.where(norm == 0, 1, norm), axis=0)
         return R
 
     def _handle_box_constraint(self, step: np.ndarray, state: State) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From a3b648e495725ad51be8c40a73f9b9d16639e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 33/50] fix: RSG failed when the share of a short component is
 rounded to zero points

---
 hvd/rsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..f1ea3c6 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -37,6 +37,8 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     X = np.asarray(X, float)
 
     n, p = X.shape
+    if Nf < 1:  # the share of a short component is rounded to zero points
+        return np.zeros((0, p))
 
     P = X[np.argsort(X[:, 0])]
 
-- 
2.43.0


From 6c8bfc47425c626093562e89eb52c08c180e2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 34/50] fix: bootstrap_reference_set failed at the end of a run
 which is too short for bootstrapping

---
 hvd/bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index ac9aff8..5b5d470 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -113,6 +113,7 @@ def bootstrap_reference_set(
     alpha: float = 0.05
     Y0: np.ndarray = optimizer.state.Y.copy()
     ref0: np.ndarray = optimizer.ref.reference_set.copy()
+    ref: ReferenceSet = optimizer.ref  # returned when there are too few iterations for bootstrapping
     ref_list: list = []
     X_list: list = []
     Y_list: list = []
-- 
2.43.0


From f9918b32957eb976886f43450cfad4f402a8d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 35/50] fix: bootstrap_reference_set failed for the MMD
 indicator without matching, which has no spread term

---
 hvd/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 5b5d470..af0f02f 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -180,7 +180,8 @@ def bootstrap_reference_set(
             optimizer.indicator.ref = optimizer.ref = ref
             optimizer.indicator.compute(Y=optimizer.state.Y)
             # discount the weight of the spread term to reduce spread effect in the following iterations
-            optimizer.indicator.beta = optimizer.indicator.beta * 0.8
+            if hasattr(optimizer.indicator, "beta"):  # the MMD indicator without matching has no spread term
+                optimizer.indicator.beta = optimizer.indicator.beta * 0.8
 
         # the next iteration
         optimizer.newton_iteration()
-- 
2.43.0


From b386f1c6c44f22cbc0b15f532c33b5ba465f6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:08 +0000
Subject: [PATCH 36/50] fix: derivatives silently in single precision if jax is
 imported before hvd

---
 hvd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hvd/__init__.py b/hvd/__init__.py
index 1c46177..4404b6c 100644
--- a/hvd/__init__.py
+++ b/hvd/__init__.py
@@ -1,8 +1,11 @@
 import os
+import sys
 
 # JAX reads this setting during its first import.  Keep it before every local
 # import so direct imports such as ``hvd.mmd`` and ``hvd.problems`` agree.
 os.environ["JAX_ENABLE_X64"] = "True"
+if "jax" in sys.modules:  # imported by the user before: the environment variable has been read already
+    sys.modules["jax"].config.update("jax_enable_x64", True)
 
 from .delta_p import GenerationalDistance, InvertedGenerationalDistance
 from .hypervolume_derivatives import HypervolumeDerivatives
-- 
2.43.0


From 43cc740ae2728b6fb4dc3d4b3e961d2a4c1b9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 37/50] fix: optimisers with verbose=False printed metrics and
 counts once a verbose one had been created

---
 hvd/gradient_based.py | 2 +-
 hvd/mmd_newton.py     | 6 ++++--
 hvd/newton.py         | 8 +++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hvd/gradient_based.py b/hvd/gradient_based.py
index bb23a90..4d3bf9a 100644
--- a/hvd/gradient_based.py
+++ b/hvd/gradient_based.py
@@ -166,7 +166,7 @@ class Lara:
         # TODO: get rid of weakly-dominated points
         drop_idx_Y = set([])
         drop_idx = drop_idx_X | drop_idx_Y
-        if len(drop_idx) > 0:
+        if len(drop_idx) > 0 and self.verbose:
             self.logger.info(f"{len(drop_idx)} points are removed due to duplication")
         idx = list(set(range(self.N)) - drop_idx)
         self.state = self.state[idx]
diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 64c044c..23b942f 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -209,7 +209,8 @@ class MMDNewton:
         for name, func in self.metrics.items():
             value = func.compute(Y=self.state.Y)
             self.history_metrics[name].append(value)
-            self.logger.info(f"{name}: {value}")
+            if self.verbose:
+                self.logger.info(f"{name}: {value}")
 
     def terminate(self) -> bool:
         if self.iter_count >= self.max_iters:
@@ -289,7 +290,8 @@ class MMDNewton:
             self.ref.shift(0.08, indices)
         for k in indices[indices < self.ref.N]:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
-        self.logger.info(f"{len(indices)} target points are shifted")
+        if self.verbose:
+            self.logger.info(f"{len(indices)} target points are shifted")
 
     def _backtracking_line_search_global(
         self, step: np.ndarray, R: np.ndarray, max_step_size: np.ndarray = None
diff --git a/hvd/newton.py b/hvd/newton.py
index 5f4614e..744a417 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -297,7 +297,7 @@ class HVN:
         # TODO: get rid of weakly-dominated points
         drop_idx_Y = set([])
         drop_idx = drop_idx_X | drop_idx_Y
-        if len(drop_idx) > 0:
+        if len(drop_idx) > 0 and self.verbose:
             self.logger.info(f"{len(drop_idx)} points are removed due to duplication")
         idx = list(set(range(self.N)) - drop_idx)
         self.state = self.state[idx]
@@ -521,7 +521,8 @@ class DpN:
         for name, func in self.metrics.items():
             value = func.compute(Y=self.state.Y)
             self.history_metrics[name].append(value)
-            self.logger.info(f"{name}: {value}")
+            if self.verbose:
+                self.logger.info(f"{name}: {value}")
 
     def terminate(self) -> bool:
         if self.iter_count >= self.max_iters:
@@ -607,7 +608,8 @@ class DpN:
         self.ref.shift(0.08 if self.iter_count == 0 else 0.05, indices)
         for k in indices:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
-        self.logger.info(f"{len(indices)} target points are shifted")
+        if self.verbose:
+            self.logger.info(f"{len(indices)} target points are shifted")
 
     def _backtracking_line_search(
         self, step: np.ndarray, R: np.ndarray, max_step_size: np.ndarray = None
-- 
2.43.0


From fad08721ed12283e5e87b4eeeefde44f6c696aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:10 +0000
Subject: [PATCH 38/50] fix: slicing a state copied the problem object of the
 user, so evaluations were counted by copies

---
 hvd/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hvd/base.py b/hvd/base.py
index b3153eb..650d477 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -299,6 +299,13 @@ class State:
             obj.__dict__.update(data)
             return obj
 
+    def __deepcopy__(self, memo: dict) -> Self:
+        # the callbacks are shared: copying a bound method would copy the problem object of the user
+        obj = self.__class__.__new__(self.__class__)
+        for name, value in self.__dict__.items():
+            setattr(obj, name, value if callable(value) else deepcopy(value, memo))
+        return obj
+
     def __getitem__(self, indices: np.ndarray) -> Self:
         """Slicing the state class
 
-- 
2.43.0


From a8f17ed6ecea48e636f2ce156431b5931921d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 39/50] fix: automatic derivatives of the hypervolume ignored a
 replaced reference point

---
 hvd/hypervolume_derivatives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 8528735..976d163 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -91,6 +91,8 @@ class HypervolumeDerivatives:
         if not isinstance(r, np.ndarray):
             r = np.asarray(r)
         self._ref = r if self.minimization else -1 * r
+        # the automatic derivatives are bound to the previous reference point
+        self._HV_Jac = self._HV_Hessian = None
 
     @property
     def objective_points(self):
-- 
2.43.0


From 06c2d80fe50a087b8e252140f085f5a17ff62ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 40/50] fix: derivatives of the matched MMD kept the weight of
 the spread term of the first request

---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From c43c03fc9f6aa8208c24669a9bd93bdc91b357d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:48 +0000
Subject: [PATCH 41/50] fix: loading a run kept a single individual when the
 population exceeds the reference set

---
 scripts/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 57d2c67..6cd97cc 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -100,7 +100,7 @@ def read_reference_set_data(
         eta = None
         # ensure the number of approximation points is less than the number of reference points
         if len(ref[0]) < len(y0):
-            n = len(ref)
+            n = len(ref[0])
             x0 = x0[:n]
             y0 = y0[:n]
             Y_label = Y_label[:n]
-- 
2.43.0


From 67eef5256e572dd3d565ccce83f8bb7b64dfe433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:48 +0000
Subject: [PATCH 42/50] fix: loading a run failed if the first of several shift
 directions is missing

---
 scripts/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 6cd97cc..bbf1abc 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -64,7 +64,7 @@ def read_reference_set_data(
                 f"{path}/{problem_name}_{emoa}_run_{run}_eta_{i+1}_gen{gen}.csv", header=None
             ).values.ravel()
         except:
-            if i > 0 and eta[i - 1] is not None:  # copy the shift direction from the last cluster
+            if eta is not None and i - 1 in eta:  # copy the shift direction from the last cluster
                 eta[i] = eta[i - 1]
             else:
                 eta = None
-- 
2.43.0


From 3ceb3344d98d08877d1b79127c9925c824fe458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:06 +0000
Subject: [PATCH 43/50] fix: states built from whole numbers truncated later
 updates of single points

---
 hvd/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 650d477..8e4ce2e 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -103,7 +103,7 @@ class State:
             return np.zeros((*prefix, *output_shape))
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
-        values = np.asarray(evaluator(x))
+        values = np.asarray(evaluator(x), dtype=float)
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
@@ -150,7 +150,7 @@ class State:
     def update(
         self, X: np.ndarray, compute_gradient: bool = True, compute_hessian: bool = True
     ) -> None:
-        self.X = np.asarray(X).copy()
+        self.X = np.array(X, dtype=float)
         self.Y = self.evaluate(self.func, self.primal)
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
-- 
2.43.0


From 52bfb27cfd3efcf5da32af4a7a48da41ed6bc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:28 +0000
Subject: [PATCH 44/50] fix: shifted medoids of a reference set of whole
 numbers were truncated

---
 hvd/reference_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 1a28e5a..cde365f 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -27,7 +27,9 @@ class ReferenceSet:
         """
         self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else ref
         assert isinstance(self._ref, dict)
-        self._ref = dict(self._ref)  # shifting must not change the reference set of the caller
+        # shifting must not change the reference set of the caller
+        # medoids are shifted by fractions: the points must not be stored as whole numbers
+        self._ref = {k: np.array(v, dtype=float) for k, v in self._ref.items()}
         self.n_components: int = len(self._ref)  # the number of connected components of the reference set
         self.n_obj: int = self._ref[0].shape[1]
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
-- 
2.43.0


From 2b2123b28598a61f13280c59774fa48a4bb16d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:47 +0000
Subject: [PATCH 45/50] fix: derivatives of the MMD failed for points of whole
 numbers

---
 hvd/mmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 289fa31..ba459a9 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -175,7 +175,7 @@ class MMD:
         X = self._check_X(X)
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         reference_set = self.ref.reference_set
-        MMDdY = np.asarray(self._kernel_gradient(jnp.asarray(Y), jnp.asarray(reference_set)))
+        MMDdY = np.asarray(self._kernel_gradient(jnp.asarray(Y, dtype=float), jnp.asarray(reference_set)))
         MMDdX = np.einsum("ij,ijk->ik", MMDdY, YdX)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
 
@@ -195,11 +195,11 @@ class MMD:
             X, Y, jacobian, compute_hessian=True
         )
         reference_set = self.ref.reference_set
-        MMDdY = np.asarray(self._kernel_gradient(jnp.asarray(Y), jnp.asarray(reference_set)))
+        MMDdY = np.asarray(self._kernel_gradient(jnp.asarray(Y, dtype=float), jnp.asarray(reference_set)))
         MMDdX = np.einsum("ij,ijk->ik", MMDdY, YdX)
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(reference_set))
+            self._kernel_hessian(jnp.asarray(Y, dtype=float), jnp.asarray(reference_set))
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
+            self._kernel_gradient(jnp.asarray(Y, dtype=float), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
+            self._kernel_hessian(jnp.asarray(Y, dtype=float), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From f3431ac98528af66747c70dd6ec430c9c6242dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:47 +0000
Subject: [PATCH 46/50] fix: automatic derivatives of the hypervolume failed
 for points of whole numbers

---
 hvd/hypervolume_derivatives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 976d163..2c87038 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -336,6 +336,8 @@ class HypervolumeDerivatives:
         X = self._check_X(X)
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, compute_hessian=True)
         # NOTE: atuograd does not support matrix input
+        # and it requires floating-point numbers
+        Y = np.asarray(Y, dtype=float)
         HVdY = self._HV_Jac(Y.ravel())
         HVdY2 = self._HV_Hessian(Y.ravel())
         HVdX = HVdY @ YdX
-- 
2.43.0


From 0370217ae9de752776c533a042e4c5c8d1c98289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 47/50] fix: updates of single points were written into the
 arrays returned by the callbacks of the user

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 8e4ce2e..4a58a94 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -103,7 +103,7 @@ class State:
             return np.zeros((*prefix, *output_shape))
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
-        values = np.asarray(evaluator(x), dtype=float)
+        values = np.array(evaluator(x), dtype=float)  # never the array of the callback
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
-- 
2.43.0


From cae23b559ded411d8c50a09e2e31264ccca48208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:26 +0000
Subject: [PATCH 48/50] fix: handle_box_constraint changed the array of the
 caller if it holds floating-point numbers

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 9a28233..1a6d860 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -266,7 +266,7 @@ def handle_box_constraint(x: np.ndarray, lb: np.ndarray, ub: np.ndarray) -> np.n
     Analysis" as alorithm 6.
 
     """
-    x = np.asarray(x, dtype="float")
+    x = np.array(x, dtype="float")  # the array of the caller is not changed
     shape_ori = x.shape
     x = np.atleast_2d(x)
     lb = np.atleast_1d(lb)
-- 
2.43.0


From 9c76d53d1674af0a0a5c173dab911f28879f7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:07 +0000
Subject: [PATCH 49/50] fix: evaluations made by the line searches of HVN and
 MMDNewton (and of constraint derivatives by that of DpN) were not counted

---
 hvd/base.py       | 5 +++++
 hvd/mmd_newton.py | 3 ++-
 hvd/newton.py     | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 4a58a94..5f94e45 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -110,6 +110,11 @@ class State:
     def _count(x: np.ndarray) -> int:
         return len(x) if np.ndim(x) == 2 else 1
 
+    def add_evaluations(self, copy: Self, origin: Self) -> None:
+        """Account for the evaluations made by `copy` since it was copied from `origin`."""
+        for name in ("n_jac_evals", "n_cstr_jac_evals", "n_cstr_hess_evals"):
+            setattr(self, name, getattr(self, name) + getattr(copy, name) - getattr(origin, name))
+
     def eval_jac(self, x: np.ndarray) -> np.ndarray:
         """Jacobian of the objective function"""
         self.n_jac_evals += self._count(x)
diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23b942f..f3d10c1 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -305,6 +305,7 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
+            self.state.add_evaluations(state_, self.state)
             self.ref.re_match = False
             R_ = self._compute_R(state_)[0]
             self.ref.re_match = True
@@ -345,7 +346,7 @@ class MMDNewton:
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
             self.ref.re_match = True
-            self.state.n_jac_evals = state.n_jac_evals
+            self.state.add_evaluations(state, self.state)
             return np.linalg.norm(R_)
 
         step_size = max_step_size if max_step_size is not None else np.ones(self.N)
diff --git a/hvd/newton.py b/hvd/newton.py
index 744a417..ac1ab61 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -280,6 +280,7 @@ class HVN:
         def phi_func(alpha: float) -> float:
             state_ = deepcopy(state)
             state_.update(state.X + alpha * step)
+            self.state.add_evaluations(state_, state)
             R = self._compute_R(state_)[0]
             return np.linalg.norm(R)
 
@@ -627,7 +628,7 @@ class DpN:
             self.ref.re_match = False
             R_ = self._compute_R(state)[0][i]
             self.ref.re_match = True
-            self.state.n_jac_evals = state.n_jac_evals
+            self.state.add_evaluations(state, self.state)
             return np.linalg.norm(R_)
 
         if max_step_size is not None:
-- 
2.43.0


From 92f56c3190aff2ea0133163bb518a47f254e597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 50/50] fix: Hessian of the hypervolume failed for a single
 objective

---
 hvd/hypervolume_derivatives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 2c87038..503d1b2 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -239,6 +239,8 @@ class HypervolumeDerivatives:
         for i in range(self.N):
             if i in self._dominated_indices:  # if the point is dominated
                 continue
+            if self.n_obj == 1:  # the hypervolume of a single objective is linear
+                continue
             for k in range(self.n_obj):
                 # project along `axis`; `*_` indicates variables in the projected subspace
                 y_, pareto_front_, ref_, proj_idx = self._project(axis=k, i=i)
-- 
2.43.0

