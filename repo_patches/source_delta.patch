From cb02ec842355a77218f17724e639d59b3ed7a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 01/35] fix: accept Nelder-Mead initial simplices of the
 required size

The length check of a user-supplied simplex was inverted: a simplex of
dim + 1 points was refused while any other number was accepted.
---
 src/pymanopt/optimizers/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 609cc83..39e3e38 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -100,9 +100,9 @@ class NelderMead(Optimizer):
             x = [manifold.random_point() for _ in range(num_points)]
         elif (
             tools.is_sequence(initial_point)
-            and len(initial_point) != num_points
+            and len(initial_point) == num_points
         ):
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError(
                 "The initial simplex `initial_point` must be a sequence of "
-- 
2.43.0


From cdad59571aaa37a02faa7f74359eebea59ffce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 02/35] fix: evaluate the new positions of a particle swarm

The cost of a particle was evaluated at the position it had just left, so
the last positions were never evaluated, and the caller's population was
overwritten in place.
---
 src/pymanopt/optimizers/particle_swarm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 9f9fb56..a14648d 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -81,7 +81,7 @@ class ParticleSwarm(Optimizer):
                     "the given initial population"
                 )
                 self._population_size = len(initial_point)
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
 
@@ -186,18 +186,18 @@ class ParticleSwarm(Optimizer):
                 # Compute new position of particle i.
                 x[i] = manifold.retraction(xi, v[i])
                 # Compute new cost of particle i.
-                fxi = objective(xi)
+                fxi = objective(x[i])
 
                 # Update costs of the swarm.
                 costs[i] = fxi
                 # Update self-best if necessary.
                 if fxi < fy[i]:
                     fy[i] = fxi
-                    y[i] = xi
+                    y[i] = x[i]
                     # Update global best if necessary.
                     if fy[i] < fbest:
                         fbest = fy[i]
-                        xbest = xi
+                        xbest = x[i]
             cost_evaluations += self._population_size
 
         return self._return_result(
-- 
2.43.0


From bc4c1367a3060673848e3f9020cb1da1488858de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 03/35] fix: do not accept line-search steps of undefined cost

---
 src/pymanopt/optimizers/line_search.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 94dc725..2b67f94 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -51,7 +51,7 @@ class BackTrackingLineSearcher:
 
         # Backtrack while the Armijo criterion is not satisfied
         while (
-            newf > f0 + self.sufficient_decrease * alpha * df0
+            not newf <= f0 + self.sufficient_decrease * alpha * df0
             and step_count <= self.max_iterations
         ):
 
@@ -65,7 +65,7 @@ class BackTrackingLineSearcher:
             step_count = step_count + 1
 
         # If we got here without obtaining a decrease, we reject the step.
-        if newf > f0:
+        if not newf <= f0:
             alpha = 0
             newx = x
 
@@ -106,7 +106,7 @@ class AdaptiveLineSearcher:
         cost_evaluations = 1
 
         while (
-            newf > f0 + self._sufficient_decrease * alpha * df0
+            not newf <= f0 + self._sufficient_decrease * alpha * df0
             and cost_evaluations <= self._max_iterations
         ):
             # Reduce the step size.
@@ -118,7 +118,7 @@ class AdaptiveLineSearcher:
 
             cost_evaluations += 1
 
-        if newf > f0:
+        if not newf <= f0:
             alpha = 0
             newx = x
 
-- 
2.43.0


From b4a88c06142cfa1a2cbbf873266f9bc52e2caf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 04/35] fix: never start a reused backtracking search with a
 negative step

---
 src/pymanopt/optimizers/line_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 2b67f94..3ad78f3 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -35,7 +35,7 @@ class BackTrackingLineSearcher:
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
 
-        if self._oldf0 is not None:
+        if self._oldf0 is not None and f0 <= self._oldf0:
             # Pick initial step size based on where we were last time.
             alpha = 2 * (f0 - self._oldf0) / df0
             # Look a little further
-- 
2.43.0


From 106420950a47e3b10b3e15bc496f0a9334a89626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 05/35] fix: do not search along a zero direction

---
 src/pymanopt/optimizers/line_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 3ad78f3..961480b 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -34,6 +34,8 @@ class BackTrackingLineSearcher:
         """
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
+        if norm_d == 0:
+            return 0, x
 
         if self._oldf0 is not None and f0 <= self._oldf0:
             # Pick initial step size based on where we were last time.
@@ -94,6 +96,8 @@ class AdaptiveLineSearcher:
 
     def search(self, objective, manifold, x, d, f0, df0):
         norm_d = manifold.norm(x, d)
+        if norm_d == 0:
+            return 0, x
 
         if self._oldalpha is not None:
             alpha = self._oldalpha
-- 
2.43.0


From 9001c46837bd7fb51de2248b7b2cf6c13df0fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 06/35] fix: derive Nelder-Mead and particle swarm defaults
 anew for every run

---
 src/pymanopt/optimizers/nelder_mead.py    |  6 ++++--
 src/pymanopt/optimizers/particle_swarm.py | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 39e3e38..7100134 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -62,8 +62,8 @@ class NelderMead(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._reflection = reflection
         self._expansion = expansion
         self._contraction = contraction
@@ -89,8 +89,10 @@ class NelderMead(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(1000, 2 * dim)
+        self._max_iterations = self._requested_max_iterations
         if self._max_iterations is None:
             self._max_iterations = max(2000, 4 * dim)
 
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index a14648d..d6bc407 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -33,8 +33,8 @@ class ParticleSwarm(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._population_size = population_size
         self._nostalgia = nostalgia
         self._social = social
@@ -60,27 +60,30 @@ class ParticleSwarm(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(5000, 2 * dim)
+        self._max_iterations = self._requested_max_iterations
         if self._max_iterations is None:
             self._max_iterations = max(500, 4 * dim)
-        if self._population_size is None:
-            self._population_size = min(40, 10 * dim)
+        population_size = self._population_size
+        if population_size is None:
+            population_size = min(40, 10 * dim)
 
         # If no initial population x is given by the user, generate one at
         # random.
         if initial_point is None:
             x = [
                 manifold.random_point()
-                for i in range(int(self._population_size))
+                for i in range(int(population_size))
             ]
         elif tools.is_sequence(initial_point):
-            if len(initial_point) != self._population_size:
+            if len(initial_point) != population_size:
                 print(
                     "The population size was forced to the size of "
                     "the given initial population"
                 )
-                self._population_size = len(initial_point)
+                population_size = len(initial_point)
             x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
@@ -97,7 +100,7 @@ class ParticleSwarm(Optimizer):
         # Compute cost for each particle xi.
         costs = np.array([objective(xi) for xi in x])
         fy = list(costs)
-        cost_evaluations = self._population_size
+        cost_evaluations = population_size
 
         # Identify the best particle and store its cost/position.
         imin = costs.argmin()
@@ -198,7 +201,7 @@ class ParticleSwarm(Optimizer):
                     if fy[i] < fbest:
                         fbest = fy[i]
                         xbest = x[i]
-            cost_evaluations += self._population_size
+            cost_evaluations += population_size
 
         return self._return_result(
             start_time=start_time,
-- 
2.43.0


From f01d8019e649e4e84a257d1d743d40bbc4d2dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 07/35] fix: keep the imaginary part in the exponential map of
 the complex circle

---
 src/pymanopt/manifolds/complex_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 629b13b..83954b3 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -58,7 +58,7 @@ class ComplexCircle(RiemannianSubmanifold):
         tangent_vector_abs = np.abs(tangent_vector)
         mask = tangent_vector_abs > 0
         not_mask = np.logical_not(mask)
-        tangent_vector_new = np.zeros(self._dimension)
+        tangent_vector_new = np.zeros(self._dimension, dtype=complex)
         tangent_vector_new[mask] = point[mask] * np.cos(
             tangent_vector_abs[mask]
         ) + tangent_vector[mask] * (
-- 
2.43.0


From 7fd3ba1f75e7ec3bc7ff848058a72b60f05567fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 08/35] fix: finite distances and logarithms for coincident
 points

---
 src/pymanopt/manifolds/complex_circle.py | 5 +++--
 src/pymanopt/manifolds/hyperbolic.py     | 4 +++-
 src/pymanopt/manifolds/oblique.py        | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 83954b3..aafbc58 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -34,7 +34,8 @@ class ComplexCircle(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        return np.linalg.norm(np.arccos((point_a.conj() * point_b).real))
+        inner_products = (point_a.conj() * point_b).real
+        return np.linalg.norm(np.arccos(np.clip(inner_products, -1, 1)))
 
     @property
     def typical_dist(self):
@@ -73,7 +74,7 @@ class ComplexCircle(RiemannianSubmanifold):
     def log(self, point_a, point_b):
         v = self.projection(point_a, point_b - point_a)
         abs_v = np.abs(v)
-        di = np.arccos((point_a.conj() * point_b).real)
+        di = np.arccos(np.clip((point_a.conj() * point_b).real, -1, 1))
         factors = di / abs_v
         factors[di <= 1e-6] = 1
         return v * factors
diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index f343146..e038eae 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,7 +144,9 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return np.arctanh(norm_w) * w / norm_w / (factor / 2)
+        return (
+            np.arctanh(norm_w) * w / (norm_w + (norm_w == 0)) / (factor / 2)
+        )
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 16fd33e..9bf53b9 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -66,7 +66,7 @@ class Oblique(RiemannianSubmanifold):
 
     def log(self, point_a, point_b):
         vector = self.projection(point_a, point_b - point_a)
-        distances = np.arccos((point_a * point_b).sum(0))
+        distances = np.arccos(np.clip((point_a * point_b).sum(0), -1, 1))
         norms = np.sqrt((vector**2).sum(0)).real
         # Try to avoid zero-division when both distances and norms are almost
         # zero.
-- 
2.43.0


From 3d9fb0519dcbb8dfd9cd72b3b27654d6c34beb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 09/35] fix: project on skew-Hermitian matrices on the unitary
 group

---
 src/pymanopt/manifolds/group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 1c4f24d..8cfb42b 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -9,7 +9,6 @@ from pymanopt.tools.multi import (
     multiherm,
     multilogm,
     multiqr,
-    multiskew,
     multiskewh,
     multitransp,
 )
@@ -45,7 +44,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return self.norm(point_a, self.log(point_a, point_b))
 
     def projection(self, point, vector):
-        return multiskew(multihconj(point) @ vector)
+        return multiskewh(multihconj(point) @ vector)
 
     def to_tangent_space(self, point, vector):
         return multiskewh(vector)
-- 
2.43.0


From e4c5d8f0e7c7975d9fb314d3172491b534580cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 10/35] fix: real-valued inner product on the unitary group

---
 src/pymanopt/manifolds/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 8cfb42b..831d4ee 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -31,7 +31,7 @@ class _UnitaryBase(RiemannianSubmanifold):
             tangent_vector_a.conj(),
             tangent_vector_b,
             axes=tangent_vector_a.ndim,
-        )
+        ).real
 
     def norm(self, point, tangent_vector):
         return np.linalg.norm(tangent_vector)
-- 
2.43.0


From b6439efe108e31423e686e68fb2cfd62c7bb6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 11/35] fix: project on the horizontal space of the elliptope

---
 src/pymanopt/manifolds/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index f01dc72..62dcc1f 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -232,8 +232,8 @@ class Elliptope(Manifold, RetrAsExpMixin):
     def projection(self, point, vector):
         eta = self._project_rows(point, vector)
         YtY = point.T @ point
-        AS = point.T @ eta - vector.T @ point
-        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, -AS)
+        AS = point.T @ eta - eta.T @ point
+        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, AS)
         return eta - point @ (Omega - Omega.T) / 2
 
     to_tangent_space = projection
-- 
2.43.0


From b5bfdee27f27ec8a13abf0676c773fecbb2e32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 12/35] fix: embed tangent vectors of product manifolds factor
 by factor

---
 src/pymanopt/manifolds/product.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 28f93b1..25c6dbf 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -78,6 +78,14 @@ class Product(Manifold):
             point, vector
         )
 
+    def embedding(self, point, tangent_vector):
+        # Factors whose points consist of several arrays have no ambient
+        # representation with the layout of their points.
+        return [
+            manifold.embedding(p, v) if manifold.point_layout == 1 else v
+            for manifold, p, v in zip(self.manifolds, point, tangent_vector)
+        ]
+
     def to_tangent_space(self, point, vector):
         return self._dispatch(
             "to_tangent_space", reduction=_ProductTangentVector
-- 
2.43.0


From a995ad97c64d58aca53321454534c3f8cb07beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 13/35] fix: support gradients on products of a single manifold

---
 src/pymanopt/core/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index bb71ca3..55c9070 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -147,6 +147,10 @@ class Problem:
         @functools.wraps(function)
         def wrapper(*args, **kwargs):
             return_values = function(*args, **kwargs)
+            if num_return_values == 1 and not isinstance(
+                return_values, (list, tuple)
+            ):
+                return_values = [return_values]
             if not isinstance(return_values, (list, tuple)):
                 raise ValueError("Function returned an unexpected value")
             if len(return_values) != num_return_values:
-- 
2.43.0


From bb38912962acedc05fb675a971434cfb61f89e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 14/35] fix: PyTorch gradients of lazily conjugated arguments

---
 src/pymanopt/autodiff/backends/_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index d72517e..9842295 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -50,7 +50,7 @@ class PyTorchBackend(Backend):
     def _sanitize_gradient(self, tensor):
         if tensor.grad is None:
             return torch.zeros_like(tensor).numpy()
-        return tensor.grad.numpy()
+        return tensor.grad.resolve_conj().numpy()
 
     def _sanitize_gradients(self, tensors):
         return list(map(self._sanitize_gradient, tensors))
-- 
2.43.0


From f931069023dbcc6ecad3d9b5e11fd26cda4e83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 15/35] fix: PyTorch Hessians of linear costs and of costs with
 unused arguments

---
 src/pymanopt/autodiff/backends/_pytorch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index 9842295..93aa251 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -83,10 +83,14 @@ class PyTorchBackend(Backend):
             )
             dot_product = 0
             for gradient, vector in zip(gradients, vectors):
+                # Skip arguments which do not contribute to the Hessian.
+                if gradient is None or not gradient.requires_grad:
+                    continue
                 dot_product += torch.tensordot(
                     gradient.conj(), vector, dims=gradient.ndim
                 ).real
-            dot_product.backward()
+            if torch.is_tensor(dot_product):
+                dot_product.backward()
             return self._sanitize_gradients(arguments)
 
         if num_arguments == 1:
-- 
2.43.0


From c6e12fc015122bb9594815cffe8eb8e4c401a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 16/35] fix: TensorFlow Hessians of costs with unused arguments

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index bbd08f2..9f82bc4 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -65,7 +65,11 @@ class TensorFlowBackend(Backend):
             ) as accumulator:
                 for argument in arguments:
                     tape.watch(argument)
-                gradients = tape.gradient(function(*arguments), arguments)
+                gradients = tape.gradient(
+                    function(*arguments),
+                    arguments,
+                    unconnected_gradients=tf.UnconnectedGradients.ZERO,
+                )
             return self._sanitize_gradients(
                 arguments, accumulator.jvp(gradients)
             )
-- 
2.43.0


From e5944e309370c15e2d8b39b76bea101b4993e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 17/35] fix: transpose the middle factor of fixed-rank ambient
 vectors

---
 src/pymanopt/manifolds/fixed_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 74901c3..3e2c4f8 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -85,7 +85,7 @@ class FixedRankEmbedded(RiemannianSubmanifold):
 
     def _apply_ambient_transpose(self, vector, matrix):
         if isinstance(vector, (list, tuple)):
-            return vector[2] @ vector[1] @ vector[0].T @ matrix
+            return vector[2] @ vector[1].T @ vector[0].T @ matrix
         return vector.T @ matrix
 
     def projection(self, point, vector):
-- 
2.43.0


From 28691f55dd9b39153588d64f58e43ad5a2199455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 18/35] fix: re-tangentialize with the overridden projection

---
 src/pymanopt/manifolds/euclidean.py         | 4 ++++
 src/pymanopt/manifolds/positive_definite.py | 2 ++
 src/pymanopt/manifolds/sphere.py            | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/pymanopt/manifolds/euclidean.py b/src/pymanopt/manifolds/euclidean.py
index 5a78720..450ce2a 100644
--- a/src/pymanopt/manifolds/euclidean.py
+++ b/src/pymanopt/manifolds/euclidean.py
@@ -164,6 +164,8 @@ class Symmetric(_Euclidean):
     def projection(self, point, vector):
         return multisym(vector)
 
+    to_tangent_space = projection
+
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
     ):
@@ -206,6 +208,8 @@ class SkewSymmetric(_Euclidean):
     def projection(self, point, vector):
         return multiskew(vector)
 
+    to_tangent_space = projection
+
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
     ):
diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index b30cca1..896d9ff 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -246,6 +246,8 @@ class SpecialHermitianPositiveDefinite(_PositiveDefiniteBase):
         ).reshape(shape)
         return vector - (1 / n) * t * point
 
+    to_tangent_space = projection
+
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self.projection(
             point,
diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 74871a6..3180409 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -137,6 +137,8 @@ class _SphereSubspaceIntersectionManifold(_SphereBase):
     def projection(self, point, vector):
         return self._subspace_projector @ super().projection(point, vector)
 
+    to_tangent_space = projection
+
     def random_point(self):
         point = super().random_point()
         return self._normalize(self._subspace_projector @ point)
-- 
2.43.0


From a5c36ddbdd3cddd82b4dfce7982160f6a6ab203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 19/35] fix: linearly dependent columns in sphere subspace
 spans

---
 src/pymanopt/manifolds/sphere.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 3180409..137f4be 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -125,6 +125,13 @@ class _SphereSubspaceIntersectionManifold(_SphereBase):
         self._subspace_projector = projector
         super().__init__(n, name=name, dimension=dimension)
 
+    def _span_projector(self, matrix):
+        u, s, _ = np.linalg.svd(matrix, full_matrices=False)
+        # Ignore directions lost to linearly dependent columns.
+        tolerance = s.max() * max(matrix.shape) * np.finfo(s.dtype).eps
+        u = u[:, s > tolerance]
+        return u @ u.T
+
     def _validate_span_matrix(self, matrix):
         if len(matrix.shape) != 2:
             raise ValueError("Input array must be 2-dimensional")
@@ -164,8 +171,7 @@ class SphereSubspaceIntersection(_SphereSubspaceIntersectionManifold):
     def __init__(self, matrix):
         self._validate_span_matrix(matrix)
         m = matrix.shape[0]
-        q, _ = np.linalg.qr(matrix)
-        projector = q @ q.T
+        projector = self._span_projector(matrix)
         subspace_dimension = np.linalg.matrix_rank(projector)
         name = (
             f"Sphere manifold of {m}-dimensional vectors intersecting a "
@@ -193,8 +199,7 @@ class SphereSubspaceComplementIntersection(
     def __init__(self, matrix):
         self._validate_span_matrix(matrix)
         m = matrix.shape[0]
-        q, _ = np.linalg.qr(matrix)
-        projector = np.eye(m) - q @ q.T
+        projector = np.eye(m) - self._span_projector(matrix)
         subspace_dimension = np.linalg.matrix_rank(projector)
         name = (
             f"Sphere manifold of {m}-dimensional vectors orthogonal "
-- 
2.43.0


From 64b86893c81d91c689016720dd099afaa25e512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 20/35] fix: in-place addition and scaling of product tangent
 vectors

---
 src/pymanopt/manifolds/product.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 25c6dbf..d0a4241 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -146,6 +146,9 @@ class _ProductTangentVector(ndarraySequenceMixin, list):
             raise ValueError("Arguments must be same length")
         return [v + other[k] for k, v in enumerate(self)]
 
+    # Do not extend the list.
+    __iadd__ = __add__
+
     @return_as_class_instance(unpack=False)
     def __sub__(self, other):
         if len(self) != len(other):
@@ -158,6 +161,9 @@ class _ProductTangentVector(ndarraySequenceMixin, list):
 
     __rmul__ = __mul__
 
+    # Do not repeat the list.
+    __imul__ = __mul__
+
     @return_as_class_instance(unpack=False)
     def __truediv__(self, other):
         return [val / other for val in self]
-- 
2.43.0


From 8e9ce698ee1047bbc509b9c0ee69288ef95ff557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 21/35] fix: conjugate gradient directions with vanishing
 denominators

---
 src/pymanopt/optimizers/conjugate_gradient.py | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index b9fe6ef..cb1da2c 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -61,15 +61,13 @@ def _beta_hestenes_stiefel(
     descent_direction,
 ):
     diff = newgrad - oldgrad
-    try:
-        beta = max(
-            0,
-            manifold.inner_product(newx, Pnewgrad, diff)
-            / manifold.inner_product(newx, diff, descent_direction),
-        )
-    except ZeroDivisionError:
-        beta = 1
-    return beta
+    denominator = manifold.inner_product(newx, diff, descent_direction)
+    if denominator == 0:
+        return 1
+    return max(
+        0,
+        manifold.inner_product(newx, Pnewgrad, diff) / denominator,
+    )
 
 
 def _beta_hager_zhang(
@@ -91,6 +89,8 @@ def _beta_hager_zhang(
     Poldgrad = manifold.transport(x, newx, Pgrad)
     Pdiff = Pnewgrad - Poldgrad
     denominator = manifold.inner_product(newx, diff, descent_direction)
+    if denominator == 0:
+        return 0
     numerator = manifold.inner_product(newx, diff, Pnewgrad)
     numerator -= (
         2
@@ -122,6 +122,8 @@ def _beta_liu_storey(
     diff = newgrad - oldgrad
     ip_diff = manifold.inner_product(newx, Pnewgrad, diff)
     denominator = -manifold.inner_product(x, grad, descent_direction)
+    if denominator == 0:
+        return 0
     beta_ls = ip_diff / denominator
     beta_cd = newgradPnewgrad / denominator
     return max(0, min(beta_ls, beta_cd))
@@ -288,7 +290,7 @@ class ConjugateGradient(Optimizer):
             # If we didn't get a descent direction: restart, i.e., switch to
             # the negative gradient. Equivalent to resetting the CG direction
             # to a steepest descent step, which discards the past information.
-            if df0 >= 0:
+            if not df0 < 0:
                 # Or we switch to the negative gradient direction.
                 if self._verbosity >= 3:
                     print(
@@ -314,11 +316,16 @@ class ConjugateGradient(Optimizer):
 
             # Powell's restart strategy.
             oldgrad = manifold.transport(x, newx, grad)
-            orth_grads = (
-                manifold.inner_product(newx, oldgrad, Pnewgrad)
-                / newgradPnewgrad
-            )
-            if abs(orth_grads) >= self._orth_value:
+            if newgradPnewgrad != 0:
+                orth_grads = (
+                    manifold.inner_product(newx, oldgrad, Pnewgrad)
+                    / newgradPnewgrad
+                )
+                restart = abs(orth_grads) >= self._orth_value
+            else:
+                # The new gradient vanishes.
+                restart = True
+            if restart:
                 beta = 0
                 descent_direction = -Pnewgrad
             else:
-- 
2.43.0


From 7b4caecccd728de44463c76d8836c91d4fc96cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 22/35] fix: trust-region subproblem with a vanishing residual

---
 src/pymanopt/optimizers/trust_regions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ef199d0..002315b 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -460,6 +460,11 @@ class TrustRegions(Optimizer):
         norm_r = np.sqrt(r_r)
         norm_r0 = norm_r
 
+        # If the residual vanishes, eta is already a stationary point of the
+        # model: there is no direction left to follow.
+        if norm_r == 0:
+            return eta, Heta, 0, self.REACHED_TARGET_LINEAR
+
         # Precondition the residual
         if not self.use_rand:
             z = preconditioner(x, r)
@@ -583,8 +588,9 @@ class TrustRegions(Optimizer):
             # criterion on the r's (the gradients) or on the z's (the
             # preconditioned gradients). [CGT2000], page 206, mentions both as
             # acceptable criteria.
-            if j >= mininner and norm_r <= norm_r0 * min(
-                norm_r0**theta, kappa
+            if norm_r == 0 or (
+                j >= mininner
+                and norm_r <= norm_r0 * min(norm_r0**theta, kappa)
             ):
                 # Residual is small enough to quit
                 if kappa < norm_r0**theta:
-- 
2.43.0


From cf78755b0eef4544b7485b79359c99239de7a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 23/35] fix: trust-region steps from a random start leave the
 trust region

---
 src/pymanopt/optimizers/trust_regions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 002315b..2d706d2 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -619,7 +619,11 @@ class TrustRegions(Optimizer):
             delta = manifold.to_tangent_space(x, delta)
 
             # Update new P-norms and P-dots [CGT2000, eq. 7.5.6 & 7.5.7].
-            e_Pd = beta * (e_Pd + alpha * d_Pd)
+            if not self.use_rand:
+                e_Pd = beta * (e_Pd + alpha * d_Pd)
+            else:
+                # The recurrence requires eta to be zero initially.
+                e_Pd = inner(x, eta, delta)
             d_Pd = z_r + beta * beta * d_Pd
 
         return eta, Heta, j, stop_tCG
-- 
2.43.0


From c6e97565cdc07792c16bdad2309dca0f47d9495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 24/35] fix: user-supplied Riemannian operators return no
 tangent vectors on structured manifolds

---
 src/pymanopt/core/problem.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index 55c9070..e56647f 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -90,13 +90,13 @@ class Problem:
         self._euclidean_hessian = euclidean_hessian
 
         if riemannian_gradient is not None:
-            riemannian_gradient = self._wrap_gradient_operator(
-                riemannian_gradient
+            riemannian_gradient = self._as_tangent_vector(
+                self._wrap_gradient_operator(riemannian_gradient)
             )
         self._riemannian_gradient = riemannian_gradient
         if riemannian_hessian is not None:
-            riemannian_hessian = self._wrap_hessian_operator(
-                riemannian_hessian
+            riemannian_hessian = self._as_tangent_vector(
+                self._wrap_hessian_operator(riemannian_hessian)
             )
         self._riemannian_hessian = riemannian_hessian
 
@@ -240,6 +240,21 @@ class Problem:
             hvp = wrapper
         return hvp
 
+    def _as_tangent_vector(self, operator):
+        """Decorator to return tangent vectors that support arithmetic.
+
+        On manifolds whose points consist of several arrays, user-supplied
+        operators return plain sequences of arrays.
+        """
+        if self.manifold.point_layout == 1:
+            return operator
+
+        @functools.wraps(operator)
+        def wrapper(point, *args):
+            return self.manifold.zero_vector(point) + operator(point, *args)
+
+        return wrapper
+
     @property
     def cost(self):
         return self._cost
-- 
2.43.0


From d64d739dbf462965b19060240fe78abc399a1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 25/35] fix: PyTorch derivatives that are efficient zero
 tensors are not converted to arrays

---
 src/pymanopt/autodiff/backends/_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index 93aa251..7c5e719 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -50,7 +50,7 @@ class PyTorchBackend(Backend):
     def _sanitize_gradient(self, tensor):
         if tensor.grad is None:
             return torch.zeros_like(tensor).numpy()
-        return tensor.grad.resolve_conj().numpy()
+        return tensor.grad.numpy(force=True)
 
     def _sanitize_gradients(self, tensors):
         return list(map(self._sanitize_gradient, tensors))
-- 
2.43.0


From 14987af02f300e6ced2a090c1af8c9ec3db7e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 26/35] fix: logarithms of stacked real matrices lose their
 imaginary parts

---
 src/pymanopt/tools/multi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/multi.py b/src/pymanopt/tools/multi.py
index 820205c..a8d924d 100644
--- a/src/pymanopt/tools/multi.py
+++ b/src/pymanopt/tools/multi.py
@@ -65,7 +65,13 @@ def multieye(k, n):
 def multilogm(A, *, positive_definite=False):
     """Vectorized matrix logarithm."""
     if not positive_definite:
-        return np.vectorize(scipy.linalg.logm, signature="(m,m)->(m,m)")(A)
+        # The logarithm of a real matrix may be complex.
+        logmA = np.vectorize(
+            scipy.linalg.logm, signature="(m,m)->(m,m)", otypes=[complex]
+        )(A)
+        if np.isrealobj(A) and not np.any(logmA.imag):
+            return np.real(logmA)
+        return logmA
 
     w, v = np.linalg.eigh(A)
     w = np.expand_dims(np.log(w), axis=-1)
-- 
2.43.0


From bc4379bc3c13fce452ff7fc77ee870526dcee53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 27/35] fix: diagnostics report NaN slopes when some errors
 vanish exactly

---
 src/pymanopt/tools/diagnostics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index c6512c2..085808f 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -18,10 +18,14 @@ def identify_linear_piece(x, y, window_length):
     output poly specifies a first order polynomial that best fits (x, y) over
     that segment (highest degree coefficients first).
     """
-    residues = np.zeros(len(x) - window_length)
+    # Windows touching non-finite values, e.g., the logarithm of a vanishing
+    # error, are not linear.
+    residues = np.full(len(x) - window_length, np.inf)
     polys = np.zeros((2, len(residues)))
     for k in np.arange(len(residues)):
         segment = np.arange(k, k + window_length + 1)
+        if not np.all(np.isfinite(y[segment])):
+            continue
         poly, residuals, *_ = np.polyfit(
             x[segment], y[segment], deg=1, full=True
         )
-- 
2.43.0


From ca119412ca5f98019c9bfe17807df3576da89203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 28/35] fix: check_retraction does not report missing distance
 maps

---
 src/pymanopt/tools/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index 085808f..1889625 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -317,10 +317,10 @@ def check_retraction(manifold, point=None, tangent_vector=None):
             f"The manifold '{manifold_class}' provides no retraction"
         ) from None
     try:
-        manifold.retraction(point, tangent_vector)
+        manifold.dist(point, point)
     except NotImplementedError:
         raise RuntimeError(
-            f"This manifold '{manifold_class}'provides no distance map which "
+            f"This manifold '{manifold_class}' provides no distance map which "
             "is required to run this check"
         ) from None
 
-- 
2.43.0


From f9b5bb02eede3280b1d6de5a607f2a804e4792af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 29/35] fix: norms of slightly asymmetric vectors are NaN on
 positive-definite matrices

---
 src/pymanopt/manifolds/positive_definite.py | 6 +++++-
 src/pymanopt/manifolds/product.py           | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index 896d9ff..dd89d90 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -62,8 +62,12 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
         )
 
     def norm(self, point, tangent_vector):
+        # The conjugate transpose keeps the norm of vectors which are only
+        # Hermitian up to rounding errors from becoming NaN.
         return np.sqrt(
-            self.inner_product(point, tangent_vector, tangent_vector)
+            self.inner_product(
+                point, multihconj(tangent_vector), tangent_vector
+            )
         )
 
     def random_point(self):
diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index d0a4241..45758fd 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -57,9 +57,11 @@ class Product(Manifold):
         return wrapper
 
     def norm(self, point, tangent_vector):
-        return np.sqrt(
-            self.inner_product(point, tangent_vector, tangent_vector)
-        )
+        return self._dispatch(
+            "norm",
+            transform=lambda value: value**2,
+            reduction=lambda values: np.sqrt(np.sum(values)),
+        )(point, tangent_vector)
 
     def inner_product(self, point, tangent_vector_a, tangent_vector_b):
         return self._dispatch("inner_product", reduction=np.sum)(
-- 
2.43.0


From 3f45097ed686852d7ee1d5c65a8a5cae8c59884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 30/35] fix: draw random points of the unitary group U(1)

---
 src/pymanopt/manifolds/group.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 831d4ee..59bb09c 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -219,14 +219,10 @@ class UnitaryGroup(_UnitaryBase):
 
     def random_point(self):
         n, k = self._n, self._k
-        if n == 1:
-            point = np.ones((k, 1, 1)) + 1j * np.ones((k, 1, 1))
-            point /= np.abs(point)
-        else:
-            point, _ = multiqr(
-                np.random.normal(size=(k, n, n))
-                + 1j * np.random.normal(size=(k, n, n))
-            )
+        point, _ = multiqr(
+            np.random.normal(size=(k, n, n))
+            + 1j * np.random.normal(size=(k, n, n))
+        )
         if k == 1:
             return point[0]
         return point
-- 
2.43.0


From ecb6613980d576c767c414696b446df2e32f5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 31/35] fix: draw the matrices of a positive-definite stack
 independently

---
 src/pymanopt/manifolds/positive_definite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index dd89d90..01803f4 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -74,10 +74,10 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
         # Generate eigenvalues between 1 and 2.
         d = 1.0 + np.random.uniform(size=(self._k, self._n, 1))
 
-        # Generate a unitary matrix.
+        # Generate unitary matrices.
         q, _ = multiqr(
-            np.random.normal(size=(self._n, self._n))
-            + 1j * np.random.normal(size=(self._n, self._n))
+            np.random.normal(size=(self._k, self._n, self._n))
+            + 1j * np.random.normal(size=(self._k, self._n, self._n))
         )
         point = q @ (d * multihconj(q))
         return point if self._k > 1 else point[0]
-- 
2.43.0


From 118be8342ed740d856354174cb189bada8a96f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 32/35] fix: evaluate PyTorch costs whose result is lazily
 negated or conjugated

---
 src/pymanopt/autodiff/backends/_pytorch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index 7c5e719..40ed698 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -43,7 +43,8 @@ class PyTorchBackend(Backend):
     def prepare_function(self, function):
         @functools.wraps(function)
         def wrapper(*args):
-            return function(*map(self._from_numpy, args)).numpy()
+            # Lazily conjugated or negated results need to be resolved first.
+            return function(*map(self._from_numpy, args)).numpy(force=True)
 
         return wrapper
 
-- 
2.43.0


From 925b587bfc512647d9769ffc07587c4a17d24de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 33/35] fix: diagnostics do not fit the line through constant
 rounding errors

---
 src/pymanopt/tools/diagnostics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index 1889625..212c5cc 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -19,13 +19,16 @@ def identify_linear_piece(x, y, window_length):
     that segment (highest degree coefficients first).
     """
     # Windows touching non-finite values, e.g., the logarithm of a vanishing
-    # error, are not linear.
+    # error, are not linear. Windows of (almost) constant values only consist
+    # of rounding errors.
     residues = np.full(len(x) - window_length, np.inf)
     polys = np.zeros((2, len(residues)))
     for k in np.arange(len(residues)):
         segment = np.arange(k, k + window_length + 1)
         if not np.all(np.isfinite(y[segment])):
             continue
+        if np.ptp(y[segment]) < 0.1 * np.ptp(x[segment]):
+            continue
         poly, residuals, *_ = np.polyfit(
             x[segment], y[segment], deg=1, full=True
         )
-- 
2.43.0


From 99f62d2ccabcfa6fd8d4f8731bb2b505f7a75dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 34/35] fix: Oblique distance of columns which are antipodal up
 to rounding

---
 src/pymanopt/manifolds/oblique.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 9bf53b9..13e9fc7 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -37,8 +37,7 @@ class Oblique(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        XY = (point_a * point_b).sum(0)
-        XY[XY > 1] = 1
+        XY = np.clip((point_a * point_b).sum(0), -1, 1)
         return np.linalg.norm(np.arccos(XY))
 
     def projection(self, point, vector):
-- 
2.43.0


From 1246ea3defe77515591a6d552ab08bba90472cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 35/35] fix: distance on the unitary groups between points
 without unique logarithm

---
 src/pymanopt/manifolds/group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 59bb09c..25b0eef 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -41,7 +41,10 @@ class _UnitaryBase(RiemannianSubmanifold):
         return np.pi * np.sqrt(self._n * self._k)
 
     def dist(self, point_a, point_b):
-        return self.norm(point_a, self.log(point_a, point_b))
+        # The eigenvalues of the logarithm are determined even if two points
+        # have no unique logarithm.
+        eigenvalues = np.linalg.eigvals(multihconj(point_a) @ point_b)
+        return np.linalg.norm(np.angle(eigenvalues))
 
     def projection(self, point, vector):
         return multiskewh(multihconj(point) @ vector)
-- 
2.43.0

