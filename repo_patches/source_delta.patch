From 3b201137c4dbc9b99e288d01e9c7c8a73b075315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 01/16] fix: keep the order of measures when combining
 processes

The intersection was a set, so the primary measure of a process derived from
more than one process depended on memory addresses.
---
 stheno/model/gp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..4f584b2 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -34,9 +34,12 @@ def intersection_measure_group(*ps):
         *ps (:class:`.gp.GP`): Processes.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
+    # Preserve the order of the measures: the first measure that a process is added to
+    # becomes its primary measure.
+    intersection = list(ps[0]._measures)
     for p in ps[1:]:
-        intersection &= set(p._measures)
+        others = set(p._measures)
+        intersection = [measure for measure in intersection if measure in others]
     return intersection
 
 
-- 
2.43.0


From 3554d34aa5550d89c9ca540cd971bb986eecd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 02/16] fix: restore the default measure when a measure is
 re-entered

Entering a measure that was already entered overwrote the saved default, so the
measure stayed the default after both blocks were left.
---
 stheno/model/measure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..d22dece 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -44,15 +44,15 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(Measure.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From d800e14ba8db30b2ccb9ff546f759c6e846e4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 03/16] fix: keep the name of a process when renaming it is
 refused

---
 stheno/model/measure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index d22dece..eceb46c 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -75,17 +75,17 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
-- 
2.43.0


From c1469d0099e02571b796d12d21e991b964c99758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 04/16] fix: resolve the mean and variance in Normal.mean_var
 and Normal.marginals

For a zero-mean normal, both gave an unexpanded scalar zero unless the mean was
accessed before, and mean_var gave the variance as it was passed in.
---
 stheno/random.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..72c966f 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -173,12 +173,9 @@ class Normal(RandomVector):
     @property
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
-        if self._mean is not None and self._var is not None:
-            return self._mean, self._var
-        elif self._mean is not None:
-            return self._mean, self.var
-        elif self._var is not None:
-            return self.mean, self._var
+        if self._mean is not None or self._var is not None:
+            # Use the properties to ensure that both are fully resolved.
+            return self.mean, self.var
         else:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
@@ -207,12 +204,9 @@ class Normal(RandomVector):
         Returns:
             tuple: A tuple containing the marginal means and marginal variances.
         """
-        if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
-        elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
-        elif self._var_diag is not None:
-            mean, var_diag = self.mean, self._var_diag
+        if self._mean is not None or self._var_diag is not None:
+            # Use the properties to ensure that both are fully resolved.
+            mean, var_diag = self.mean, self.var_diag
         else:
             if self._construct_mean_var_diag is not None:
                 self._mean, self._var_diag = self._construct_mean_var_diag()
-- 
2.43.0


From 2c38dc366e8f5830bdb1dca071ec1135a992f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 05/16] fix: never reuse the identity of a process that was
 only partially added

If adding a process to a measure was interrupted, then its covariance rules
remained and could be applied to a new process that got the same id.
---
 stheno/model/measure.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index eceb46c..f6f89d8 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -37,6 +37,7 @@ class Measure:
     def __init__(self):
         self.ps = []
         self._pids = set()
+        self._alive = []
         self.means = LazyVector()
         self.kernels = LazyMatrix()
 
@@ -97,7 +98,14 @@ class Measure:
         # Add measure to list of measures of process.
         p._measures.append(self)
 
+    def _keep_alive(self, p):
+        # The means, kernels, and rules are indexed by `id(p)`. Should adding `p` be
+        # abandoned half-way, then this ensures that `id(p)` is never reused.
+        self._alive.append(p)
+
     def _update(self, p, mean, kernel, left_rule, right_rule=None):
+        self._keep_alive(p)
+
         # Update means.
         self.means[p] = mean
 
@@ -164,6 +172,8 @@ class Measure:
         Returns:
             :class:`.gp.GP`: The newly added independent GP.
         """
+        self._keep_alive(p)
+
         # Update means.
         self.means[p] = mean
 
-- 
2.43.0


From a9fe9f41260c521d61d42a864c64595685c7c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 06/16] fix: infer the size of nested multi-output processes

Sampling several distributions jointly and dropping missing data assumed that
every process has one output, which gave wrong samples and an IndexError for
multi-output processes.
---
 stheno/mo/infer.py      | 3 ++-
 stheno/mo/kernel.py     | 7 ++++---
 stheno/model/measure.py | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..4d44929 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -42,7 +42,8 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    # The process of the FDD can itself be multi-output.
+    return infer_size(x.p.kernel, x.x)
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..a8a893f 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -5,7 +5,7 @@ from mlkernels import (
     elwise,
 )
 
-from .infer import infer_size
+from .infer import dimensionality, infer_size
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputKernel"]
@@ -78,7 +78,8 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    # The processes can themselves be multi-output.
+    return sum(dimensionality(k.measure.kernels[p]) for p in k.ps)
 
 
 @_dispatch
@@ -86,7 +87,7 @@ def _take_x(k: MultiOutputKernel, x: B.Numeric, mask: B.Numeric):
     i = 0
     x_taken = ()
     for p in k.ps:
-        n = infer_size(k, p(x))
+        n = infer_size(k.measure.kernels[p], x)
         x_taken += (_take_x(k, p(x), mask[i : i + n]),)
         i += n
     return x_taken
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index f6f89d8..9f39626 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -448,7 +449,7 @@ class Measure:
         state, sample = self(combine(*fdds)).sample(state, n)
 
         # Unpack sample.
-        lengths = [num_elements(fdd) for fdd in fdds]
+        lengths = [infer_size(fdd.p.kernel, fdd.x) for fdd in fdds]
         i, samples = 0, []
         for length in lengths:
             samples.append(sample[..., i : i + length, :])
-- 
2.43.0


From ace9539b0dfa680e1a505b9105a53e39782d2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 07/16] fix: include the covariance in the mean of a product of
 dependent processes

The product is documented to match moments, but the mean of, e.g., the square of
a zero-mean process was zero.
---
 stheno/model/measure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 9f39626..ec17129 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -269,9 +269,14 @@ class Measure:
             self.mul(GP(), lambda x: self.means[p1](x), p2),
             self.mul(GP(), p1, lambda x: self.means[p2](x)),
         )
+        # The mean of the product of dependent processes includes their covariance.
+        mean2 = -self.means[p1] * self.means[p2]
+        k12 = self.kernels[p1, p2]
+        if not isinstance(k12, ZeroKernel):
+            mean2 = mean2 + (lambda x: k12.elwise(x))
         term2 = self.add_independent_gp(
             GP(),
-            -self.means[p1] * self.means[p2],
+            mean2,
             (
                 self.kernels[p1] * self.kernels[p2]
                 + self.kernels[p1, p2] * self.kernels[p2, p1]
-- 
2.43.0


From 23672198fd2c0dd37fe7cbddbda4782c321f49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 08/16] fix: compute marginals of products of dependent
 processes

Element-wise evaluation of a kernel scaled by a function can give a structured
matrix, which cannot be squeezed along an axis or indexed: marginals, variances,
and pseudo-point approximations raised TypeErrors.
---
 stheno/model/fdd.py          | 5 +++--
 stheno/model/observations.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..d5c3447 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -63,7 +63,8 @@ class FDD(Normal):
         self.noise = _noise_as_matrix(noise, B.dtype(x), infer_size(p.kernel, x))
 
         def var_diag():
-            return B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(self.noise))
+            var_diag = p.kernel.elwise(x)
+            return B.add(B.squeeze(B.dense(var_diag), axis=-1), B.diag(self.noise))
 
         def mean_var():
             mean, var = mlkernels.mean_var(p.mean, p.kernel, x)
@@ -71,7 +72,7 @@ class FDD(Normal):
 
         def mean_var_diag():
             mean, var_diag = mlkernels.mean_var_diag(p.mean, p.kernel, x)
-            return mean, B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
+            return mean, B.add(B.squeeze(B.dense(var_diag), axis=-1), B.diag(self.noise))
 
         Normal.__init__(
             self,
diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index ebd9656..f560e2c 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -301,7 +301,7 @@ class AbstractPseudoObservations(AbstractObservations):
         iLz_Kzx = B.solve(L_z, K_zx)
 
         if self.method in {"vfe", "fitc"}:
-            K_x_diag = measure.kernels[p_x].elwise(x)[..., 0]
+            K_x_diag = B.dense(measure.kernels[p_x].elwise(x))[..., 0]
             Q_x_diag = B.matmul_diag(iLz_Kzx, iLz_Kzx, tr_a=True)
             diag_correction = Diagonal(K_x_diag) - Diagonal(Q_x_diag)
 
-- 
2.43.0


From 0206a8b6b68ce72190b2cd10ff5cc719ff8855b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 09/16] fix: handle missing values observed at scalar inputs

---
 stheno/model/fdd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index d5c3447..e829e66 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -135,7 +135,8 @@ def take(fdd: FDD, indices_or_mask: B.Numeric):
 
 @_dispatch
 def _take_x(k: Kernel, x: B.Numeric, mask: B.Numeric):
-    return B.take(x, mask)
+    # The input can be a scalar.
+    return B.take(B.uprank(x, rank=1), mask)
 
 
 @_dispatch
-- 
2.43.0


From e5cf130cbb901637f47e4b54aae417c10ab871d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 10/16] fix: compute covariances of products with processes
 that are added later

---
 stheno/mo/kernel.py     |  4 ++++
 stheno/model/measure.py | 46 +++++++++++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index a8a893f..f2d88e9 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -63,11 +63,15 @@ def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: FDD, y: B.Numeric):
+    if len(k.ps) == 1:
+        return elwise(k, x, k.ps[0](y))
     raise ValueError('Unclear combination of arguments given to "elwise".')
 
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: FDD):
+    if len(k.ps) == 1:
+        return elwise(k, k.ps[0](x), y)
     raise ValueError('Unclear combination of arguments given to "elwise".')
 
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ec17129..a15464f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,7 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
-from ..mo import infer_size
+from ..mo import dimensionality, infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -39,6 +39,7 @@ class Measure:
         self.ps = []
         self._pids = set()
         self._alive = []
+        self._products = {}
         self.means = LazyVector()
         self.kernels = LazyMatrix()
 
@@ -104,6 +105,23 @@ class Measure:
         # abandoned half-way, then this ensures that `id(p)` is never reused.
         self._alive.append(p)
 
+    def _cross_kernel(self, ps, i):
+        # We transform the inputs with an FDD, which can completely change the shape.
+        # Therefore, we wrap the resulting kernel in `ADK` to indicate that its
+        # dimensionality cannot be inferred.
+        return ADK(MOK(self, *ps).transform(None, lambda y: FDD(i, y)))
+
+    def _respect_products(self, p, left_rule):
+        # The kernel between a Cartesian product and another process must be able to
+        # deal with FDDs as inputs and must have the right size, also if the other
+        # process is added later.
+        def respectful_left_rule(j):
+            if j in self._products and dimensionality(self.kernels[p]) == 1:
+                return reversed(self._cross_kernel(self._products[j], id(p)))
+            return left_rule(j)
+
+        return respectful_left_rule
+
     def _update(self, p, mean, kernel, left_rule, right_rule=None):
         self._keep_alive(p)
 
@@ -112,6 +130,7 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
+        left_rule = self._respect_products(p, left_rule)
         self.kernels.add_left_rule(id(p), self._pids, left_rule)
         if right_rule:
             self.kernels.add_right_rule(id(p), self._pids, right_rule)
@@ -149,7 +168,7 @@ class Measure:
     def __call__(self, p: GP):
         # Make a new GP with `self` as the prior.
         p_copy = GP()
-        return self._update(
+        self._update(
             p_copy,
             self.means[p],
             self.kernels[p],
@@ -157,6 +176,9 @@ class Measure:
             lambda j: self.kernels[p, j],  # Left rule
             lambda i: self.kernels[i, p],  # Right rule
         )
+        if id(p) in self._products:
+            self._products[id(p_copy)] = self._products[id(p)]
+        return p_copy
 
     @_dispatch
     def __call__(self, fdd: FDD):
@@ -180,8 +202,11 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, lambda j: ZeroKernel())
-        self.kernels.add_right_rule(id(p), self._pids, lambda i: ZeroKernel())
+        left_rule = self._respect_products(p, lambda j: ZeroKernel())
+        self.kernels.add_left_rule(id(p), self._pids, left_rule)
+        self.kernels.add_right_rule(
+            id(p), self._pids, lambda i: reversed(self.kernels[p, i])
+        )
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
@@ -388,6 +413,7 @@ class Measure:
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
+        posterior._products = dict(self._products)
 
         posterior.means.add_rule(posterior._pids, lambda i: obs.posterior_mean(self, i))
         posterior.kernels.add_rule(
@@ -427,16 +453,14 @@ class Measure:
         Returns:
             :class:`.gp.GP`: The Cartesian product of `ps`.
         """
-        mok = MOK(self, *ps)
-        return self._update(
+        self._update(
             p_cross,
             MOM(self, *ps),
-            mok,
-            # We transform the inputs with an FDD, which can completely change the
-            # shape. Therefore, we wrap the resulting kernel in `ADK` to indicate that
-            # its dimensionality cannot be inferred.
-            lambda j: ADK(mok.transform(None, lambda y: FDD(j, y))),
+            MOK(self, *ps),
+            lambda j: self._cross_kernel(ps, j),
         )
+        self._products[id(p_cross)] = ps
+        return p_cross
 
     @_dispatch
     def sample(self, state: B.RandomState, n: B.Int, *fdds: FDD):
-- 
2.43.0


From 81db951b308ae284ab87be0c308e8cfb9a645ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 11/16] fix: compute distances between normals with differently
 structured means

---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 72c966f..c5d2843 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -296,7 +296,7 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            B.iqf_diag(other.var, B.subtract(other.mean, self.mean))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -317,7 +317,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 62f4e242ab651454aa48b817e7137a9f9a1be134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 12/16] fix: infer the dimensionality of posteriors that are
 conditioned on shared products

---
 stheno/mo/infer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 4d44929..cd3ad44 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -86,12 +86,12 @@ def dimensionality(k: Element):
 
 @_dispatch
 def dimensionality(k: PosteriorKernel):
-    return _check_and_merge(
-        k,
-        dimensionality(k.k_ij),
-        dimensionality(k.k_zi),
-        dimensionality(k.k_zj),
-    )
+    d = dimensionality(k.k_ij)
+    if d is None:
+        # If the dimensionality of `k.k_ij` is ambiguous, then the dimensionalities of
+        # `k.k_zi` and `k.k_zj` do not determine the dimensionality of `k`.
+        return None
+    return _check_and_merge(k, d, dimensionality(k.k_zi), dimensionality(k.k_zj))
 
 
 @_dispatch
-- 
2.43.0


From 8b19a9c14980eed37bf348d72f6bbacce5e5c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 13/16] fix: infer the dimensionality of chained approximate
 posteriors

---
 stheno/model/observations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index f560e2c..6957535 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -5,6 +5,8 @@ from matrix import AbstractMatrix, Diagonal
 from mlkernels import PosteriorKernel, PosteriorMean, SubspaceKernel, num_elements
 
 from .. import _dispatch
+from ..mo import AmbiguousDimensionalityKernel as ADK
+from ..mo import dimensionality
 from .fdd import FDD
 from .gp import cross
 
@@ -253,7 +255,7 @@ class AbstractPseudoObservations(AbstractObservations):
             return self._A[id(measure)]
 
     def posterior_kernel(self, measure, p_i, p_j):
-        return PosteriorKernel(
+        kernel = PosteriorKernel(
             measure.kernels[p_i, p_j],
             measure.kernels[self.u.p, p_i],
             measure.kernels[self.u.p, p_j],
@@ -265,6 +267,10 @@ class AbstractPseudoObservations(AbstractObservations):
             self.u.x,
             self.A(measure),
         )
+        if dimensionality(measure.kernels[p_i, p_j]) is None:
+            # The dimensionality of the subspace kernel depends on the inducing points.
+            kernel = ADK(kernel)
+        return kernel
 
     def posterior_mean(self, measure, p):
         return PosteriorMean(
-- 
2.43.0


From b4801cc556bd6eb54efed47b92b8d267865acf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 14/16] fix: name a process in all of its measures or in none

---
 stheno/model/gp.py      |  3 +++
 stheno/model/measure.py | 13 ++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index 4f584b2..8a8f0bf 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -131,6 +131,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # If one measure refuses the name, then no measure should change.
+        for measure in self._measures:
+            measure._assert_name_available(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a15464f..b97b53f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -70,6 +70,13 @@ class Measure:
     def __getitem__(self, p: GP):
         return self._names_by_gp[id(p)]
 
+    def _assert_name_available(self, p, name):
+        # Check that name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     @_dispatch
     def name(self, p: GP, name: str):
         """Name a GP.
@@ -78,11 +85,7 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
-        # Check that name is not in use by another GP.
-        if name in self._gps_by_name and self._gps_by_name[name] is not p:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
+        self._assert_name_available(p, name)
 
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
-- 
2.43.0


From edc73428f169c23c0f9bcf2bad444f103e315c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 15/16] fix: compute the second moment of batched normals

---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index c5d2843..a0bbf6e 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -196,7 +196,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return self.var + B.outer(B.dense(self.mean))
 
     def marginals(self):
         """Get the marginals.
-- 
2.43.0


From 718121336cb4768c674a9d90752dc06ba04bb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 16/16] fix: compute the Wasserstein distance per batch element

---
 stheno/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index a0bbf6e..5454065 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -317,7 +317,8 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        mean_diff = B.uprank(B.dense(B.subtract(self.mean, other.mean)))
+        mean_part = B.sum(B.sum(mean_diff**2, axis=-1), axis=-1)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0

