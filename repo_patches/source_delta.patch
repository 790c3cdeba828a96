From 02a472f275ac9d8dfe4c30c5d85257a080f803d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 01/10] fix: read the coefficients once in
 CubicSplines.interpolate

The result buffer was sized from one read of self.__mcoeffs__ and the evaluation
used another: with set_values changing the number of splines in between (another
thread), the kernel wrote outside the buffer.
---
 interpolation/splines/splines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interpolation/splines/splines.py b/interpolation/splines/splines.py
index 6fdc468..5898198 100644
--- a/interpolation/splines/splines.py
+++ b/interpolation/splines/splines.py
@@ -174,7 +174,8 @@ class CubicSplines:
         if not np.all(np.isfinite(points)):
             raise Exception("Spline interpolator evaluated at non-finite points.")
 
-        n_sp = self.__mcoeffs__.shape[-1]
+        mcoeffs = self.__mcoeffs__
+        n_sp = mcoeffs.shape[-1]
 
         N = points.shape[0]
         d = points.shape[1]
@@ -188,7 +189,7 @@ class CubicSplines:
             from .eval_splines import eval_cubic
 
             values = np.empty((N, n_sp), dtype=float)
-            eval_cubic(grid, self.__mcoeffs__, points, values)
+            eval_cubic(grid, mcoeffs, points, values)
             return values
         else:
             from .eval_cubic import vec_eval_cubic_splines_G
@@ -196,7 +197,7 @@ class CubicSplines:
             values = np.empty((N, n_sp), dtype=float)
             dvalues = np.empty((N, d, n_sp), dtype=float)
             vec_eval_cubic_splines_G(
-                self.a, self.b, self.orders, self.__mcoeffs__, points, values, dvalues
+                self.a, self.b, self.orders, mcoeffs, points, values, dvalues
             )
             return [values, dvalues]
 
-- 
2.43.0


From 003d0b2dfd015cb1499bbfc4aad82d8f1aa45d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 02/10] fix: LinearSpline(s).set_values copies the values it is
 given

A contiguous float array was kept by reference (CubicSpline(s) copy), so modifying
it later in place silently changed the interpolator.
---
 interpolation/splines/multilinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..0d93c79 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -79,7 +79,7 @@ class LinearSpline:
 
     def set_values(self, values):
         values = values.reshape(self.orders)
-        self.values = numpy.ascontiguousarray(values, dtype=self.dtype)
+        self.values = numpy.array(values, dtype=self.dtype, order="C")
 
     def interpolate(self, s):
         from .eval_splines import eval_linear
@@ -161,7 +161,7 @@ class LinearSplines:
         n_x = mvalues.shape[-1]
         new_orders = list(self.orders) + [n_x]
         mvalues = mvalues.reshape(new_orders)
-        self.mvalues = numpy.ascontiguousarray(mvalues, dtype=self.dtype)
+        self.mvalues = numpy.array(mvalues, dtype=self.dtype, order="C")
 
     def interpolate(self, s):
         from .multilinear_numba import eval_linear
-- 
2.43.0


From 4768e71c12ba0d83436252d6b6264bd42c7e338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 03/10] fix: LinearSpline(s).grid works in one dimension

numpy.linspace was called with an array as number of points and raised TypeError.
---
 interpolation/splines/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index 0d93c79..687b29e 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -7,7 +7,7 @@ import numpy as np
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
+            np.linspace(smin[0], smax[0], orders[0])
         )
         return res.copy()  ## workaround for strange bug
     else:
-- 
2.43.0


From 549d67f5101e49b30268d07dfcb22f11b25e8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 04/10] fix: vec_multilinear_interpolation with an output
 buffer raised NameError

---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From d7e0584ea17ce90a162e8a078d9552631ae0c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 05/10] fix: SmolyakGrid copies the bounds it is given

Arrays were kept by reference: modifying them later moved the domain of an
existing grid, and of all the interpolators built on it, without moving its nodes.
---
 interpolation/smolyak/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index f161239..57a3b30 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -727,7 +727,7 @@ class SmolyakGrid(object):
         elif isinstance(lb, int) or isinstance(lb, float):  # scalar. copy it
             self.lb = np.ones(d) * lb
         elif isinstance(lb, list) or isinstance(lb, np.ndarray):
-            lb = np.asarray(lb)
+            lb = np.array(lb)
             if lb.size == d:
                 self.lb = lb
             else:
@@ -740,7 +740,7 @@ class SmolyakGrid(object):
         elif isinstance(ub, int) or isinstance(ub, float):  # scalar. copy it
             self.ub = np.ones(d) * ub
         elif isinstance(ub, list) or isinstance(ub, np.ndarray):
-            ub = np.asarray(ub)
+            ub = np.array(ub)
             if ub.size == d:
                 self.ub = ub
             else:
-- 
2.43.0


From bd5534e238f6cc0f7d5ad88d28d0c6598558d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 06/10] fix: a failed SmolyakInterp.update_theta leaves the
 interpolator as it was

f_on_grid was replaced before the coefficients were computed, so a rejected update
left node values that did not match the coefficients.
---
 interpolation/smolyak/interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpolation/smolyak/interp.py b/interpolation/smolyak/interp.py
index 0cc1df1..6fbecd8 100644
--- a/interpolation/smolyak/interp.py
+++ b/interpolation/smolyak/interp.py
@@ -33,8 +33,9 @@ class SmolyakInterp(object):
         self.theta = find_theta(sg, self.f_on_grid)
 
     def update_theta(self, f_on_grid):
+        theta = find_theta(self.sg, f_on_grid)
         self.f_on_grid = f_on_grid
-        self.theta = find_theta(self.sg, self.f_on_grid)
+        self.theta = theta
 
     def interpolate(self, pts, interp=True, deriv=False, deriv_th=False, deriv_X=False):
         """
-- 
2.43.0


From abd4b22c82dd9373f35743619ed7a6664a1b8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 07/10] fix: constant extrapolation at one point, with an
 output buffer or derivatives

With an output buffer and vector values the zeros were overwritten by the linear
extrapolation; with scalar values and derivatives the buffer was left unwritten, and
the allocating call did not compile.
---
 interpolation/splines/codegen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..1846f75 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -194,6 +194,15 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
+        {{endif}}
+        {{elif orders is not None}}
+        {{if allocate}}
+        return (0.0,)*{{len(orders)}}
+        {{else}}
+        out[:] = 0.0
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From 26f6ae22f30384260cae1853e77b1c88c09fa336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 08/10] fix: nearest/constant extrapolation at one point on
 non-uniform grids

The bounds of non-uniform dimensions were only defined in the vectorized template,
the one-point version did not compile.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 1846f75..c237f1d 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From 07726ab8ed5a783cf69374948ce685b13cac946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 09/10] fix: derivatives of linear splines along uniform
 dimensions
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

δ is the inverse of the spacing on uniform dimensions and was the spacing on
non-uniform ones; the derivative divided by it in both cases. It is now the inverse
of the spacing for both kinds of dimensions.
---
 interpolation/splines/codegen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index c237f1d..0a102f7 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -226,8 +226,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dimension {{i}}: nonuniform grid
     i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-    δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
     {{endif}}
     
     {{endfor}}
@@ -364,8 +364,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         # dimension {{i}}: nonuniform grid
         i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-        δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From 7cae95d63d1668f75a23b51c50a7fbd1e295a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 10/10] fix: an anisotropic SmolyakGrid copies the levels it is
 given

The array was kept by reference: modifying it later made interpolation on the
existing grid fail.
---
 interpolation/smolyak/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index 57a3b30..30dca35 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -763,7 +763,7 @@ class SmolyakGrid(object):
             self.B = build_B(self.d, self.mu, self.cube_grid, self.pinds)
 
         else:  # Anisotropic case
-            mu = np.asarray(mu)
+            mu = np.array(mu)
 
             if any(mu < 1):
                 raise ValueError("Each element in mu needs to be > 1.")
-- 
2.43.0

