From daaa05d5d203f8da1fc352d0c4db3eef812304c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 01/14] fix: define bounds of irregular dimensions when
 evaluating a single point

'nearest' and 'constant' extrapolation refer to them, so these modes could
not be compiled for a single point on a grid with an irregular dimension.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..94dc5de 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From a00e8f1d33a64a63f476983cffffa8e50a11d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 02/14] fix: return after zeroing the output in constant
 extrapolation

The in-place vector-valued call at a single point went on and overwrote the
zeros with the linear extrapolation.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 94dc5de..619e6e6 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -196,6 +196,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From f69729510153bd2eee247273b2e1e216849d46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 03/14] fix: return zero derivatives outside the grid in
 constant mode

For a single point of a scalar spline with derivatives, the allocating call
could not be compiled (it returned either a number or a tuple) and the
in-place call left the output untouched.
---
 interpolation/splines/codegen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 619e6e6..76a4a02 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -199,6 +199,11 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{else}}
         return
         {{endif}}
+        {{elif orders is not None and allocate}}
+        return ({{"0.0, "*len(orders)}})
+        {{elif orders is not None}}
+        out[:] = 0.0
+        return
         {{else}}
         val = 0.0
         return val
-- 
2.43.0


From 70699a3af99e8edce3a0e934c618e6f9dac892a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 04/14] fix: scale of derivatives of linear splines on regular
 grids
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

δ is the inverse of the step on regular dimensions (cubic derivatives rely on
it) but was the step on irregular ones, and the derivative of the linear basis
assumed the latter: derivatives on regular grids were multiplied by the square
of the step.  δ is now the inverse of the step everywhere.
---
 interpolation/splines/codegen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 76a4a02..0a918b5 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -226,6 +226,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
     δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
     λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    δ_{{i}} = 1.0/δ_{{i}}  # inverse of the step, as for uniform grids
     {{endif}}
     
     {{endfor}}
@@ -364,6 +365,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
         δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
         λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        δ_{{i}} = 1.0/δ_{{i}}  # inverse of the step, as for uniform grids
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From 240f76d9520317d1bc7cc54a0e2fd03dae82377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 05/14] fix: cell of points too far away to be counted in int64

Converting a float beyond the range of int64 is undefined and in practice
gives the smallest integer, so that points far above the grid were
extrapolated from the first cell.  Bound the number before converting it.
---
 interpolation/splines/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 0a918b5..91842d0 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -217,7 +217,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     {{if (not grid_types) or (grid_types[i]=='uniform')}}
     # dimension {{i}}: uniform grid
     u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-    i_{{i}} = int( floor( u_{{i}} ) )
+    i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}), -1.0 ) ) )
     i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
     λ_{{i}} = u_{{i}}-i_{{i}}
     {{elif grid_types[i]=='nonuniform'}}
@@ -356,7 +356,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{if (not grid_types) or (grid_types[i]=='uniform')}}
         # dimension {{i}}: uniform grid
         u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-        i_{{i}} = int( floor( u_{{i}} ) )
+        i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}), -1.0 ) ) )
         i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
         λ_{{i}} = u_{{i}}-i_{{i}}
         {{elif grid_types[i]=='nonuniform'}}
-- 
2.43.0


From 24d8506d69b50b0acf0773ac46c994009a34c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 06/14] fix: cell of points too far away to be counted in
 int64, in mlinterp

Same defect as in the spline evaluation: points far above the grid were
extrapolated from the first cell.
---
 interpolation/multilinear/fungen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/multilinear/fungen.py b/interpolation/multilinear/fungen.py
index a7a9ec1..4ce913e 100644
--- a/interpolation/multilinear/fungen.py
+++ b/interpolation/multilinear/fungen.py
@@ -37,7 +37,7 @@ def ol_get_index(gc, x):
             δ = (gc[1] - gc[0]) / (gc[2] - 1)
             d = x - gc[0]
             ii = d // δ
-            i = int(ii)
+            i = int(clamp(ii, -1.0, 1.0 * gc[2]))
             i = clamp(i, 0, gc[2] - 2)
             r = d - i * δ
             λ = r / δ
-- 
2.43.0


From 0d121d52df892b069f8229c2c871fad592d92aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 07/14] fix: cell of points too far away to be counted in
 int64, in cubic kernels

Same defect as in the spline evaluation: points far above the grid were
extrapolated from the first cell.
---
 interpolation/splines/eval_cubic_numba.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index e6b201e..6c5f34b 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -7,10 +7,16 @@ from numba import jit, njit
 import numpy as np
 from numpy import zeros, array
 
-from math import floor
+import math
 from numpy import empty
 
 
+@njit(cache=True)
+def floor(u):
+    # keep the result within the range of int64
+    return math.floor(max(min(u, 2.0**62), -(2.0**62)))
+
+
 Ad = array(
     [
         #      t^3       t^2        t        1
-- 
2.43.0


From c5bc9b302455713a43f883a3e0a5ccd07ac91e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 08/14] fix: vec_multilinear_interpolation with an output array

It raised NameError.
---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From 73db324ed1d3400d6c62d601758bbcc2ad60b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 09/14] fix: grid property of one-dimensional LinearSpline and
 LinearSplines

It raised TypeError because the number of nodes was passed as an array.
---
 interpolation/splines/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..20fe49e 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -7,7 +7,7 @@ import numpy as np
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
+            np.linspace(smin[0], smax[0], orders[0])
         )
         return res.copy()  ## workaround for strange bug
     else:
-- 
2.43.0


From 44729bd754f4e6713700f165b9626a9c09e8dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 10/14] fix: out of bounds read in Hermite interpolation at nan

---
 interpolation/splines/hermite.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpolation/splines/hermite.py b/interpolation/splines/hermite.py
index aadfab5..7617370 100644
--- a/interpolation/splines/hermite.py
+++ b/interpolation/splines/hermite.py
@@ -60,6 +60,7 @@ def HermiteInterpolation(x0: float, x, y, yp):
 
     ###### Interpolation case ######
     indx = np.searchsorted(x, x0)
+    indx = max(1, min(indx, len(x) - 1))  # x0 may be nan
     xk, xkn = x[indx - 1], x[indx]
     pk, pkn = y[indx - 1], y[indx]
     mk, mkn = yp[indx - 1], yp[indx]
-- 
2.43.0


From 9129c800e790f20f218a1f8e321b07525ec3d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:38 +0000
Subject: [PATCH 11/14] fix: gradient of cubic splines outside of the grid

Values are extrapolated linearly but the derivative kept following the
polynomial of the last cell.
---
 interpolation/splines/eval_cubic_numba.py | 50 +++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index 6c5f34b..30e424d 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -5116,6 +5116,11 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp0_2
                 + Ad[3, 3] * tp0_3
             )
+        # outside of the grid, the spline is extended by its tangent
+        t0 = max(0.0, min(t0, 1.0))
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5282,6 +5287,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp1_2
                 + Ad[3, 3] * tp1_3
             )
+        # outside of the grid, the spline is extended by its tangent
+        t0 = max(0.0, min(t0, 1.0))
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5306,6 +5316,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # outside of the grid, the spline is extended by its tangent
+        t1 = max(0.0, min(t1, 1.0))
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5609,6 +5624,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp2_2
                 + Ad[3, 3] * tp2_3
             )
+        # outside of the grid, the spline is extended by its tangent
+        t0 = max(0.0, min(t0, 1.0))
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5633,6 +5653,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # outside of the grid, the spline is extended by its tangent
+        t1 = max(0.0, min(t1, 1.0))
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5657,6 +5682,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        # outside of the grid, the spline is extended by its tangent
+        t2 = max(0.0, min(t2, 1.0))
+        tp2_0 = t2 * t2 * t2
+        tp2_1 = t2 * t2
+        tp2_2 = t2
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6433,6 +6463,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp3_2
                 + Ad[3, 3] * tp3_3
             )
+        # outside of the grid, the spline is extended by its tangent
+        t0 = max(0.0, min(t0, 1.0))
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -6457,6 +6492,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # outside of the grid, the spline is extended by its tangent
+        t1 = max(0.0, min(t1, 1.0))
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -6481,6 +6521,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        # outside of the grid, the spline is extended by its tangent
+        t2 = max(0.0, min(t2, 1.0))
+        tp2_0 = t2 * t2 * t2
+        tp2_1 = t2 * t2
+        tp2_2 = t2
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6505,6 +6550,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp2_2
             + dAd[3, 3] * tp2_3
         ) * dinv2
+        # outside of the grid, the spline is extended by its tangent
+        t3 = max(0.0, min(t3, 1.0))
+        tp3_0 = t3 * t3 * t3
+        tp3_1 = t3 * t3
+        tp3_2 = t3
         dPhi3_0 = (
             dAd[0, 0] * tp3_0
             + dAd[0, 1] * tp3_1
-- 
2.43.0


From 5e4a910666a0ac88a51b417c4f799bb484f714b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:17 +0000
Subject: [PATCH 12/14] fix: using CubicSpline(s) replaced filter_cubic and
 eval_cubic by modules

---
 interpolation/splines/splines.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/splines.py b/interpolation/splines/splines.py
index 6fdc468..1f16423 100644
--- a/interpolation/splines/splines.py
+++ b/interpolation/splines/splines.py
@@ -5,6 +5,11 @@ import numpy as np
 
 from ..cartesian import mlinspace
 
+# these modules share their name with functions of the package: they must be
+# loaded before the functions are imported, so as not to replace them later
+from .filter_cubic import filter_coeffs, filter_mcoeffs
+from .eval_cubic import vec_eval_cubic_splines_G
+
 
 class CubicSpline:
 
@@ -52,8 +57,6 @@ class CubicSpline:
 
         values = np.array(values, dtype=float)
 
-        from .filter_cubic import filter_coeffs
-
         if not np.all(np.isfinite(values)):
             raise Exception("Trying to interpolate non-finite values")
 
@@ -152,8 +155,6 @@ class CubicSplines:
         if not np.all(np.isfinite(mvalues)):
             raise Exception("Trying to interpolate non-finite values")
 
-        from .filter_cubic import filter_mcoeffs
-
         # number of splines
         self.__mcoeffs__ = filter_mcoeffs(self.a, self.b, self.orders, mvalues)
         self.__mvalues__ = mvalues
@@ -191,8 +192,6 @@ class CubicSplines:
             eval_cubic(grid, self.__mcoeffs__, points, values)
             return values
         else:
-            from .eval_cubic import vec_eval_cubic_splines_G
-
             values = np.empty((N, n_sp), dtype=float)
             dvalues = np.empty((N, d, n_sp), dtype=float)
             vec_eval_cubic_splines_G(
-- 
2.43.0


From cf1884c67c338d6aa8c1947c9a2f22061130931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:23 +0000
Subject: [PATCH 13/14] fix: scale the Smolyak gradient per coordinate when
 there are several outputs

interpolate(deriv=True) multiplied the gradient, of shape (points, dimensions,
outputs) when the node values have several columns, by a row of scale factors
along its last axis: the call failed, or scaled by output rather than by
coordinate when there are as many outputs as dimensions.
---
 interpolation/smolyak/interp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interpolation/smolyak/interp.py b/interpolation/smolyak/interp.py
index 0cc1df1..76fb476 100644
--- a/interpolation/smolyak/interp.py
+++ b/interpolation/smolyak/interp.py
@@ -102,13 +102,13 @@ class SmolyakInterp(object):
         if deriv:
             new_B, der_B = build_B(d, sg.mu, trans_points, sg.pinds, True)
             vals = new_B.dot(theta)
-            d_vals = np.tensordot(theta, der_B, (0, 0)).T
+            radii = 2 / (sg.ub - sg.lb)
+            d_vals = np.tensordot(theta, der_B * radii[:, None], (0, 0)).T
 
             if interp:
                 rets.append(vals)
 
-            radii = 2 / (sg.ub - sg.lb)
-            rets.append(d_vals * radii[None, :])
+            rets.append(d_vals)
 
         elif not deriv and interp:  # No derivs in build_B. Just do vals
             new_B = build_B(d, sg.mu, trans_points, sg.pinds)
-- 
2.43.0


From 85e4cf6ad327d3fa284651432ee589147552f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 14/14] fix: integer data overflowed 64 bits in complete
 polynomial bases

---
 interpolation/complete_poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/complete_poly.py b/interpolation/complete_poly.py
index cab5ac3..ff2eed3 100644
--- a/interpolation/complete_poly.py
+++ b/interpolation/complete_poly.py
@@ -103,7 +103,7 @@ def complete_polynomial(z, d):
         raise ValueError("Complete polynomial only implemeted up to degree 5")
 
     # Assure z is array
-    z = np.asarray(z)
+    z = np.asarray(z, dtype=float)
 
     # compute inds allocate space for output
     if np.ndim(z) == 1:
@@ -322,7 +322,7 @@ def complete_polynomial_der(z, d, der):
         raise ValueError("Complete polynomial only implemeted up to degree 5")
 
     # Ensure z is a numpy array
-    z = np.asarray(z)
+    z = np.asarray(z, dtype=float)
 
     # compute inds allocate space for output
     if np.ndim(z) == 1:
-- 
2.43.0

