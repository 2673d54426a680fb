From 6ec9f5f93eb9eadc5d0c10906183a1a1dfa0d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 01/30] fix: Mu5Nmb scaled the shared class arrays E and Ep in
 place

---
 extensisq/murua.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..ade7e7b 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,9 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            # don't scale in place: E and Ep are shared by all instances
+            self.E = self.E * factor
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From d1c4bef7075175c88120cb21a7ec57a06b195fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 02/30] fix: CKdisc dense output of low order steps changed
 with later steps

---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..2a4a976 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -413,4 +413,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From e4f8b4f19a91243d0a916196e385f7df218ca2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 03/30] fix: SWAG overwrote y0 if fun returns its argument

---
 extensisq/shampine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..d3e3b3c 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -108,7 +108,8 @@ class SWAG(OdeSolver):
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
         # starting step size
-        self.yp = self.fun(self.t, self.y)                 # initial evaluation
+        # (copy: yp is updated in place and may not share memory with y)
+        self.yp = self.fun(self.t, self.y).copy()          # initial evaluation
         if first_step is None:
             b = self.t + copysign(min(abs(self.t_bound - self.t),
                                       self.max_step), self.direction)
-- 
2.43.0


From 0990a5d2c67c6fc02ef9f7d90bca02fc97ac18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 04/30] fix: ZeroDivisionError if nfev_stiff_detect is smaller
 than n_stages

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..7befd7d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -402,7 +402,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1356,7 +1356,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From e018eb03e51d01af49a383752d1a39f4cc0d77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 05/30] fix: Fi5N ignored sc_params

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..b4b8f9d 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(fun, t0, y0, t_bound, sc_params=sc_params,
+                         **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From 6c4917056fbf477e859b4711480326d99073c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 06/30] fix: Nystrom methods bypassed vectorized and nfev with
 the unwrapped fun

---
 extensisq/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 7befd7d..92e4f8e 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1254,7 +1254,7 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
+            if not np.all(self.fun(self.t, y_test)[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
@@ -1262,7 +1262,7 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
+            if not np.all(self.fun(self.t, y_test)[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
@@ -1271,7 +1271,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From aa2d12d6218ed2ef442153a210c581f5bb64cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 07/30] fix: final time missed t_bound by rounding (t + h can
 over- or undershoot)

---
 extensisq/bogacki.py   |  4 ++--
 extensisq/calvo.py     |  4 ++--
 extensisq/cash.py      |  4 ++--
 extensisq/common.py    | 11 +++++++++--
 extensisq/shampine.py  |  5 +++--
 extensisq/sommeijer.py |  4 ++--
 6 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..38a2800 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (norm, RungeKutta, HornerDenseOutput, NFS,
-                              calculate_scale, MAX_FACTOR)
+                              calculate_scale, MAX_FACTOR, end_of_step)
 
 
 class BS5(RungeKutta):
@@ -252,7 +252,7 @@ class BS5(RungeKutta):
                 return False, self.TOO_SMALL_STEP
 
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..edd93b0 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (
-    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale)
+    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale, end_of_step)
 
 
 class CFMR7osc(RungeKutta):
@@ -164,7 +164,7 @@ class CFMR7osc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index 2a4a976..2bd73c5 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (RungeKutta, HornerDenseOutput, CubicDenseOutput,
-                              NFS, calculate_scale, norm)
+                              NFS, calculate_scale, norm, end_of_step)
 
 
 SAFETY = 0.9
@@ -377,7 +377,7 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        t_new = end_of_step(t, h, self.t_bound)
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 92e4f8e..34dfec6 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -66,6 +66,13 @@ def norm(x):
     return (np.real(x @ x.conjugate()) / x.size) ** 0.5
 
 
+def end_of_step(t, h, t_bound):
+    """Time at the end of a step of size h. This is exactly t_bound for a step
+    over the full remaining interval: t + h can miss it due to rounding.
+    """
+    return t_bound if h == t_bound - t else t + h
+
+
 class RungeKutta(OdeSolver):
     """Base class for explicit runge kutta methods.
 
@@ -234,7 +241,7 @@ class RungeKutta(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2027,7 +2034,7 @@ class ESDIRK(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index d3e3b3c..2879ea4 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -2,7 +2,8 @@ import numpy as np
 from warnings import warn
 from math import copysign, sqrt
 from scipy.integrate._ivp.base import OdeSolver, DenseOutput
-from extensisq.common import h_start, validate_tol, NFS, calculate_scale, norm
+from extensisq.common import (h_start, validate_tol, NFS, calculate_scale,
+                              norm, end_of_step)
 from scipy.integrate._ivp.common import (
     validate_max_step, warn_extraneous, validate_first_step)
 
@@ -332,7 +333,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = end_of_step(x, h, self.t_bound)
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..9462f47 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -5,7 +5,7 @@ from scipy.integrate._ivp.common import (
     validate_max_step, validate_first_step, warn_extraneous)
 from scipy.integrate._ivp.base import OdeSolver
 from extensisq.common import (validate_tol, CubicDenseOutput, NFS, norm,
-                              calculate_scale)
+                              calculate_scale, end_of_step)
 
 
 # global counters, several were removed
@@ -235,7 +235,7 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        t = end_of_step(t, h, self.t_bound)
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From 09e6e52de82c6b28d4ff89f7036d96df131aef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 08/30] fix: ESDIRK methods and SSV2stab could exceed max_step

---
 extensisq/common.py    | 3 ++-
 extensisq/sommeijer.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 34dfec6..96e0f23 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2183,7 +2183,8 @@ class ESDIRK(OdeSolver):
         d = abs(self.t_bound - t)                          # remaining interval
         if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
-            h_abs = d
+            # (use two steps instead, if d slightly exceeds max_step)
+            h_abs = d if d <= self.max_step else 0.5 * d
 
         return h_abs, min_step
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 9462f47..27be561 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -187,8 +187,11 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+            absh = min(absh, self.max_step)
+            d = abs(self.t_bound - t)
+            if 1.1 * absh >= d:
+                # (use two steps instead, if d slightly exceeds max_step)
+                absh = d if d <= self.max_step else 0.5 * d
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 0e4e0da1f0a8e5dcf4fb6b36acc415f7799d99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 09/30] fix: steps with an overflowed (infinite) solution were
 accepted

---
 extensisq/common.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 96e0f23..55b83b2 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -57,8 +57,12 @@ def validate_tol(rtol, atol, y):
 def calculate_scale(atol, rtol, y, y_new, _mean=False):
     """calculate a scaling vector for the error estimate"""
     if _mean:
-        return atol + rtol * 0.5*(np.abs(y) + np.abs(y_new))
-    return atol + rtol * np.maximum(np.abs(y), np.abs(y_new))
+        y_scale = 0.5*(np.abs(y) + np.abs(y_new))
+    else:
+        y_scale = np.maximum(np.abs(y), np.abs(y_new))
+    # an overflowed y_new would hide any error: use nan to prevent acceptance
+    y_scale = np.where(np.isinf(y_scale), np.nan, y_scale)
+    return atol + rtol * y_scale
 
 
 def norm(x):
@@ -2160,8 +2164,9 @@ class ESDIRK(OdeSolver):
         else:
             step_accepted = False
             NFS[()] += 1
-            factor = max(self.safety * error_norm**self.error_exponent,
-                         self.min_factor)
+            # (max returns min_factor if error_norm is nan)
+            factor = max(self.min_factor,
+                         self.safety * error_norm**self.error_exponent)
             self.standard_sc = True
 
         # reduce max_factor when on scale
-- 
2.43.0


From 962fa42930f5fc5ae98727bbbf574680f87460a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 10/30] fix: SWAG step did not end for a non-finite derivative

---
 extensisq/shampine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 2879ea4..764085f 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -195,7 +195,9 @@ class SWAG(OdeSolver):
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        # (lower bound for x=0: don't halve h without end if steps fail)
+        min_step = max(self.fouru * abs(x),
+                       sqrt(np.finfo(self.y.dtype).tiny))               # added
 
         # stiffness detection
         if kold > 4:
@@ -228,7 +230,7 @@ class SWAG(OdeSolver):
             h = copysign(h, self.direction)
 
         # (***first executable statement dsteps)
-        if abs(h) < min_step:
+        if not abs(h) >= min_step:                       # too small or nan
             return False, self.TOO_SMALL_STEP
 
         # If error tolerance is too small, increase it to an acceptable value
-- 
2.43.0


From be0ab41e504201fe827f6d17f7974f530b547c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 11/30] fix: SSV2stab raised OverflowError for an infinite
 derivative

---
 extensisq/sommeijer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 27be561..5581d23 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -381,6 +381,9 @@ class SSV2stab(OdeSolver):
             # sprad is a little bigger than the estimate sigma of the
             # spectral radius, so is more likely to be an upper bound.
             sprad = 1.2 * sigma
+            if not np.isfinite(sigma):
+                # overflow, or the derivative is not finite
+                return None
             if iter and abs(sigma - sigmal) <= max(sigma, small) * 0.01:
                 # converged
                 self.V[:] = v - yn
-- 
2.43.0


From 31fa4ec8eac8c84d2a9e192f7af7035707c5fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 12/30] fix: dense output of BS5 (interpolant="best") had the
 interval of the next step

---
 extensisq/bogacki.py | 2 +-
 extensisq/common.py  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 38a2800..ab7347d 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -390,4 +390,4 @@ class BS5(RungeKutta):
         # RKSuite's, polynomial definition is different from scipy's: looking
         # back from the end of the step instead of forward from the start.
         # The call is modified to accomodate:
-        return HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        return HornerDenseOutput(self.t_old, self.t, self.y, Q, from_end=True)
diff --git a/extensisq/common.py b/extensisq/common.py
index 55b83b2..12276e4 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -776,17 +776,20 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
 
 class HornerDenseOutput(DenseOutput):
     """use Horner's rule for the evaluation of the dense output polynomials.
+    These are in powers of (t - t_old)/h, or of (t - t)/h if from_end is True.
+    In that case, y_old should be the solution at the end of the step.
     """
-    def __init__(self, t_old, t, y_old, Q):
+    def __init__(self, t_old, t, y_old, Q, from_end=False):
         super().__init__(t_old, t)
         self.h = t - t_old
         self.Q = Q * self.h
         self.y_old = y_old
+        self.t_ref = t if from_end else t_old
 
     def _call_impl(self, t):
 
         # scaled time
-        x = (t - self.t_old) / self.h
+        x = (t - self.t_ref) / self.h
 
         # Horner's rule:
         y = self.Q.T[-1, :, np.newaxis] * x
-- 
2.43.0


From 953939724808c570780d1c16db9aa7d8dffb6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 13/30] fix: sens_forward raised TypeError if atol is a list or
 tuple

---
 extensisq/sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..de38836 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -162,6 +162,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     assert isinstance(rtol, float), 'rtol should be a float'
     assert isinstance(atol, float) or len(atol) == Ny, \
         '`atol` should be a float or a sequence of floats of length Ny'
+    atol = np.asarray(atol)
     total_atol = np.empty((Np+1)*Ny)
     total_atol[:Ny] = atol
     for i, _p in enumerate(p, start=1):
-- 
2.43.0


From b4fdb8b09778c1b10d4ccd810ac88a78e81692f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 14/30] fix: t_old and t were swapped in backward dense output
 of HS2I and HS2Ia

---
 extensisq/common.py | 2 +-
 extensisq/hosea.py  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 12276e4..3041adf 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -776,7 +776,7 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
 
 class HornerDenseOutput(DenseOutput):
     """use Horner's rule for the evaluation of the dense output polynomials.
-    These are in powers of (t - t_old)/h, or of (t - t)/h if from_end is True.
+    These are in powers of (t - t_old)/h, or of (t - t_end)/h if from_end is True.
     In that case, y_old should be the solution at the end of the step.
     """
     def __init__(self, t_old, t, y_old, Q, from_end=False):
diff --git a/extensisq/hosea.py b/extensisq/hosea.py
index 8da8dfe..f5e1be3 100644
--- a/extensisq/hosea.py
+++ b/extensisq/hosea.py
@@ -20,10 +20,7 @@ class HS(ESDIRK):
         T = [self.t_old, t_mid, self.t]
         Y = np.array([self.y_old, y_mid, self.y])
         dY = self.K.copy()
-        if self.direction > 0:
-            return PiecewiseCubicDenseOutput(T, Y, dY)
-        else:
-            return PiecewiseCubicDenseOutput(T[::-1], Y[::-1], dY[::-1])
+        return PiecewiseCubicDenseOutput(T, Y, dY)
 
 
 class PiecewiseCubicDenseOutput(DenseOutput):
@@ -34,6 +31,9 @@ class PiecewiseCubicDenseOutput(DenseOutput):
         t_old = T[0]
         t = T[-1]
         super().__init__(t_old, t)
+        if t < t_old:
+            # the spline needs increasing T
+            T, Y, dY = T[::-1], Y[::-1], dY[::-1]
         self.interpolant = CubicHermiteSpline(T, Y, dY)
 
     def _call_impl(self, t):
-- 
2.43.0


From c41c7bb35e7f01f2ca35454976b026b43b149ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 15/30] fix: SSV2stab estimated the first step in the wrong
 direction if backward

---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 5581d23..b03cad8 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -149,8 +149,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From ea272c535792154387b64c79fa37c6a7028cfa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 16/30] fix: SWAG did not reset the counter of failed steps

---
 extensisq/shampine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 764085f..4a5a36f 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -178,6 +178,7 @@ class SWAG(OdeSolver):
 
         # from ddes.f, for stiffness detection
         self.kle4 = 0
+        NFS[()] = 0                                # global failed step counter
 
     def _step_impl(self):
 
-- 
2.43.0


From dc6c01cf3880451abfc0ae1aabdee4180171e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 17/30] fix: SSV2stab estimated the spectral radius from y=0 if
 the derivative is zero

---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index b03cad8..cf017db 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -358,7 +358,7 @@ class SSV2stab(OdeSolver):
             v[:] = yn + v * (dynrm/vnrm)
         elif ynrm != 0.0:
             dynrm = ynrm * self.sqrtu
-            v[:] *= 1.0 + self.sqrtu
+            v[:] = yn * (1.0 + self.sqrtu)
         elif vnrm != 0.0:
             dynrm = self.uround
             v[:] *= dynrm/vnrm
-- 
2.43.0


From 42b09bc120e3c5b54ce4c63604e75cdbd052c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 18/30] fix: SSV2stab failed to estimate the spectral radius if
 y is zero

---
 extensisq/sommeijer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index cf017db..2c2da15 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -359,12 +359,14 @@ class SSV2stab(OdeSolver):
         elif ynrm != 0.0:
             dynrm = ynrm * self.sqrtu
             v[:] = yn * (1.0 + self.sqrtu)
-        elif vnrm != 0.0:
-            dynrm = self.uround
-            v[:] *= dynrm/vnrm
         else:
-            dynrm = self.uround
-            v[:] = dynrm
+            # a perturbation of only uround drowns in the rounding of fn
+            dynrm = max(self.uround,
+                        self.sqrtu * np.linalg.norm(self.atol) / self.rtol)
+            if vnrm != 0.0:
+                v[:] *= dynrm/vnrm
+            else:
+                v[:] = dynrm
 
         # Now iterate with a nonlinear power method.
         sigma = 0.0
-- 
2.43.0


From 0cae84ec2cf08507e6d5dad05c5a983c1828fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 19/30] fix: consistent initial values of DAE were refused if
 root stalls at rounding level

---
 extensisq/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 3041adf..77ebbbb 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1890,7 +1890,8 @@ class ESDIRK(OdeSolver):
                 return Gvv
 
             solC = root(funC, v0, jac=jacC)
-            if not solC.success:
+            # (root may report no progress at the level of rounding errors)
+            if not (solC.success or np.allclose(solC.fun, 0.)):
                 raise ValueError(
                     "Cannot find consistent initial conditions."
                     " Try to give a better y0")
-- 
2.43.0


From 3176265d3ef5dec7deaf791e45a4d2aa72ec9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 20/30] fix: filtered error estimate of HS2I and HS2Ia was
 wrong with a mass matrix

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 77ebbbb..37601ac 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2098,7 +2098,7 @@ class ESDIRK(OdeSolver):
             scale = calculate_scale(self.atol, self.rtol, y, y_new)
             err = h * (K.T @ self.E)                                      # est
             if self.filter_error:
-                err = self.M_mat @ self.solve_lu(LU, Sc @ err)            # Est
+                err = self.solve_lu(LU, Sc @ (self.M_mat @ err))          # Est
             error_norm = norm(err/scale)
 
             # propose new stepsize
-- 
2.43.0


From 974b28bb342a7912c412a134b406b034e00abde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:48 +0000
Subject: [PATCH 21/30] fix: DAE with index larger than one were not refused
 due to rounding errors

---
 extensisq/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 37601ac..9d04f78 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1860,7 +1860,11 @@ class ESDIRK(OdeSolver):
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
         Gvv = (U.T @ J @ Vh.T)[s_v, s_v]
-        index1 = np.linalg.matrix_rank(Gvv) == Gvv.shape[1]
+        # singular values below the rounding errors of the product are zero
+        Gabs = (abs(U.T) @ np.abs(J) @ abs(Vh.T))[s_v, s_v]
+        rank = min(np.linalg.matrix_rank(Gvv), np.linalg.matrix_rank(
+            Gvv, tol=self.n * np.finfo(self.y.dtype).eps * np.max(Gabs)))
+        index1 = rank == Gvv.shape[1]
         if not index1:
             raise ValueError(
                 "The index of the DAE seems to be larger than 1."
-- 
2.43.0


From c57380913555195e0ca33e75070872442548f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 22/30] fix: Newton iteration failed if its updates were only
 rounding errors

---
 extensisq/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 9d04f78..4b94bb7 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1952,6 +1952,10 @@ class ESDIRK(OdeSolver):
             raise TypeError('dtypes of solution and derivative do not match')
         self.h_min_a, self.h_min_b = self._init_min_step_parameters()
         self.tiny_err = self.y.size**0.5 * np.finfo(self.y.dtype).eps**0.8
+        # updates of this size in the Newton iteration are rounding errors
+        noise = np.finfo(self.y.dtype).eps / self.rtol
+        self.tiny_update = max(self.tiny_err, 10 * noise,
+                               min(1000 * noise, 0.01 * self.kappa))
         order = min(self.order_secondary, self.order)
         self.error_exponent = -1 / (order + 1)
         self._init_sc_control(sc_params)
@@ -2226,7 +2230,7 @@ class ESDIRK(OdeSolver):
                 assert self.current_J and (h == self.h_LU), \
                     "J and LU must be current for direct linear system solve"
                 return True, z, rate, 1
-            if dz_norm <= self.tiny_err:
+            if dz_norm <= self.tiny_update:
                 # good prediction, loose tolerance, edge case
                 # rate accuracy limited by machine precision
                 converged = True
-- 
2.43.0


From ad9465e8e19ce2d3e9cc64134719590047794646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 23/30] fix: second order structure was not recognised for
 special initial velocities

---
 extensisq/common.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4b94bb7..6d42ebb 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1264,19 +1264,16 @@ class RungeKuttaNystrom(RungeKutta):
                ' and `fun` should have signature: [v, a] = fun(t, [x, v]).')
         if (self.y.size % 2) or not np.all(self.y[self.n:] == self.f[:self.n]):
             raise AssertionError(msg)
-        elif np.all(self.y[self.n:] == self.y[:self.n]):
-            y_test = self.y.copy()
-            y_test[self.n:] *= 1 + 1e-8
-            y_test[self.n:] += 1e-8
-            if not np.all(self.fun(self.t, y_test)[:self.n] == y_test[self.n:]):
-                raise AssertionError(msg)
+        # the initial velocity can match the derivative by coincidence
+        y_test = self.y.copy()
+        y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
+        f_test = self.fun(self.t, y_test)
+        if not np.all(f_test[:self.n] == y_test[self.n:]):
+            raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
                    "but `fun` seems velocity dependent.")
-            y_test = self.y.copy()
-            y_test[self.n:] *= 1 + 1e-8
-            y_test[self.n:] += 1e-8
-            if not np.all(self.fun(self.t, y_test)[self.n:] == self.f[self.n:]):
+            if not np.all(f_test[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
-- 
2.43.0


From 701d6dc12d6bf1e088117c23f7356136b7a04316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 24/30] fix: jac_sparsity of wrong shape was accepted

---
 extensisq/common.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index 6d42ebb..9827dc9 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1721,6 +1721,13 @@ class ESDIRK(OdeSolver):
             if sparsity is not None:
                 if issparse(sparsity):
                     sparsity = csc_array(sparsity)
+                else:
+                    sparsity = np.asarray(sparsity)
+                if sparsity.shape != (self.n, self.n):
+                    raise ValueError(
+                        "`jac_sparsity` is expected to have shape "
+                        f"{(self.n, self.n)}, but actually has "
+                        f"{sparsity.shape}.")
                 groups = group_columns(sparsity)
                 sparsity = (sparsity, groups)
 
-- 
2.43.0


From e998ec5283dcd28745db8b88999494cf1d05cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 25/30] fix: complex DAEs with inconsistent initial values or
 complex mass matrix failed

---
 extensisq/common.py | 46 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 9827dc9..4799625 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1863,9 +1863,10 @@ class ESDIRK(OdeSolver):
         s_v = self.M_details['s_AE']
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
-        Gvv = (U.T @ J @ Vh.T)[s_v, s_v]
+        Uh, V = U.conj().T, Vh.conj().T
+        Gvv = (Uh @ J @ V)[s_v, s_v]
         # singular values below the rounding errors of the product are zero
-        Gabs = (abs(U.T) @ np.abs(J) @ abs(Vh.T))[s_v, s_v]
+        Gabs = (abs(Uh) @ np.abs(J) @ abs(V))[s_v, s_v]
         rank = min(np.linalg.matrix_rank(Gvv), np.linalg.matrix_rank(
             Gvv, tol=self.n * np.finfo(self.y.dtype).eps * np.max(Gabs)))
         index1 = rank == Gvv.shape[1]
@@ -1875,7 +1876,7 @@ class ESDIRK(OdeSolver):
                 " This method is not suitable for solving it.")
 
         # find consistent y0 if needed
-        b = U.T @ f
+        b = Uh @ f
         consistent_y = np.allclose(b[s_v], 0.)
         if consistent_y:
             u = (Vh @ y)[s_u]
@@ -1885,26 +1886,39 @@ class ESDIRK(OdeSolver):
             v0 = z0[s_v]
             u = z0[s_u]     # fixed
 
-            def funC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
+            def funC(v, u=u, t=t, Uh=Uh, V=V):
+                y = V @ np.r_[u, v]
                 f = fun(t, y)
-                gv = (U.T @ f)[s_v]
+                gv = (Uh @ f)[s_v]
                 return gv
 
-            def jacC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
-                Gvv = (U.T @ jac(t, y) @ Vh.T)[s_v, s_v]
+            def jacC(v, u=u, t=t, Uh=Uh, V=V):
+                y = V @ np.r_[u, v]
+                Gvv = (Uh @ jac(t, y) @ V)[s_v, s_v]
                 self.njev -= 1                  # don't count these evaluations
                 return Gvv
 
-            solC = root(funC, v0, jac=jacC)
+            if np.iscomplexobj(v0):
+                # root needs real numbers: use real and imaginary parts
+                def expand(v): return np.concatenate((v.real, v.imag))
+                def contract(w): return w[:w.size//2] + w[w.size//2:]*1j
+                def funR(w): return expand(funC(contract(w)))
+
+                def jacR(w):
+                    G = np.asarray(jacC(contract(w)))
+                    return np.block([[G.real, -G.imag], [G.imag, G.real]])
+
+                solC = root(funR, expand(v0), jac=jacR)
+                solC.x = contract(solC.x)
+            else:
+                solC = root(funC, v0, jac=jacC)
             # (root may report no progress at the level of rounding errors)
             if not (solC.success or np.allclose(solC.fun, 0.)):
                 raise ValueError(
                     "Cannot find consistent initial conditions."
                     " Try to give a better y0")
             v = solC.x
-            y = Vh.T @ np.r_[u, v]
+            y = V @ np.r_[u, v]
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
             self.njev -= 1             # don't count this evaluation
@@ -1921,16 +1935,16 @@ class ESDIRK(OdeSolver):
         b = t + self.direction * min(abs(self.t_bound - t), self.max_step)
         fdot = h_start(fun, t, b, y, f, None,
                        self.rtol, self.atol, returnT=True)
-        gdot = U.T @ fdot
+        gdot = Uh @ fdot
         gudot, gvdot = gdot[s_u], gdot[s_v]
-        g = U.T @ f
+        g = Uh @ f
         gu = g[s_u]         # gv = g[s_v]
-        G = U.T @ J @ Vh.T
+        G = Uh @ J @ V
         Guu, Guv = G[s_u, s_u], G[s_u, s_v]
         Gvv, Gvu = G[s_v, s_v], G[s_v, s_u]
         udot = gu/s[s_u]    # fixed
         vdot = -np.linalg.solve(Gvv, gvdot + Gvu @ udot)
-        ydot = Vh.T @ np.r_[udot, vdot]
+        ydot = V @ np.r_[udot, vdot]
         # Effective Jac and T for problem when reduced to an ODE
         # h_start can use these.
         S = Guv @ np.linalg.solve(Gvv, Gvu)
@@ -2067,7 +2081,7 @@ class ESDIRK(OdeSolver):
                     sc = np.ones(self.n)
                     sc[s_AE] = 1/(h*self.d)
                     U = self.M_details['svd'][0]
-                    Sc = U @ diags_array(sc) @ U.T
+                    Sc = U @ diags_array(sc) @ U.conj().T
                     LU = self.lu(Sc @ (self.M_mat - h * self.d * self.J))
 
             self.Rate = -np.inf
-- 
2.43.0


From 7101f30dc79714b3dc147cdf92724d9d027a8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:10 +0000
Subject: [PATCH 26/30] fix: first step estimate evaluated the derivative at
 infinite time if t_bound is infinite

---
 extensisq/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4799625..a647826 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -617,6 +617,10 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
     big = sqrt(np.finfo(y.dtype).max)
     small = np.nextafter(np.finfo(y.dtype).epsneg, 1.0)
 
+    # the interval may be unbounded: use a part of it
+    if np.isinf(b):
+        b = a + copysign(max(1.0, abs(a)), b)
+
     # following dhstrt.f from here
     dx = b - a
     absdx = abs(dx)
-- 
2.43.0


From b56fc87c2932e555fdc4def31cd3ecc46f3b7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:10 +0000
Subject: [PATCH 27/30] fix: SSV2stab failed for t_bound = -inf

---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 2c2da15..d489bad 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -140,7 +140,7 @@ class SSV2stab(OdeSolver):
         max_step = min(self.max_step, abs(self.t_bound - self.t))
         self.max_step = min(max_step, sqrt(np.finfo(self.y.dtype).max))
         hmin = abs(self.t)
-        if self.t_bound != np.inf:
+        if np.isfinite(self.t_bound):
             hmin = max(hmin, abs(self.max_step))
         self.hmin = max(self.sqrtmin, 10.0 * self.uround * hmin)
 
-- 
2.43.0


From 118576c23a1cb4072eee2713b0cab6c14ae7781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 28/30] fix: growth of the step size was unlimited after steps
 without error

---
 extensisq/bogacki.py | 3 +++
 extensisq/calvo.py   | 3 +++
 extensisq/common.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index ab7347d..8ac4df3 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -290,6 +290,9 @@ class BS5(RungeKutta):
 
                 elif self.standard_sc:
                     factor = self.safety * error_norm ** self.error_exponent
+                    if self.h_previous is not None:
+                        # (only the first step can be far off scale)
+                        factor = min(self.max_factor, factor)
                     self.standard_sc = False
 
                 else:
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index edd93b0..57abf57 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -202,6 +202,9 @@ class CFMR7osc(RungeKutta):
 
                 elif self.standard_sc:
                     factor = self.safety * error_norm ** self.error_exponent
+                    if self.h_previous is not None:
+                        # (only the first step can be far off scale)
+                        factor = min(self.max_factor, factor)
                     self.standard_sc = False
 
                 else:
diff --git a/extensisq/common.py b/extensisq/common.py
index a647826..340c84d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -266,6 +266,9 @@ class RungeKutta(OdeSolver):
 
                 elif self.standard_sc:
                     factor = self.safety * error_norm ** self.error_exponent
+                    if self.h_previous is not None:
+                        # (only the first step can be far off scale)
+                        factor = min(self.max_factor, factor)
                     self.standard_sc = False
 
                 else:
-- 
2.43.0


From cf1a48dea393c452d32fcda6df3163d0b1b0fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:25 +0000
Subject: [PATCH 29/30] fix: documented step size controllers did not match the
 available ones

---
 extensisq/bogacki.py   |  2 +-
 extensisq/calvo.py     |  2 +-
 extensisq/cash.py      |  4 ++--
 extensisq/common.py    |  2 +-
 extensisq/fine.py      |  4 ++--
 extensisq/hosea.py     | 10 +++++-----
 extensisq/kennedy.py   | 18 +++++++++---------
 extensisq/kvaerno.py   |  6 +++---
 extensisq/merson.py    |  2 +-
 extensisq/mikkawy.py   |  2 +-
 extensisq/murua.py     |  2 +-
 extensisq/prince.py    |  6 +++---
 extensisq/tsitouras.py |  2 +-
 13 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 8ac4df3..0874a78 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -64,7 +64,7 @@ class BS5(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 57abf57..c58f4a7 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -63,7 +63,7 @@ class CFMR7osc(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/cash.py b/extensisq/cash.py
index 2bd73c5..e928f79 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -60,14 +60,14 @@ class CK5(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are:
-            Gustafsson "G" (0.7, -0.4, 0, 0.9),  Watts "W" (2, -1, -1, 0.8),
+            Gustafsson "G" (0.7, -0.4, 0, 0.9),
             Soederlind "S" (0.6, -0.2, 0, 0.9),  and "standard" (1, 0, 0, 0.9).
         The default for this method is "G".
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 340c84d..f1797c4 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -186,7 +186,7 @@ class RungeKutta(OdeSolver):
             kb1, kb2, a, g = sc_params
         else:
             raise ValueError('sc_params should be a tuple of length 4 or one '
-                             'of the strings "G", "S", "W" or "standard"')
+                             'of the strings "G", "S" or "standard"')
         # set all parameters
         self.minbeta1 = kb1 * self.error_exponent
         self.minbeta2 = kb2 * self.error_exponent
diff --git a/extensisq/fine.py b/extensisq/fine.py
index b4b8f9d..db52210 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -65,7 +65,7 @@ class Fi4N(RungeKuttaNystrom):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -176,7 +176,7 @@ class Fi5N(RungeKuttaNystrom):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/hosea.py b/extensisq/hosea.py
index f5e1be3..36900b0 100644
--- a/extensisq/hosea.py
+++ b/extensisq/hosea.py
@@ -144,13 +144,13 @@ class TRBDF2(HS):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "S", "S2" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -158,7 +158,7 @@ class TRBDF2(HS):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [4]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
@@ -300,7 +300,7 @@ class TRX2(HS):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -308,7 +308,7 @@ class TRX2(HS):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
diff --git a/extensisq/kennedy.py b/extensisq/kennedy.py
index 0487056..0137e66 100644
--- a/extensisq/kennedy.py
+++ b/extensisq/kennedy.py
@@ -128,13 +128,13 @@ class KC3I(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -142,7 +142,7 @@ class KC3I(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
@@ -334,13 +334,13 @@ class KC4I(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -348,7 +348,7 @@ class KC4I(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
@@ -538,13 +538,13 @@ class KC4Ia(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -552,7 +552,7 @@ class KC4Ia(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
diff --git a/extensisq/kvaerno.py b/extensisq/kvaerno.py
index 522d125..c4fc9d9 100644
--- a/extensisq/kvaerno.py
+++ b/extensisq/kvaerno.py
@@ -108,13 +108,13 @@ class Kv3I(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -122,7 +122,7 @@ class Kv3I(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
diff --git a/extensisq/merson.py b/extensisq/merson.py
index ade79b7..114283e 100644
--- a/extensisq/merson.py
+++ b/extensisq/merson.py
@@ -57,7 +57,7 @@ class Me4(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/mikkawy.py b/extensisq/mikkawy.py
index c289285..5d56c06 100644
--- a/extensisq/mikkawy.py
+++ b/extensisq/mikkawy.py
@@ -62,7 +62,7 @@ class MR6NN(RungeKuttaNystrom):
     vectorized : bool, optional
         Whether `fun` is implemented in a vectorized fashion. A vectorized
         implementation offers no advantages for this solver. Default is False.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/murua.py b/extensisq/murua.py
index ade7e7b..0d3ccb6 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -69,7 +69,7 @@ class Mu5Nmb(RungeKuttaNystrom):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/prince.py b/extensisq/prince.py
index 04c543e..08361bc 100644
--- a/extensisq/prince.py
+++ b/extensisq/prince.py
@@ -54,7 +54,7 @@ class Pr7(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -180,7 +180,7 @@ class Pr8(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -424,7 +424,7 @@ class Pr9(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/tsitouras.py b/extensisq/tsitouras.py
index 56cbb6b..747d2aa 100644
--- a/extensisq/tsitouras.py
+++ b/extensisq/tsitouras.py
@@ -57,7 +57,7 @@ class Ts5(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G" or "S", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
-- 
2.43.0


From 9ef661cc77d586a7c937aaf2670d1f45dfd45958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 30/30] fix: DAE with atol per component failed with a
 broadcasting error

---
 extensisq/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index f1797c4..6972f85 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1957,7 +1957,12 @@ class ESDIRK(OdeSolver):
         S = Guv @ np.linalg.solve(Gvv, Gvu)
         Tr = np.diag(1/s[s_u]) @ (gudot + Guv @ vdot)
         Jr = np.diag(1/s[s_u]) @ (Guu + S)
-        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr}
+        # tolerances of u
+        atol = self.atol
+        if np.ndim(atol):
+            atol = np.linalg.norm(Vh.toarray()[s_u] * atol, axis=1)
+        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr,
+                         'atol': atol}
 
         if self.sparse:
             J = csc_array(J)
@@ -2040,7 +2045,7 @@ class ESDIRK(OdeSolver):
                 # _consistent_ICs.
                 self.h_abs = abs(h_start(
                     fun, self.t, b, morder=order,
-                    rtol=self.rtol, atol=self.atol, **kwargs_hstart))
+                    rtol=self.rtol, **kwargs_hstart))
             else:
 
                 def fun_ext(t, y, LU_M=LU_M):
-- 
2.43.0

