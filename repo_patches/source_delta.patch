From 816f0a8f181b3b810ac3a6c54dd925ba07e8d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 01/23] fix: end the integration exactly at t_bound

In the last step t + h was used, with h = t_bound - t. This sum can miss
t_bound by rounding: the solution then ends past t_bound, or the solver stops
just below it and fails with 'Required step size is less than spacing'.
---
 extensisq/bogacki.py   | 4 ++--
 extensisq/calvo.py     | 4 ++--
 extensisq/cash.py      | 5 ++---
 extensisq/common.py    | 9 +++++++--
 extensisq/shampine.py  | 5 +++--
 extensisq/sommeijer.py | 4 ++--
 6 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..25ee0f2 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (norm, RungeKutta, HornerDenseOutput, NFS,
-                              calculate_scale, MAX_FACTOR)
+                              calculate_scale, MAX_FACTOR, add_step)
 
 
 class BS5(RungeKutta):
@@ -252,7 +252,7 @@ class BS5(RungeKutta):
                 return False, self.TOO_SMALL_STEP
 
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = add_step(t, h, self.t_bound)
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..cd911c1 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (
-    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale)
+    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale, add_step)
 
 
 class CFMR7osc(RungeKutta):
@@ -164,7 +164,7 @@ class CFMR7osc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = add_step(t, h, self.t_bound)
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..99fb9fa 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (RungeKutta, HornerDenseOutput, CubicDenseOutput,
-                              NFS, calculate_scale, norm)
+                              NFS, calculate_scale, norm, add_step)
 
 
 SAFETY = 0.9
@@ -265,7 +265,6 @@ class CKdisc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
 
             # start the integration, two stages at a time
             self.K[0] = self.f                                        # stage 0
@@ -377,7 +376,7 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        t_new = add_step(t, h, self.t_bound)
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..2c679a6 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -61,6 +61,11 @@ def calculate_scale(atol, rtol, y, y_new, _mean=False):
     return atol + rtol * np.maximum(np.abs(y), np.abs(y_new))
 
 
+def add_step(t, h, t_bound):
+    """t + h, without missing t_bound by rounding in the last step"""
+    return t_bound if h == t_bound - t else t + h
+
+
 def norm(x):
     """Compute RMS norm."""
     return (np.real(x @ x.conjugate()) / x.size) ** 0.5
@@ -234,7 +239,7 @@ class RungeKutta(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = add_step(t, h, self.t_bound)
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2027,7 +2032,7 @@ class ESDIRK(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = add_step(t, h, self.t_bound)
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..d8f8f11 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -2,7 +2,8 @@ import numpy as np
 from warnings import warn
 from math import copysign, sqrt
 from scipy.integrate._ivp.base import OdeSolver, DenseOutput
-from extensisq.common import h_start, validate_tol, NFS, calculate_scale, norm
+from extensisq.common import (
+    h_start, validate_tol, NFS, calculate_scale, norm, add_step)
 from scipy.integrate._ivp.common import (
     validate_max_step, warn_extraneous, validate_first_step)
 
@@ -331,7 +332,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = add_step(x, h, self.t_bound)
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..388e5b1 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -5,7 +5,7 @@ from scipy.integrate._ivp.common import (
     validate_max_step, validate_first_step, warn_extraneous)
 from scipy.integrate._ivp.base import OdeSolver
 from extensisq.common import (validate_tol, CubicDenseOutput, NFS, norm,
-                              calculate_scale)
+                              calculate_scale, add_step)
 
 
 # global counters, several were removed
@@ -235,7 +235,7 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        t = add_step(t, h, self.t_bound)
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From a8ae03e361651cf859739c47509fe0c48b46694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 02/23] fix: Mu5Nmb: don't modify the class' error coefficients

Each new instance with scale_embedded=True multiplied the coefficients of the
class by 0.75 in place. The error estimate got smaller with each solve.
---
 extensisq/murua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..7c45e8a 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,8 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            self.E = self.E * factor               # don't modify the class
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From 9d275fd49746e0630bef3abcf687c22f4d3e5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 03/23] fix: Fi5N: use the sc_params argument, it was ignored

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..b4b8f9d 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(fun, t0, y0, t_bound, sc_params=sc_params,
+                         **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From e26aa3844c72d36034f65b3e8c2c4437acb4ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 04/23] fix: accept nfev_stiff_detect values smaller than the
 number of stages

These passed validation, but caused a ZeroDivisionError in the first step.
---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 2c679a6..85d5931 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -407,7 +407,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1361,7 +1361,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From 1f8bd2e356dac231b93f416cd0eadc74ca428dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 05/23] fix: SWAG: don't overwrite the array returned by fun

The array returned by the first evaluation of fun was kept and modified in
place by all next steps. This corrupts data of the user if fun returns an
array it holds on to, and fails if that array is read-only.
---
 extensisq/shampine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index d8f8f11..0c845ae 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -109,7 +109,8 @@ class SWAG(OdeSolver):
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
         # starting step size
-        self.yp = self.fun(self.t, self.y)                 # initial evaluation
+        # initial evaluation (copied, because yp is modified in place later)
+        self.yp = self.fun(self.t, self.y).copy()
         if first_step is None:
             b = self.t + copysign(min(abs(self.t_bound - self.t),
                                       self.max_step), self.direction)
-- 
2.43.0


From cb0a33e75a61204a2e1ad0f4b040d3d6c430fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 06/23] fix: SWAG: don't loop forever if no step can be taken
 from t=0

The minimum step was 0 at t=0. If the error test fails for every step size, for
example because fun returns nan, the step size was halved indefinitely.
---
 extensisq/shampine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 0c845ae..f6a33cc 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -195,7 +195,8 @@ class SWAG(OdeSolver):
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        tiny = np.finfo(self.y.dtype).tiny
+        min_step = max(self.fouru * abs(x), sqrt(tiny))                 # added
 
         # stiffness detection
         if kold > 4:
-- 
2.43.0


From 61871c833ca89ad15d5067b8e27685e5e0086906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 07/23] fix: SWAG: reset the failed step counter for each new
 integration

The other methods reset NFS at the start of an integration. SWAG didn't, such
that the failed steps of earlier integrations were included.
---
 extensisq/shampine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index f6a33cc..0c4cafc 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -178,6 +178,7 @@ class SWAG(OdeSolver):
 
         # from ddes.f, for stiffness detection
         self.kle4 = 0
+        NFS[()] = 0                                # global failed step counter
 
     def _step_impl(self):
 
-- 
2.43.0


From 60d11f49ac26fc23686b1e99921369140e4774d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 08/23] fix: sens_forward: accept a list or tuple as atol

The documentation allows a sequence, but only an array worked.
---
 extensisq/sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..f9745bb 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -167,7 +167,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     for i, _p in enumerate(p, start=1):
         factor = abs(_p)
         factor = factor or 1.
-        total_atol[i*Ny:(i+1)*Ny] = atol/factor
+        total_atol[i*Ny:(i+1)*Ny] = total_atol[:Ny]/factor
 
     # function to integrate
     def total_fun(t, total_y, fun=fun, dfdy=jac, dfdp=dfdp, Ny=Ny, Np=Np):
-- 
2.43.0


From df1daa42f17e76033172f625c0b946c171e8224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 09/23] fix: h_start: don't evaluate fun at t=inf

If the integration starts at t=0 and t_bound is infinite, the derivative to t
was approximated with an evaluation at infinite t. The implicit methods fail if
fun isn't finite there.
---
 extensisq/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 85d5931..ba7ba08 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -620,7 +620,8 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
     # equation with respect to the independent variable.  protect against an
     # overflow.  also compute a bound (fbnd) on the first derivative locally.
     da = copysign(max(min(relper * abs(a), absdx), 100. * small * abs(a)), dx)
-    da = da or relper * dx
+    # the interval may be infinite (if terminated by an event)
+    da = da or relper * (dx if np.isfinite(dx) else copysign(1., dx))
     if T is None:
         sf = df(a + da, y)                                           # evaluate
     else:
-- 
2.43.0


From 4c86f762fe0222add6609a538e6f35ef711d70df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 10/23] fix: Nystrom methods: stiffness detection with list
 output and complex y

The stiffness detection used fun as supplied by the user, instead of the one
wrapped by scipy that returns an array with the correct dtype. It failed if a
list was returned for a complex problem.
---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index ba7ba08..bb11b89 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1277,7 +1277,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From ddd5b144b7d56be77b2ae193c3ef3599719ac022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 11/23] fix: CKdisc: keep dense output of reduced order steps
 valid

The interpolant of these steps held views of the stage derivatives of the
solver, which are overwritten in the next step.
---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index 99fb9fa..6454d28 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -412,4 +412,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From dee2a41af0f23a2333bac07c7b9a09bed82af94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 12/23] fix: don't exceed max_step

The last step of the implicit methods and SSV2stab could be stretched to
respectively 1% and 10% over max_step. SSV2stab also didn't apply max_step to
first_step.
---
 extensisq/common.py    | 3 ++-
 extensisq/sommeijer.py | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index bb11b89..e1be3cc 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2182,7 +2182,8 @@ class ESDIRK(OdeSolver):
         d = abs(self.t_bound - t)                          # remaining interval
         if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
-            h_abs = d
+            # Split d in two if max_step prohibits the slight stretch.
+            h_abs = d if d <= self.max_step else 0.5*d
 
         return h_abs, min_step
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 388e5b1..69f9ddc 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -143,6 +143,8 @@ class SSV2stab(OdeSolver):
         if self.t_bound != np.inf:
             hmin = max(hmin, abs(self.max_step))
         self.hmin = max(self.sqrtmin, 10.0 * self.uround * hmin)
+        if self.absh is not None:
+            self.absh = min(self.absh, self.max_step)
 
     def _init_step_size(self, t, yn, fn, vtemp1, vtemp2):
         absh = self.max_step
@@ -187,8 +189,10 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+            # (split the remainder in two if it exceeds max_step)
+            d = abs(self.t_bound - t)
+            if 1.1 * absh >= d:
+                absh = d if d <= self.max_step else 0.5 * d
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 31c0e9f22b14e4f4f250cd0e00bf608cd855ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 13/23] fix: SSV2stab: estimate the first step in the direction
 of integration

For backward integration, the right hand side was evaluated at a time before
the start of the interval (t0 + h instead of t0 - h).
---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 69f9ddc..8911699 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -151,8 +151,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From 647fdf8a506f61cbd38eeee68e1b61df044aead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 14/23] fix: SSV2stab: integrate to t_bound=-inf

The minimum step was only determined correctly for an infinite interval in
forward direction. Backward, the first step was huge.
---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 8911699..8c91a8d 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -140,7 +140,7 @@ class SSV2stab(OdeSolver):
         max_step = min(self.max_step, abs(self.t_bound - self.t))
         self.max_step = min(max_step, sqrt(np.finfo(self.y.dtype).max))
         hmin = abs(self.t)
-        if self.t_bound != np.inf:
+        if np.isfinite(self.t_bound):
             hmin = max(hmin, abs(self.max_step))
         self.hmin = max(self.sqrtmin, 10.0 * self.uround * hmin)
         if self.absh is not None:
-- 
2.43.0


From 76cb6b293762f2d77272994f91e75c5ae2b3daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 15/23] fix: ESDIRK: accept array atol for DAEs without
 first_step

_consistent_ICs estimates the first step in the differential variables
only, but passed the tolerances of all components.
---
 extensisq/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index e1be3cc..ac4cfeb 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1919,7 +1919,12 @@ class ESDIRK(OdeSolver):
         S = Guv @ np.linalg.solve(Gvv, Gvu)
         Tr = np.diag(1/s[s_u]) @ (gudot + Guv @ vdot)
         Jr = np.diag(1/s[s_u]) @ (Guu + S)
-        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr}
+        atol = self.atol
+        if atol.ndim:
+            # tolerances for u
+            atol = np.sqrt((Vh * Vh) @ atol**2)[s_u]
+        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr,
+                         'atol': atol}
 
         if self.sparse:
             J = csc_array(J)
@@ -1998,7 +2003,7 @@ class ESDIRK(OdeSolver):
                 # _consistent_ICs.
                 self.h_abs = abs(h_start(
                     fun, self.t, b, morder=order,
-                    rtol=self.rtol, atol=self.atol, **kwargs_hstart))
+                    rtol=self.rtol, **kwargs_hstart))
             else:
 
                 def fun_ext(t, y, LU_M=LU_M):
-- 
2.43.0


From 43c3643f7d6f0fe5033999880be76ed58a4b783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 16/23] fix: ESDIRK: default cubic interpolant used the
 derivative at t0 in every step

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index ac4cfeb..2b37816 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2104,7 +2104,7 @@ class ESDIRK(OdeSolver):
 
         # step accepted, set or store for next step
         self.y_old = y.copy()
-        self.yp_old = self.f.copy()
+        self.yp_old = K[0, :].copy()
         self.yp = K[-1, :].copy()
         self.error_norm_old = error_norm
         self.h_previous = h
-- 
2.43.0


From b104781599f875494c0e0b08218f335a66c07aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 17/23] fix: ESDIRK: filter the error estimate in the space of
 y if there is a mass matrix

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 2b37816..18ce310 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2094,7 +2094,7 @@ class ESDIRK(OdeSolver):
             scale = calculate_scale(self.atol, self.rtol, y, y_new)
             err = h * (K.T @ self.E)                                      # est
             if self.filter_error:
-                err = self.M_mat @ self.solve_lu(LU, Sc @ err)            # Est
+                err = self.solve_lu(LU, Sc @ (self.M_mat @ err))          # Est
             error_norm = norm(err/scale)
 
             # propose new stepsize
-- 
2.43.0


From 21a8eb26f2b078a637b074cb05e10948329963d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 18/23] fix: ESDIRK: accept consistent initial conditions that
 are limited by rounding

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 18ce310..69dc707 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1882,7 +1882,7 @@ class ESDIRK(OdeSolver):
                 return Gvv
 
             solC = root(funC, v0, jac=jacC)
-            if not solC.success:
+            if not (solC.success or np.allclose(solC.fun, 0.)):
                 raise ValueError(
                     "Cannot find consistent initial conditions."
                     " Try to give a better y0")
-- 
2.43.0


From 4534c376fe10f43de53c2370d11333626f53bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 19/23] fix: SSV2stab: estimate the spectral radius close to y
 if the derivative is zero

---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 8c91a8d..b02488c 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -359,7 +359,7 @@ class SSV2stab(OdeSolver):
             v[:] = yn + v * (dynrm/vnrm)
         elif ynrm != 0.0:
             dynrm = ynrm * self.sqrtu
-            v[:] *= 1.0 + self.sqrtu
+            v[:] = yn * (1.0 + self.sqrtu)
         elif vnrm != 0.0:
             dynrm = self.uround
             v[:] *= dynrm/vnrm
-- 
2.43.0


From e968b2b8c935d4e9e1fb840598958dfa0be3464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 20/23] fix: SSV2stab: change the sign in the eigenvector, not
 in the state, if the power iteration degenerates

---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index b02488c..5a5b4e3 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -397,7 +397,7 @@ class SSV2stab(OdeSolver):
                 # current approximation to the eigenvector by changing
                 # the sign of one component.
                 index = iter % self.n
-                v[index] = -v[index]
+                v[index] = yn[index] - (v[index] - yn[index])
 
         # return None to report a convergence failure.
         return None
-- 
2.43.0


From 417e4ad2ad312f583d4bc0604c9f9a34d9b06fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 21/23] fix: RungeKuttaNystrom: perturb velocities of -1 too in
 the tests of the problem structure

---
 extensisq/common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 69dc707..58c23a0 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1258,16 +1258,14 @@ class RungeKuttaNystrom(RungeKutta):
             raise AssertionError(msg)
         elif np.all(self.y[self.n:] == self.y[:self.n]):
             y_test = self.y.copy()
-            y_test[self.n:] *= 1 + 1e-8
-            y_test[self.n:] += 1e-8
+            y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
             if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
                    "but `fun` seems velocity dependent.")
             y_test = self.y.copy()
-            y_test[self.n:] *= 1 + 1e-8
-            y_test[self.n:] += 1e-8
+            y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
             if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
-- 
2.43.0


From b32c24026acc23ccb0848a86d5e86a1bebbfc957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 22/23] fix: SSV2stab: an infinite estimate of the spectral
 radius is not converged

If fun returned inf during the power iteration, the estimate was infinite and
considered converged; the next step raised OverflowError.
---
 extensisq/sommeijer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 5a5b4e3..db5d5a4 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -383,7 +383,8 @@ class SSV2stab(OdeSolver):
             # sprad is a little bigger than the estimate sigma of the
             # spectral radius, so is more likely to be an upper bound.
             sprad = 1.2 * sigma
-            if iter and abs(sigma - sigmal) <= max(sigma, small) * 0.01:
+            if (iter and np.isfinite(sigma) and
+                    abs(sigma - sigmal) <= max(sigma, small) * 0.01):
                 # converged
                 self.V[:] = v - yn
                 return sprad
-- 
2.43.0


From 9908414600f1b14f2adc8ee04e1f05aef929e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:36 +0000
Subject: [PATCH 23/23] fix: SSV2stab spectral radius estimate at a state
 (close to) zero

The perturbation was of the size of rounding errors, or below, and the
estimation did not converge.
---
 extensisq/sommeijer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index db5d5a4..72613aa 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -354,18 +354,16 @@ class SSV2stab(OdeSolver):
         v[:] = self.V
         ynrm = np.linalg.norm(yn)
         vnrm = np.linalg.norm(v)
-        if ynrm != 0.0 and vnrm != 0.0:
-            dynrm = ynrm * self.sqrtu
+        # the size should not be that of rounding errors if y is close to zero
+        dynrm = max(ynrm * self.sqrtu, 1e-3 * np.min(self.atol))
+        if dynrm < self.sqrtmin:
+            dynrm = self.uround
+        if vnrm != 0.0:
             v[:] = yn + v * (dynrm/vnrm)
         elif ynrm != 0.0:
-            dynrm = ynrm * self.sqrtu
-            v[:] = yn * (1.0 + self.sqrtu)
-        elif vnrm != 0.0:
-            dynrm = self.uround
-            v[:] *= dynrm/vnrm
+            v[:] = yn + yn * (dynrm/ynrm)
         else:
-            dynrm = self.uround
-            v[:] = dynrm
+            v[:] = dynrm / sqrt(self.n)
 
         # Now iterate with a nonlinear power method.
         sigma = 0.0
-- 
2.43.0

