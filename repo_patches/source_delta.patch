From ac69fbac1964fc1ce72f2b43d0d373f08984d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:37 +0000
Subject: [PATCH 01/52] fix: remove_observer called a method that does not
 exist

Observable.remove_observer called _is_allowed_event, so no observer could
ever be removed; use _is_allowed_signal as add_observer does.
---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index bf8371c..5d76f7b 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -72,7 +72,7 @@ class Observable:
             An obervation function to be removed
 
         """
-        self._is_allowed_event(signal)
+        self._is_allowed_signal(signal)
         self._remove_observer(signal, observer)
 
     def notify_observers(self, signal, **kwargs):
-- 
2.43.0


From 17e95d8146ee023f0710b350d02620bc73f757db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:37 +0000
Subject: [PATCH 02/52] fix: release the notification lock when an observer
 raises

An exception in an observer left the lock set, so every later notification
was dropped silently.  Also return True as documented.
---
 src/modopt/base/observable.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5d76f7b..5542dbf 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -104,11 +104,15 @@ class Observable:
 
         for name, key_value in kwargs.items():
             setattr(signal_to_be_notified, name, key_value)
-        # Notify all the observers
-        for observer in self._observers[signal]:
-            observer(signal_to_be_notified)
-        # Unlock the notification process
-        self._locked = False
+        try:
+            # Notify all the observers
+            for observer in self._observers[signal]:
+                observer(signal_to_be_notified)
+        finally:
+            # Unlock the notification process
+            self._locked = False
+
+        return True
 
     def _get_allowed_signals(self):
         """Get allowed signals.
-- 
2.43.0


From c75f062b8ef06da5e26c7d233f417ff465bbeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:37 +0000
Subject: [PATCH 03/52] fix: honour metric_call_period

A trailing comma made the condition a non-empty tuple, hence always true:
metrics were computed at every iteration whatever the requested period.
---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index f739106..4a49fc6 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -273,7 +273,7 @@ class SetUp(Observable):
                 metric_conditions = (
                     self.idx % self.metric_call_period == 0
                     or self.idx == (max_iter - 1)
-                    or self.converge,
+                    or self.converge
                 )
 
                 if metric_conditions:
-- 
2.43.0


From 3728670781e1fdc2e3fca9ec62a0c49b0996cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 04/52] fix: early-stopping metrics were ignored without a cost
 function

The convergence flag of early-stopping metrics was only read when a cost
function was set, and never in GenForwardBackward.
---
 src/modopt/opt/algorithms/admm.py             |  4 ++++
 src/modopt/opt/algorithms/forward_backward.py | 10 +++++++++-
 src/modopt/opt/algorithms/gradient_descent.py |  2 ++
 src/modopt/opt/algorithms/primal_dual.py      |  2 ++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b2f4517..08df68e 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -172,6 +172,8 @@ class ADMM(SetUp):
         if self._cost_func:
             self.converge = self.any_convergence_flag()
             self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150):
         """Iterate.
@@ -338,3 +340,5 @@ class FastADMM(ADMM):
         if self._cost_func:
             self.converge = self.any_convergence_flag()
             self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+        else:
+            self.converge = self.any_convergence_flag()
diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 31927eb..0498197 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -463,6 +463,8 @@ class ForwardBackward(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
@@ -741,7 +743,11 @@ class GenForwardBackward(SetUp):
 
         # Test cost function for convergence.
         if self._cost_func:
-            self.converge = self._cost_func.get_cost(self._x_new)
+            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
+                self._x_new
+            )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
@@ -991,6 +997,8 @@ class POGM(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 0960be5..a35dfa4 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -159,6 +159,8 @@ class GenericGradOpt(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def _update_grad_dir(self, grad):
         """Update the gradient descent direction.
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index fee49a2..ff7a9a1 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -218,6 +218,8 @@ class Condat(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new, self._y_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, n_rewightings=1, progbar=None):
         """Iterate.
-- 
2.43.0


From 50e5cd63a19fb8e6bd18343344cb0f7d36b7572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 05/52] fix: FastADMM ignored its initial v and its tau, and
 failed with a cost

v=b was passed instead of v, tau was not passed on to the parent class, and
a misspelt attribute raised AttributeError as soon as cost_funcs was given.
---
 src/modopt/opt/algorithms/admm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 08df68e..3055cf3 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -285,12 +285,13 @@ class FastADMM(ADMM):
     ):
         super().__init__(
             u=u,
-            v=b,
+            v=v,
             mu=mu,
             A=A,
             B=B,
             b=b,
             optimizers=optimizers,
+            tau=tau,
             cost_funcs=cost_funcs,
             **kwargs,
         )
@@ -339,6 +340,6 @@ class FastADMM(ADMM):
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-            self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
         else:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From de613a7403a79a7ecf5445f3db61203aa3381ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 06/52] fix: ADMM cost options were misread and its coupling
 term not squared

ADMMcostObj passed the keyword names as positional values, and computed
tau*||Au+Bv-b|| instead of the documented tau*||Au+Bv-b||^2.
---
 src/modopt/opt/algorithms/admm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 3055cf3..c6dd0b1 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -33,7 +33,7 @@ class ADMMcostObj(CostParent):
     """
 
     def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
-        super().__init__(*kwargs)
+        super().__init__(**kwargs)
         self.cost_funcs = cost_funcs
         self.A = A
         self.B = B
@@ -61,7 +61,8 @@ class ADMMcostObj(CostParent):
         xp = get_array_module(u)
         cost = self.cost_funcs[0](u)
         cost += self.cost_funcs[1](v)
-        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b)
+        residual = self.A.op(u) + self.B.op(v) - self.b
+        cost += self.tau * xp.linalg.norm(residual) ** 2
         return cost
 
 
-- 
2.43.0


From ada564bb5c212449cef766694df99d57a10bd40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 07/52] fix: KSupportNorm ignored extra_factor when computing
 theta

alpha was found for beta * extra_factor but theta was evaluated with beta
alone, so the result was not the proximal map unless extra_factor was 1.
---
 src/modopt/opt/proximity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index dea862c..79bde25 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1237,7 +1237,11 @@ class KSupportNorm(ProximityParent):
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(np.abs(input_data.flatten()), alpha)
+        theta = self._compute_theta(
+            np.abs(input_data.flatten()),
+            alpha,
+            extra_factor,
+        )
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From a5ed83a9d532b2373c6d0b89c23f3182192fc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 08/52] fix: KSupportNorm theta fell to zero at its breakpoint

With rounding, alpha*|w| - beta > 1 and alpha*|w| > beta + 1 can disagree,
and theta was then 0 instead of 1, which zeroed the entry.
---
 src/modopt/opt/proximity.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 79bde25..61fae22 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -991,12 +991,8 @@ class KSupportNorm(ProximityParent):
             np.expand_dims(alpha, -1),
             np.expand_dims(np.abs(input_data), -1).T,
         )
-        theta = np.zeros(alpha_input.shape)
         alpha_beta = alpha_input - self.beta * extra_factor
-        theta = alpha_beta * ((alpha_beta <= 1) & (alpha_beta >= 0))
-        theta = np.nan_to_num(theta)
-        theta += alpha_input > (self.beta * extra_factor + 1)
-        return theta
+        return np.nan_to_num(np.clip(alpha_beta, 0, 1))
 
     def _interpolate(self, alpha0, alpha1, sum0, sum1):
         r"""Linear interpolation of alpha (:math:`\alpha`).
-- 
2.43.0


From e83c2fe8bf80babe791a9ff7574484319eaba140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 09/52] fix: svd_thresh_coef_fast could not compute all the
 singular values

The search stopped at, or raised ValueError past, min(shape) - 1 values, so
singular values above the threshold could be lost; n_vals=None and the rank
0 that LowRankMatrix saves after a full thresholding were not accepted.
---
 src/modopt/signal/svd.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index cf14750..c8819ae 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -227,13 +227,21 @@ def svd_thresh_coef_fast(
         The thresholded data (numpy.ndarray) and the estimated rank after
         thresholding (int)
     """
-    if n_vals == -1:
-        n_vals = min(input_data.shape) - 1
+    max_vals = min(input_data.shape)
+    if n_vals is None or n_vals == -1:
+        n_vals = max_vals
+    n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
-        ok = s_values[0] <= threshold or n_vals == min(input_data.shape) - 1
-        n_vals = min(n_vals + extra_vals, *input_data.shape)
+        if n_vals < max_vals - 1:
+            (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
+            ok = s_values[0] <= threshold
+        else:
+            # svds cannot compute (nearly) all of the singular values
+            (u_vec, s_values, v_vec) = calculate_svd(input_data)
+            u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
+            ok = True
+        n_vals += extra_vals
 
     s_values = thresh(
         s_values,
-- 
2.43.0


From 11e09128796e86bc32c3a3c77a02ced9b387daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 10/52] fix: svd_thresh_coef overwrote the caller's threshold
 array

---
 src/modopt/signal/svd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index c8819ae..b81fd2f 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -304,7 +304,9 @@ def svd_thresh_coef(input_data, operator, threshold, thresh_type="hard"):
     ti = np.array(
         [np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))]
     )
-    threshold *= np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
+    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(
+        a_matrix.shape,
+    )
 
     # Threshold coefficients.
     a_new = thresh(a_matrix, threshold, thresh_type)
-- 
2.43.0


From f029016d1f5b8da09050b8bbf52e56b4d163142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:24 +0000
Subject: [PATCH 11/52] fix: CPUWaveletTransform failed for any batch

With n_batch > 1, op read an attribute that is never set and adj_op called
its worker with a wrong argument and per-element layouts.
---
 src/modopt/opt/linear/wavelet.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8012a07..44c62eb 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -224,12 +224,15 @@ class CPUWaveletTransform(LinearParent):
             the wavelet coefficients.
         """
         if self.n_batch > 1:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = zip(
-                *Parallel(
-                    n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
-                )(delayed(self._op)(data[i]) for i in np.arange(self.n_batch))
+            coeffs, coeffs_slices, raw_coeffs_shape = zip(
+                *Parallel(n_jobs=self.n_jobs, backend=self.backend)(
+                    delayed(self._op)(data[i]) for i in np.arange(self.n_batch)
+                )
             )
             coeffs = np.asarray(coeffs)
+            # All the elements of the batch have the same layout.
+            self.coeffs_slices = coeffs_slices[0]
+            self.raw_coeffs_shape = raw_coeffs_shape[0]
         else:
             coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
         return coeffs
@@ -256,11 +259,8 @@ class CPUWaveletTransform(LinearParent):
             the reconstructed data.
         """
         if self.n_batch > 1:
-            images = Parallel(
-                n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
-            )(
-                delayed(self._adj_op)(coeffs[i], self.coeffs_shape[i])
-                for i in np.arange(self.n_batch)
+            images = Parallel(n_jobs=self.n_jobs, backend=self.backend)(
+                delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch)
             )
             images = np.asarray(images)
         else:
-- 
2.43.0


From a9cd871dd340a2b234961d416e9990f6183b11ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:24 +0000
Subject: [PATCH 12/52] fix: CPUWaveletTransform.adj_op did not return data of
 the given shape

The reconstruction has one extra sample along every odd dimension, so
adj_op(op(x)) and x had different shapes.
---
 src/modopt/opt/linear/wavelet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 44c62eb..0a06b73 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -269,13 +269,15 @@ class CPUWaveletTransform(LinearParent):
 
     def _adj_op(self, coeffs):
         """Single coil inverse wavelet transform."""
-        return self.idwt(
+        data = self.idwt(
             pywt.unravel_coeffs(
                 coeffs, self.coeffs_slices, self.raw_coeffs_shape, self._pywt_fun
             ),
             wavelet=self.wavelet,
             mode=self.mode,
         )
+        # The inverse transform has one extra sample along odd dimensions.
+        return data[tuple(slice(size) for size in self.shape)]
 
 
 class TorchWaveletTransform:
-- 
2.43.0


From 3d4e289c01af107c6f32597a2d6a9e42c110b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 13/52] fix: WaveletTransform ignored its mode on the CPU

---
 src/modopt/opt/linear/wavelet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 0a06b73..6f9bc64 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -99,7 +99,11 @@ class WaveletTransform(LinearParent):
             )
         elif compute_backend == "numpy" and pywt_available:
             self.operator = CPUWaveletTransform(
-                wavelet_name=wavelet_name, shape=shape, level=level, **kwargs
+                wavelet_name=wavelet_name,
+                shape=shape,
+                level=level,
+                mode=mode,
+                **kwargs,
             )
         else:
             raise ValueError(f"Compute Backend {compute_backend} not available")
-- 
2.43.0


From dc5336128ffee44a5be12b3017db19c6aa82cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 14/52] fix: matrix2map truncated its data to integers

---
 src/modopt/base/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 25ed102..6dca497 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -236,7 +236,7 @@ def matrix2map(data_matrix, map_shape):
     layout = np.array(map_shape // np.repeat(image_shape, 2), dtype="int")
 
     # Map objects from matrix
-    data_map = np.zeros(map_shape)
+    data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
 
     temp = data_matrix.reshape(image_shape, image_shape, data_matrix.shape[1])
 
@@ -251,7 +251,7 @@ def matrix2map(data_matrix, map_shape):
         )
         data_map[lower[0] : upper[0], lower[1] : upper[1]] = temp[:, :, i_elem]
 
-    return data_map.astype(int)
+    return data_map
 
 
 def cube2matrix(data_cube):
-- 
2.43.0


From a303d0e33db77b7540c8a7b61c316937a0f85b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 15/52] fix: map2cube dropped pixels when one dimension did not
 fit the layout

The layout was only rejected when neither dimension was a multiple of it.
---
 src/modopt/base/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 6dca497..587f733 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -113,7 +113,7 @@ def map2cube(data_map, layout):
     cube2map : complimentary function
 
     """
-    if np.all(np.array(data_map.shape) % np.array(layout)):
+    if np.any(np.array(data_map.shape) % np.array(layout)):
         raise ValueError(
             "The desired layout must be a multiple of the number "
             + "pixels in the data map.",
-- 
2.43.0


From cfcccad6c97b9e40b1992c497286b6a39b1848ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 16/52] fix: invalid FISTA restart strategy raised TypeError,
 not ValueError

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 0498197..ce6c95a 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -104,7 +104,7 @@ class FISTA:
             message = "Restarting strategy must be one of {0}."
             raise ValueError(
                 message.format(
-                    ", ".join(self._restarting_strategies),
+                    ", ".join(map(str, self._restarting_strategies)),
                 ),
             )
         self._t_now = 1.0
-- 
2.43.0


From a559870f5c11f34dcd9c3b0979b1dacf4b7fa1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 17/52] fix: GenForwardBackward rejected its own default
 weights

For 6, 7, 13, ... proximity operators n * (1/n) does not sum to exactly 1.0
in floating point.
---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index ce6c95a..de3e705 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -684,7 +684,7 @@ class GenForwardBackward(SetUp):
 
         expected_weight_sum = 1.0
 
-        if self.xp.sum(weights) != expected_weight_sum:
+        if not self.xp.isclose(self.xp.sum(weights), expected_weight_sum):
             raise ValueError(
                 "Proximity operator weights must sum to 1.0. Current sum of "
                 + f"weights = {self.xp.sum(weights)}",
-- 
2.43.0


From 46d5ed822e39260b9cb854ac993d896bafeb48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 18/52] fix: PowerMethod ignored its rng

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b200f15..b1de5f5 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -309,7 +309,7 @@ class PowerMethod:
         self._verbose = verbose
         xp, compute_backend = get_backend(compute_backend)
         self.xp = xp
-        self.rng = None
+        self.rng = rng
         self.compute_backend = compute_backend
         if auto_run:
             self.get_spec_rad()
-- 
2.43.0


From b064acafa09f5b2b1c636e8a83f4f67566369ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 19/52] fix: close_log left handlers attached and log files
 open

---
 src/modopt/interface/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 50c316b..fcafcdd 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -78,5 +78,6 @@ def close_log(log, verbose=True):
     log.info("The log file has been closed.")
 
     # Remove all handlers from log.
-    for log_handler in log.handlers:
+    for log_handler in list(log.handlers):
         log.removeHandler(log_handler)
+        log_handler.close()
-- 
2.43.0


From 2c7be12db98a78b3bbed1515da941921d3f49585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 20/52] fix: check_npndarray raised a tuple instead of its
 TypeError

---
 src/modopt/base/types.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/types.py b/src/modopt/base/types.py
index 9e9a15b..73e3d19 100644
--- a/src/modopt/base/types.py
+++ b/src/modopt/base/types.py
@@ -161,10 +161,8 @@ def check_npndarray(input_obj, dtype=None, writeable=True, verbose=True):
     if (not isinstance(dtype, type(None))) and (
         not np.issubdtype(input_obj.dtype, dtype)
     ):
-        raise (
-            TypeError(
-                f"The numpy array elements are not of type: {dtype}",
-            ),
+        raise TypeError(
+            f"The numpy array elements are not of type: {dtype}",
         )
 
     if not writeable and verbose and input_obj.flags.writeable:
-- 
2.43.0


From e491cf5bd9bf1b46d38b7f2396a5744d27d5f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 21/52] fix: snr did not apply the mask to the reference image

Unlike the other metrics, it compared a masked image to an unmasked one, so
pixels outside of the region of interest changed the result.
---
 src/modopt/math/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index befd4fa..88a1d7f 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -158,6 +158,7 @@ def snr(test, ref, mask=None):
 
     if mask is not None:
         test = mask * test
+        ref = mask * ref
 
     num = np.mean(np.square(test))
     deno = mse(test, ref)
-- 
2.43.0


From a077dc0ce3cc4c9fb67778dc37fcde9a6df9796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 22/52] fix: move_to_cpu failed for tensorflow arrays

TensorFlow tensors have no data attribute.
---
 src/modopt/base/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 485f649..2a65ee5 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -156,7 +156,7 @@ def move_to_cpu(input_data):
     elif xp == LIBRARIES["cupy"]:
         return input_data.get()
     elif xp == LIBRARIES["tensorflow"]:
-        return input_data.data.numpy()
+        return input_data.numpy()
     raise ValueError("Cannot identify the array type.")
 
 
-- 
2.43.0


From e64be7fdc1b8d4ae269e15b4ab0d33ad185f4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 23/52] fix: get_mr_filters(trim=True) failed for filters of
 different sizes

NumPy no longer builds ragged arrays unless dtype=object is requested.
---
 src/modopt/signal/wavelet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b55b78d..b33e2fa 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -242,7 +242,12 @@ def get_mr_filters(
     mr_filters = call_mr_transform(fake_data.astype(float), opt=opt)
 
     if trim:
-        mr_filters = np.array([trim_filter(filt) for filt in mr_filters])
+        trimmed = [trim_filter(filt) for filt in mr_filters]
+        if len({filt.shape for filt in trimmed}) == 1:
+            mr_filters = np.array(trimmed)
+        else:
+            mr_filters = np.empty(len(trimmed), dtype="object")
+            mr_filters[:] = trimmed
 
     # Return filters
     if coarse:
-- 
2.43.0


From 5ac39d829d732c4a3ce399b2972e47bc6cd7ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 24/52] fix: call_mr_transform left temporary files behind on
 failure

Only failures reported on stdout removed the input file, and none removed a
partial output file.
---
 src/modopt/signal/wavelet.py | 39 ++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b33e2fa..1ff6f1a 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -18,6 +18,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 import subprocess as sp
 from datetime import datetime
 from os import remove
+from os.path import isfile
 from random import getrandbits
 
 import numpy as np
@@ -151,23 +152,27 @@ def call_mr_transform(
 
     # Prepare command and execute it
     command_line = " ".join([executable, *opt, file_fits, file_mr])
-    stdout, _ = execute(command_line)
-
-    # Check for errors
-    if any(word in stdout for word in ("bad", "Error", "Sorry")):
-        remove(file_fits)
-        message = '{0} raised following exception: "{1}"'
-        raise RuntimeError(
-            message.format(executable, stdout.rstrip("\n")),
-        )
-
-    # Retrieve wavelet transformed data.
-    data_trans = fits.getdata(file_mr).astype(input_data.dtype)
-
-    # Remove the temporary files.
-    if remove_files:
-        remove(file_fits)
-        remove(file_mr)
+    try:
+        stdout, _ = execute(command_line)
+
+        # Check for errors
+        if any(word in stdout for word in ("bad", "Error", "Sorry")):
+            message = '{0} raised following exception: "{1}"'
+            raise RuntimeError(
+                message.format(executable, stdout.rstrip("\n")),
+            )
+
+        # Retrieve wavelet transformed data.
+        data_trans = fits.getdata(file_mr).astype(input_data.dtype)
+    except Exception:
+        remove_files = True
+        raise
+    finally:
+        # Remove the temporary files.
+        if remove_files:
+            for temp_file in (file_fits, file_mr):
+                if isfile(temp_file):
+                    remove(temp_file)
 
     # Return the mr_transform results.
     return data_trans
-- 
2.43.0


From b3bfdcdd090910e52788becd6b60345a91bc673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 25/52] fix: positive(ragged=True) failed for lists and for
 rows of equal sizes

Rows that were plain lists, or arrays that happened to have the same size,
raised AttributeError.
---
 src/modopt/signal/positivity.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/positivity.py b/src/modopt/signal/positivity.py
index 8d7aa46..ac78c11 100644
--- a/src/modopt/signal/positivity.py
+++ b/src/modopt/signal/positivity.py
@@ -29,6 +29,15 @@ def pos_thresh(input_data):
     return input_data * (input_data > 0)
 
 
+def _ragged_array(elements):
+    """Make a 1D object array of the given elements, whatever their sizes."""
+    res = np.empty(len(elements), dtype="object")
+    for idx, elem in enumerate(elements):
+        res[idx] = elem
+
+    return res
+
+
 def pos_recursive(input_data):
     """Positive Recursive.
 
@@ -45,8 +54,14 @@ def pos_recursive(input_data):
         Positive coefficients
 
     """
-    if input_data.dtype == "O":
-        res = np.array([pos_recursive(elem) for elem in input_data], dtype="object")
+    if isinstance(input_data, (list, tuple)):
+        input_data = _ragged_array(input_data)
+
+    if not isinstance(input_data, np.ndarray):
+        res = pos_thresh(input_data)
+
+    elif input_data.dtype == "O":
+        res = _ragged_array([pos_recursive(elem) for elem in input_data])
 
     else:
         res = pos_thresh(input_data)
@@ -103,7 +118,7 @@ def positive(input_data, ragged=False):
         return pos_thresh(input_data)
 
     if ragged:
-        input_data = np.array(input_data, dtype="object")
+        input_data = _ragged_array(input_data)
 
     else:
         input_data = np.array(input_data)
-- 
2.43.0


From c73ca50eadfa6d5f07a04aab6addc8b42b07ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:34 +0000
Subject: [PATCH 26/52] fix: svd_thresh_coef_fast failed for a null matrix

ARPACK cannot start from zero data, e.g. a null initial guess.
---
 src/modopt/signal/svd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index b81fd2f..7df4170 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -233,11 +233,12 @@ def svd_thresh_coef_fast(
     n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        if n_vals < max_vals - 1:
+        if n_vals < max_vals - 1 and np.any(input_data):
             (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
             ok = s_values[0] <= threshold
         else:
-            # svds cannot compute (nearly) all of the singular values
+            # svds cannot compute (nearly) all of the singular values, nor
+            # those of a null matrix
             (u_vec, s_values, v_vec) = calculate_svd(input_data)
             u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
             ok = True
-- 
2.43.0


From 41169070465b2d711c290554b4f1f056bcefc7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 27/52] fix: CPUWaveletTransform.adj_op failed unless op was
 called before

---
 src/modopt/opt/linear/wavelet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 6f9bc64..2e1d724 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -201,6 +201,9 @@ class CPUWaveletTransform(LinearParent):
             self.idwt = pywt.waverec
             self._pywt_fun = "wavedec"
 
+        # The layout of the coefficients, needed by adj_op even if op was not called.
+        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
+
         self.n_batch = n_batch
         if self.n_batch == 1 and self.n_jobs != 1:
             warnings.warn(
-- 
2.43.0


From ad6c5db9e302f4f8ad4b2ef44d74c3630d093f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:41 +0000
Subject: [PATCH 28/52] fix: TorchWaveletTransform.adj_op did not return data
 of the given shape

---
 src/modopt/opt/linear/wavelet.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 2e1d724..5ba7e80 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -367,6 +367,10 @@ class TorchWaveletTransform:
         )
         return [coeffs_[0]] + [cc for c in coeffs_[1:] for cc in c.values()]
 
+    def _crop(self, data):
+        """Drop the extra sample of the inverse transform along odd dimensions."""
+        return data[(..., *(slice(size) for size in self.shape))]
+
     def adj_op(self, coeffs):
         """Apply the wavelet recomposition.
 
@@ -391,14 +395,14 @@ class TorchWaveletTransform:
                     for i in range(1, len(coeffs) - 2, 3)
                 ]
                 data = ptwt.waverec2(coeffs, wavelet=self.wavelet, axes=(-3, -2))
-                return torch.view_as_complex(data.contiguous())
+                return self._crop(torch.view_as_complex(data.contiguous()))
             ## 2D Real ##
             coeffs_ = [coeffs[0]] + [
                 tuple(coeffs[i + k] for k in range(3))
                 for i in range(1, len(coeffs) - 2, 3)
             ]
             data = ptwt.waverec2(coeffs_, wavelet=self.wavelet, axes=(-2, -1))
-            return data
+            return self._crop(data)
 
         if torch.is_complex(coeffs[0]):
             ## 3D Complex ##
@@ -411,14 +415,14 @@ class TorchWaveletTransform:
                 for i in range(1, len(coeffs) - 6, 7)
             ]
             data = ptwt.waverec3(coeffs, wavelet=self.wavelet, axes=(-4, -3, -2))
-            return torch.view_as_complex(data.contiguous())
+            return self._crop(torch.view_as_complex(data.contiguous()))
         ## 3D Real ##
         coeffs_ = [coeffs[0]] + [
             {v: coeffs[i + k] for k, v in enumerate(self.wavedec3_keys)}
             for i in range(1, len(coeffs) - 6, 7)
         ]
         data = ptwt.waverec3(coeffs_, wavelet=self.wavelet, axes=(-3, -2, -1))
-        return data
+        return self._crop(data)
 
 
 class CupyWaveletTransform(LinearParent):
-- 
2.43.0


From 9209936cc1d7bd135c4ab4959df5dfe87c2fc31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:48 +0000
Subject: [PATCH 29/52] fix: POGM overwrote the gradient array of the gradient
 operator

The array returned by the gradient operator was kept as the previous
gradient and then written to at every iteration, which corrupts a gradient
operator that keeps its array (a constant gradient, a reused buffer).
---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index de3e705..a1c1018 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -923,7 +923,7 @@ class POGM(SetUp):
         self._sigma = 1.0
         self._t_old = 1.0
         self._grad.get_grad(self._x_old)
-        self._g_old = self._grad.grad
+        self._g_old = self.xp.copy(self._grad.grad)
 
         # Automatically run the algorithm
         if auto_iterate:
-- 
2.43.0


From 7fd167ee776010f4c32f8ff9065a92359d80c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 30/52] fix: retrieve_metrics handed out the lists it goes on
 appending to

---
 src/modopt/base/observable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5542dbf..581940e 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -286,6 +286,6 @@ class MetricObserver:
 
         return {
             "time": time_val,
-            "index": self.list_iters,
-            "values": self.list_cv_values,
+            "index": list(self.list_iters),
+            "values": list(self.list_cv_values),
         }
-- 
2.43.0


From 58352fb6bc7999611ec8000a525465ad91a849e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:25 +0000
Subject: [PATCH 31/52] fix: Condat left tau out of its primal proximity
 operator

---
 src/modopt/opt/algorithms/primal_dual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index ff7a9a1..a820454 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -190,6 +190,7 @@ class Condat(SetUp):
             self._x_old
             - self._tau * self._grad.grad
             - self._tau * self._linear.adj_op(self._y_old),
+            extra_factor=self._tau,
         )
 
         # Step 2 from eq.9.
-- 
2.43.0


From 7a6e27269a8a5585f5f1801208fd9ea7b18203cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 32/52] fix: Ridge applied the linear operator of its cost in
 its proximity operator

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 61fae22..11e550f 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -770,7 +770,7 @@ class Ridge(ProximityParent):
         """
         threshold = self.weights * extra_factor * 2
 
-        return self._linear.op(input_data) / (1 + threshold)
+        return input_data / (1 + threshold)
 
     def _cost_method(self, *args, **kwargs):
         """Calculate Ridge component of the cost.
-- 
2.43.0


From 4643c91fc29b2d584ad7a6d12d39c4df61605a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 33/52] fix: observers were skipped when one was removed during
 a notification

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 581940e..17ddef5 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -106,7 +106,7 @@ class Observable:
             setattr(signal_to_be_notified, name, key_value)
         try:
             # Notify all the observers
-            for observer in self._observers[signal]:
+            for observer in list(self._observers[signal]):
                 observer(signal_to_be_notified)
         finally:
             # Unlock the notification process
-- 
2.43.0


From 812e561b5fe5d5492757e0c97f96212d36933214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:38 +0000
Subject: [PATCH 34/52] fix: call_mr_transform failed for paths with spaces or
 quotes

---
 src/modopt/signal/wavelet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index 1ff6f1a..d98e333 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -15,6 +15,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 
 """
 
+import shlex
 import subprocess as sp
 from datetime import datetime
 from os import remove
@@ -59,7 +60,7 @@ def execute(command_line):
     if not isinstance(command_line, str):
         raise TypeError("Command line must be a string.")
 
-    command = command_line.split()
+    command = shlex.split(command_line)
 
     process = sp.Popen(command, stdout=sp.PIPE, stderr=sp.PIPE)
     stdout, stderr = process.communicate()
@@ -147,11 +148,11 @@ def call_mr_transform(
     # Write the input data to a fits file.
     fits.writeto(file_fits, input_data)
 
-    if isinstance(opt, str):
-        opt = opt.split()
+    if not isinstance(opt, str):
+        opt = " ".join(opt)
 
     # Prepare command and execute it
-    command_line = " ".join([executable, *opt, file_fits, file_mr])
+    command_line = shlex.join([executable, *opt.split(), file_fits, file_mr])
     try:
         stdout, _ = execute(command_line)
 
-- 
2.43.0


From 402f729c131a47d54cd48c3d72022cec0b825fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:44 +0000
Subject: [PATCH 35/52] fix: do not normalise masked images again in snr, psnr
 and nrmse

The error was computed with mse() on images that had already been
normalised and masked, which took the minimum and maximum of the masked
images and normalised them a second time, so that the value disagreed
with mse(test, ref, mask) whenever the extreme pixels were outside the
mask.
---
 src/modopt/math/metrics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index 88a1d7f..e9c6906 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -161,7 +161,7 @@ def snr(test, ref, mask=None):
         ref = mask * ref
 
     num = np.mean(np.square(test))
-    deno = mse(test, ref)
+    deno = np.mean(np.square(test - ref))
 
     return 10.0 * np.log10(num / deno)
 
@@ -197,7 +197,7 @@ def psnr(test, ref, mask=None):
         ref = mask * ref
 
     num = np.max(np.abs(test))
-    deno = mse(test, ref)
+    deno = np.mean(np.square(test - ref))
 
     return 10.0 * np.log10(num / deno)
 
@@ -266,7 +266,7 @@ def nrmse(test, ref, mask=None):
         test = mask * test
         ref = mask * ref
 
-    num = np.sqrt(mse(test, ref))
+    num = np.sqrt(np.mean(np.square(test - ref)))
     deno = np.sqrt(np.mean(np.square(test)))
 
     return num / deno
-- 
2.43.0


From 846a590050feeea613ca8a019dccef7f15387acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:50 +0000
Subject: [PATCH 36/52] fix: remove a debugging print from svd_thresh

svd_thresh printed the number of principal components and the whole
matrix of singular vectors when neither threshold nor n_pc was given.
---
 src/modopt/signal/svd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 7df4170..0f0e947 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -168,7 +168,6 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
         # Find the required number of principal components if not specified.
         if isinstance(n_pc, type(None)):
             n_pc = find_n_pc(u_vec, factor=0.1)
-            print("xxxx", n_pc, u_vec)
 
         # If the number of PCs is too large use all of the singular values.
         if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
-- 
2.43.0


From 549d88ef2d0ba5e0d74b69e7727e3f0f008c61df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:50 +0000
Subject: [PATCH 37/52] fix: accept progress bars without a total

The truth value of a tqdm bar depends on its total and raises a
TypeError when there is none, so test for None instead.
---
 src/modopt/opt/algorithms/base.py        | 4 ++--
 src/modopt/opt/algorithms/primal_dual.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 4a49fc6..052ff11 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -284,7 +284,7 @@ class SetUp(Observable):
                     print(" - Converged!")
                 break
 
-            if progbar:
+            if progbar is not None:
                 progbar.update()
 
     def _run_alg(self, max_iter, progbar=None):
@@ -308,7 +308,7 @@ class SetUp(Observable):
         if self.progress and progbar is None:
             with tqdm(total=max_iter) as pb:
                 self._iterations(max_iter, progbar=pb)
-        elif progbar:
+        elif progbar is not None:
             self._iterations(max_iter, progbar=progbar)
         else:
             self._iterations(max_iter)
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index a820454..8e302fb 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -242,7 +242,7 @@ class Condat(SetUp):
         if not isinstance(self._reweight, type(None)):
             for _ in range(n_rewightings):
                 self._reweight.reweight(self._linear.op(self._x_new))
-                if progbar:
+                if progbar is not None:
                     progbar.reset(total=max_iter)
                 self._run_alg(max_iter, progbar)
 
-- 
2.43.0


From 9f658fd7d8efe8d7fb4ed26d6d76d1580d6038e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:14 +0000
Subject: [PATCH 38/52] fix: conjugate the adjoint of every complex
 MatrixOperator

Whether to conjugate was decided by the values of the matrix when the
operator was made, so that the adjoint was wrong for a complex matrix
that got its imaginary parts later (the operator uses the caller's
array).
---
 src/modopt/opt/linear/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/base.py b/src/modopt/opt/linear/base.py
index af748a7..258b047 100644
--- a/src/modopt/opt/linear/base.py
+++ b/src/modopt/opt/linear/base.py
@@ -80,7 +80,7 @@ class MatrixOperator(LinearParent):
         self.op = lambda x: array @ x
         xp = get_array_module(array)
 
-        if xp.any(xp.iscomplex(array)):
+        if xp.iscomplexobj(array):
             self.adj_op = lambda x: array.T.conjugate() @ x
         else:
             self.adj_op = lambda x: array.T @ x
-- 
2.43.0


From 5cb7c0852d8888b66ac28c8ba773a6a8793572a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:14 +0000
Subject: [PATCH 39/52] fix: let the OWL operator take data of any shape, and
 single elements

The data were squeezed, not flattened, so data with more than one axis raised
IndexError although the weights are flattened, and a single weight was refused
because the maximum of an empty difference does not exist.
---
 src/modopt/opt/proximity.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 11e550f..80ea500 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -629,9 +629,9 @@ class OrderedWeightedL1Norm(ProximityParent):
                 + "documentation for details: "
                 + "https://cea-cosmic.github.io/ModOpt/#optional-packages",
             )
-        if np.max(np.diff(weights)) > 0:
-            raise ValueError("Weights must be non increasing")
         self.weights = weights.flatten()
+        if np.any(np.diff(self.weights) > 0):
+            raise ValueError("Weights must be non increasing")
         if (self.weights < 0).any():
             raise ValueError(
                 "The weight values must be provided in descending order",
@@ -661,8 +661,8 @@ class OrderedWeightedL1Norm(ProximityParent):
         # Update threshold with extra factor.
         threshold = self.weights * extra_factor
 
-        # Squeezing the data
-        data_squeezed = np.squeeze(input_data)
+        # Flattening the data
+        data_squeezed = np.ravel(input_data)
 
         # Sorting (non increasing order) input vector's absolute values
         data_abs = np.abs(data_squeezed)
@@ -709,7 +709,7 @@ class OrderedWeightedL1Norm(ProximityParent):
 
         """
         cost_val = np.sum(
-            self.weights * np.sort(np.squeeze(np.abs(args[0]))[::-1]),
+            self.weights * np.sort(np.ravel(np.abs(args[0]))[::-1]),
         )
 
         if kwargs.get("verbose"):
-- 
2.43.0


From bb5e21be1ff021e3cfbf6a45591bceba3b325877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:21 +0000
Subject: [PATCH 40/52] fix: do not count reweightings that are refused

---
 src/modopt/opt/reweight.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modopt/opt/reweight.py b/src/modopt/opt/reweight.py
index 4a9bf44..e213cdf 100644
--- a/src/modopt/opt/reweight.py
+++ b/src/modopt/opt/reweight.py
@@ -80,8 +80,6 @@ class cwbReweight:
         if self.verbose:
             print(f" - Reweighting: {self._rw_num}")
 
-        self._rw_num += 1
-
         input_data = check_float(input_data)
 
         if input_data.shape != self.weights.shape:
@@ -94,3 +92,4 @@ class cwbReweight:
         self.weights *= np.array(
             1.0 / (1.0 + np.abs(input_data) / (thresh_weights)),
         )
+        self._rw_num += 1
-- 
2.43.0


From 8166f64008d1126967e48085e358d9db2f6f45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:21 +0000
Subject: [PATCH 41/52] fix: keep metric histories consistent when a metric
 raises

The iteration index and the date were recorded before the metric was evaluated,
so after an exception every later value was paired with another index.
---
 src/modopt/base/observable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 17ddef5..39dced5 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -245,9 +245,12 @@ class MetricObserver:
             if key_value is not None:
                 kwargs[key_value] = getattr(signal, key)
         kwargs.update(self.cst_kwargs)
+        date = time.time()
+        cv_value = self.metric(**kwargs)
+
         self.list_iters.append(signal.idx)
-        self.list_dates.append(time.time())
-        self.list_cv_values.append(self.metric(**kwargs))
+        self.list_dates.append(date)
+        self.list_cv_values.append(cv_value)
 
         if self.early_stopping:
             self.is_converge()
-- 
2.43.0


From f0c19c183d1caa17512870aa390d9f859e450f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:21 +0000
Subject: [PATCH 42/52] fix: do not write into the arrays returned by the
 operator of PowerMethod

The result of the operator was normalised in place: an operator that returns an
array it keeps had it overwritten, and one that returns a read-only array failed.
---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b1de5f5..68e642d 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -361,7 +361,7 @@ class PowerMethod:
 
             x_new_norm = xp.linalg.norm(x_new)
 
-            x_new /= x_new_norm
+            x_new = x_new / x_new_norm
 
             if xp.abs(x_new_norm - x_old_norm) < tolerance:
                 message = " - Power Method converged after {0} iterations!"
-- 
2.43.0


From 56f79d878cc57fc5efd83becf50e629a9938a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 43/52] fix: group-lasso operator wrong for groups below single
 precision epsilon

---
 src/modopt/opt/proximity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 80ea500..f5476ee 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1400,7 +1400,8 @@ class GroupLASSO(ProximityParent):
 
         """
         norm2 = np.linalg.norm(input_data, axis=0)
-        denominator = np.maximum(norm2, np.finfo(np.float32).eps)
+        # Groups of zeros stay zero, whatever they are divided by.
+        denominator = norm2 + (norm2 == 0)
 
         return input_data * np.maximum(
             0,
-- 
2.43.0


From b6d4edd10e68fb24d9c1eb9a02ef1af16789263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 44/52] fix: documentation named arguments and a default that
 do not exist

---
 src/modopt/opt/cost.py           |  4 ++--
 src/modopt/opt/linear/wavelet.py | 12 ++++++------
 src/modopt/opt/proximity.py      |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/modopt/opt/cost.py b/src/modopt/opt/cost.py
index 37771f1..8535d31 100644
--- a/src/modopt/opt/cost.py
+++ b/src/modopt/opt/cost.py
@@ -23,7 +23,7 @@ class CostParent(abc.ABC):
 
     Parameters
     ----------
-    opertors : list, tuple or numpy.ndarray
+    operators : list, tuple or numpy.ndarray
         List of operators classes containing ``cost`` method
     initial_cost : float, optional
         Initial value of the cost (default is ``1e6``)
@@ -217,7 +217,7 @@ class costObj(CostParent):
 
     Parameters
     ----------
-    opertors : list, tuple or numpy.ndarray
+    operators : list, tuple or numpy.ndarray
         List of operators classes containing ``cost`` method
     initial_cost : float, optional
         Initial value of the cost (default is ``1e6``)
diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 5ba7e80..1be4b53 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -73,9 +73,9 @@ class WaveletTransform(LinearParent):
     shape: tuple[int,...]
         Shape of the input data. The shape should be a tuple of length 2 or 3.
         It should not contains coils or batch dimension.
-    nb_scales: int, default 4
+    level: int, default 4
         the number of scales in the decomposition.
-    mode: str, default "zero"
+    mode: str, default "symmetric"
         Boundary Condition mode
     compute_backend: str, "numpy" or "cupy", default "numpy"
         Backend library to use. "cupy" also requires a working installation of PyTorch
@@ -130,16 +130,16 @@ class CPUWaveletTransform(LinearParent):
     shape: tuple[int,...]
         Shape of the input data. The shape should be a tuple of length 2 or 3.
         It should not contains coils or batch dimension.
-    nb_scales: int, default 4
+    level: int, default 4
         the number of scales in the decomposition.
-    n_batchs: int, default 1
+    n_batch: int, default 1
         the number of channel/ batch dimension
     n_jobs: int, default 1
         the number of cores to use for multichannel.
     backend: str, default "threading"
         the backend to use for parallel multichannel linear operation.
-    verbose: int, default 0
-        the verbosity level.
+    mode: str, default "symmetric"
+        Boundary Condition mode
 
     Attributes
     ----------
diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index f5476ee..7943d03 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -244,7 +244,7 @@ class LowRankMatrix(ProximityParent):
     ----------
     threshold : float
         Threshold value
-    treshold_type : {'hard', 'soft'}
+    thresh_type : {'hard', 'soft'}
         Threshold type (options are 'hard' or 'soft', default is 'soft')
     lowr_type : {'standard', 'ngole'}
         Low-rank implementation (options are 'standard' or 'ngole', default is
@@ -897,8 +897,8 @@ class KSupportNorm(ProximityParent):
 
     Parameters
     ----------
-    thresh : float
-        Threshold value
+    beta : float
+        Weight of the penalty
     k_value : int
         Hyper-parameter of the :math:`k`-support norm, equivalent to the
         cardinality value for the overlapping group lasso. :math:`k` should be
-- 
2.43.0


From b142ba94634a5b67652b83e7be9c405e773c81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 45/52] fix: mse and psnr of images of small integer types
 overflowed

---
 src/modopt/math/stats.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/modopt/math/stats.py b/src/modopt/math/stats.py
index 8583a8c..21d65da 100644
--- a/src/modopt/math/stats.py
+++ b/src/modopt/math/stats.py
@@ -117,6 +117,15 @@ def mad(input_data):
     return np.median(np.abs(input_data - np.median(input_data)))
 
 
+def _difference(data1, data2):
+    """Difference in floating point, as (unsigned) integers could overflow."""
+    data_type = np.result_type(np.asarray(data1), np.asarray(data2))
+    if data_type.kind in "bui":
+        data_type = np.dtype(float)
+
+    return np.subtract(data1, data2, dtype=data_type)
+
+
 def mse(data1, data2):
     """Mean Squared Error.
 
@@ -143,7 +152,7 @@ def mse(data1, data2):
     4.0
 
     """
-    return np.mean((data1 - data2) ** 2)
+    return np.mean(_difference(data1, data2) ** 2)
 
 
 def psnr(data1, data2, method="starck", max_pix=255):
@@ -203,8 +212,8 @@ def psnr(data1, data2, method="starck", max_pix=255):
     """
     if method == "starck":
         return 20 * np.log10(
-            (data1.shape[0] * np.abs(np.max(data1) - np.min(data1)))
-            / np.linalg.norm(data1 - data2),
+            (data1.shape[0] * np.abs(_difference(np.max(data1), np.min(data1))))
+            / np.linalg.norm(_difference(data1, data2)),
         )
 
     elif method == "wiki":
-- 
2.43.0


From 23331dbaa8b30ad9f33c39df5b0bde1f5ec773de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 46/52] fix: project and gram_schmidt of small integer types
 overflowed

---
 src/modopt/math/matrix.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index 68e642d..66bdbd1 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -158,6 +158,12 @@ def project(u_vec, v_vec):
     (see https://en.wikipedia.org/wiki/Gram%E2%80%93Schmidt_process)
 
     """
+    # The inner products of integers could overflow.
+    u_vec, v_vec = (
+        vec.astype(float) if vec.dtype.kind in "bui" else vec
+        for vec in (np.asarray(u_vec), np.asarray(v_vec))
+    )
+
     return np.inner(v_vec, u_vec) / np.inner(u_vec, u_vec) * u_vec
 
 
-- 
2.43.0


From 2524020a8d33aeffce53ea5ffffbc9c0f9839702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 47/52] fix: costs of small integers overflowed in Ridge,
 ElasticNet and KSupportNorm

---
 src/modopt/opt/proximity.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 7943d03..0071464 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -30,6 +30,14 @@ from modopt.signal.positivity import positive
 from modopt.signal.svd import svd_thresh, svd_thresh_coef, svd_thresh_coef_fast
 
 
+def _float_if_integer(input_data):
+    """Convert integers to floats, as their squares could overflow."""
+    if isinstance(input_data, np.ndarray) and input_data.dtype.kind in "bui":
+        input_data = input_data.astype(float)
+
+    return input_data
+
+
 class ProximityParent:
     """Proximity Operator Parent Class.
 
@@ -791,8 +799,9 @@ class Ridge(ProximityParent):
             Sparsity cost component
 
         """
+        coeffs = _float_if_integer(self._linear.op(args[0]))
         cost_val = np.sum(
-            np.abs(self.weights * self._linear.op(args[0]) ** 2),
+            np.abs(self.weights * coeffs**2),
         )
 
         if kwargs.get("verbose"):
@@ -878,9 +887,9 @@ class ElasticNet(ProximityParent):
             Sparsity cost component
 
         """
+        coeffs = _float_if_integer(self._linear.op(args[0]))
         cost_val = np.sum(
-            np.abs(self.alpha * self._linear.op(args[0]) ** 2)
-            + np.abs(self.beta * self._linear.op(args[0])),
+            np.abs(self.alpha * coeffs**2) + np.abs(self.beta * coeffs),
         )
 
         if kwargs.get("verbose"):
@@ -1325,7 +1334,7 @@ class KSupportNorm(ProximityParent):
             The :math:`k`-support cost component
 
         """
-        data_abs = np.abs(args[0].flatten())
+        data_abs = np.abs(_float_if_integer(args[0]).flatten())
         ix = np.argsort(data_abs)[::-1]
         data_abs = data_abs[ix]  # Sorted absolute value of the data
         q_val = self._find_q(data_abs)
-- 
2.43.0


From 4e9bc197dc9f27c91ad58e70313048d02f2c7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 48/52] fix: imaginary parts lost by CPUWaveletTransform for
 data of foreign byte order

---
 src/modopt/opt/linear/wavelet.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 1be4b53..66f96ec 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -60,6 +60,13 @@ class WaveletConvolve(LinearParent):
         )
 
 
+def _native_byte_order(data):
+    """Convert to native byte order, as PyWavelets takes other complex data as real."""
+    data = np.asarray(data)
+
+    return data.astype(data.dtype.newbyteorder("="), copy=False)
+
+
 class WaveletTransform(LinearParent):
     """
     2D and 3D wavelet transform class.
@@ -246,6 +253,8 @@ class CPUWaveletTransform(LinearParent):
 
     def _op(self, data):
         """Single coil wavelet transform."""
+        data = _native_byte_order(data)
+
         return pywt.ravel_coeffs(
             self.dwt(data, mode=self.mode, level=self.level, wavelet=self.wavelet)
         )
@@ -276,6 +285,7 @@ class CPUWaveletTransform(LinearParent):
 
     def _adj_op(self, coeffs):
         """Single coil inverse wavelet transform."""
+        coeffs = _native_byte_order(coeffs)
         data = self.idwt(
             pywt.unravel_coeffs(
                 coeffs, self.coeffs_slices, self.raw_coeffs_shape, self._pywt_fun
-- 
2.43.0


From 1687b2d6e03b24cd45661b4ca4fd61c0da0caa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:59 +0000
Subject: [PATCH 49/52] fix: min-max normalisation of images of integer types
 overflowed

---
 src/modopt/math/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index e9c6906..df9b4b9 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -34,6 +34,9 @@ def min_max_normalize(img):
         normalized array
 
     """
+    if img.dtype.kind in "bui":  # differences of integers could overflow
+        img = img.astype(float)
+
     min_img = img.min()
     max_img = img.max()
 
-- 
2.43.0


From d27c6aef7fe90aa7179117b9e2b9ad1bcd6dbd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:32 +0000
Subject: [PATCH 50/52] fix: projections of complex vectors omitted the
 conjugate

---
 src/modopt/math/matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index 66bdbd1..df1f9f4 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -164,7 +164,9 @@ def project(u_vec, v_vec):
         for vec in (np.asarray(u_vec), np.asarray(v_vec))
     )
 
-    return np.inner(v_vec, u_vec) / np.inner(u_vec, u_vec) * u_vec
+    u_conj = np.conj(u_vec)
+
+    return np.inner(v_vec, u_conj) / np.inner(u_vec, u_conj) * u_vec
 
 
 def rot_matrix(angle):
-- 
2.43.0


From 6419cfc6ce7803748b3f367ec369d188b1392140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:25 +0000
Subject: [PATCH 51/52] fix: the ADMM cost does not add in place to what the
 caller's function returned

---
 src/modopt/opt/algorithms/admm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index c6dd0b1..5ea5ab2 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -59,11 +59,9 @@ class ADMMcostObj(CostParent):
 
         """
         xp = get_array_module(u)
-        cost = self.cost_funcs[0](u)
-        cost += self.cost_funcs[1](v)
+        cost = self.cost_funcs[0](u) + self.cost_funcs[1](v)
         residual = self.A.op(u) + self.B.op(v) - self.b
-        cost += self.tau * xp.linalg.norm(residual) ** 2
-        return cost
+        return cost + self.tau * xp.linalg.norm(residual) ** 2
 
 
 class ADMM(SetUp):
-- 
2.43.0


From 0b26d9c9b444078ef737ae6043ee8e8f3af8150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:37 +0000
Subject: [PATCH 52/52] fix: convert_to_tensor converts a zero-dimensional
 integer array

torch.Tensor took its value as the size of an uninitialised tensor.
---
 src/modopt/base/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 2a65ee5..55148f3 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -192,7 +192,7 @@ def convert_to_tensor(input_data):
     xp = get_array_module(input_data)
 
     if xp == np:
-        return torch.Tensor(input_data)
+        return torch.as_tensor(input_data, dtype=torch.float32)
 
     return torch_from_dlpack(input_data.toDlpack()).float()
 
-- 
2.43.0

