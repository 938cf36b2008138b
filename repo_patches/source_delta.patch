From 26434ad7cb84e0af0025a144dfc46c030ef31584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 01/29] fix: a_weighting in dB writes its result into the out
 array

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..ac3fc8a 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -375,7 +375,8 @@ def a_weighting(f: float,
   Returns:
     array: A-weights"""
   if db:
-    return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
+    dsp_utils.a2db(a_weighting(f, db=False, out=out), out=out)
+    return np.subtract(out, _a_weight_1kHz_db, out=out)
   f2 = np.empty_like(out)
   np.square(f, out=f2)
   # f^2 + 107.7^2
-- 
2.43.0


From 8c598237fe0abe6f5d1fd980aa24d60e7eafd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 02/29] fix: no windows instead of a negative number for
 signals shorter than a window

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ae93ee5..ab909e1 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -381,7 +381,7 @@ def n_windows(input_size: int, wsize: int, hop: Optional[int] = None) -> int:
     int: Number of windows"""
   if hop is None:
     hop = wsize
-  return 1 + (input_size - wsize) // hop
+  return max(0, 1 + (input_size - wsize) // hop)
 
 
 def overlapping_windows(a: np.ndarray,
-- 
2.43.0


From 62b8aaded364574d2837a6dd01cb57af78a94cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 03/29] fix: dft with a window of one sample

---
 sample/sms/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/dsp.py b/sample/sms/dsp.py
index 7e28d9a..df511d7 100644
--- a/sample/sms/dsp.py
+++ b/sample/sms/dsp.py
@@ -29,7 +29,7 @@ def dft(
   xw = x * w
   x_z = np.zeros(n)
   x_z[:w.size - hw] = xw[hw:]
-  x_z[-hw:] = xw[:hw]
+  x_z[n - hw:] = xw[:hw]
 
   x_fft = fft.rfft(x_z)
   ax = np.abs(x_fft)
-- 
2.43.0


From c300a392a3c61c7bec47ccddc0ddeeb9c101d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 04/29] fix: sdt_params_ of a model without modes

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 9125851..6ffb8a9 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -275,7 +275,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(n_modes, 1)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From 96a45651e125ea2dcc31816e190edd8452a99762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:26 +0000
Subject: [PATCH 05/29] fix: half-sum and half-difference of a number and an
 array

---
 sample/utils/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index e72d420..82c7643 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -255,7 +255,6 @@ class Numpy2Paragraph:
     self._d = {}
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semisum(x: np.ndarray,
                y: np.ndarray,
                out: Optional[np.ndarray] = None,
@@ -269,11 +268,12 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the sum of the inputs"""
-    out = np.add(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    return np.true_divide(np.add(x, y, out=out, **kwargs),
+                          2,
+                          out=out,
+                          **kwargs)
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semidiff(x: np.ndarray,
                 y: np.ndarray,
                 out: Optional[np.ndarray] = None,
@@ -287,8 +287,10 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the difference of the inputs"""
-    out = np.subtract(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    return np.true_divide(np.subtract(x, y, out=out, **kwargs),
+                          2,
+                          out=out,
+                          **kwargs)
 
   semisum = pg.op(NamedObject(_semisum.__get__(object), name="semisum"))  # pylint: disable=E1120
   semidiff = pg.op(NamedObject(_semidiff.__get__(object), name="semidiff"))  # pylint: disable=E1120
-- 
2.43.0


From 63e0c9e621b9d63ff51924f34abbdd471944ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:10 +0000
Subject: [PATCH 06/29] fix: lp_distance of integer vectors

---
 sample/evaluation/metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/evaluation/metrics.py b/sample/evaluation/metrics.py
index 3c58580..2c8a570 100644
--- a/sample/evaluation/metrics.py
+++ b/sample/evaluation/metrics.py
@@ -21,8 +21,9 @@ def lp_distance(x, y, p: float = 1):
 
   Returns:
     float: The distance"""
-  tmp = np.empty_like(x)
-  np.subtract(x, y, out=tmp)
+  x, y = np.asarray(x), np.asarray(y)
+  tmp = np.empty_like(x, dtype=np.result_type(x, y, float))
+  np.subtract(x, y, out=tmp, dtype=tmp.dtype)
   np.abs(tmp, out=tmp)
   if p != 1:
     np.power(tmp, p, out=tmp)
-- 
2.43.0


From ef3036e78ad831a229aefd865589acb944b1e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 07/29] fix: normalisation of integer signals

---
 sample/utils/dsp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ab909e1..12b1c7c 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -10,7 +10,7 @@ from sample import utils
 
 
 @utils.function_with_variants(key="mode", default="peak", this="peak")
-@utils.numpy_out
+@utils.numpy_out(dtype=float)
 def normalize(
     x: np.ndarray,
     mode: str = "peak",  # pylint: disable=W0613
@@ -24,11 +24,12 @@ def normalize(
 
   Returns:
     array: Normalized array"""
-  return np.true_divide(x, np.abs(x).max(), out=out)
+  np.copyto(out, x)
+  return np.true_divide(out, np.abs(out).max(), out=out)
 
 
 @utils.function_variant(normalize, "rms")
-@utils.numpy_out
+@utils.numpy_out(dtype=float)
 def _normalize_rms(x: np.ndarray,
                    out: Optional[np.ndarray] = None) -> np.ndarray:
   """Normalize the array to have zero mean and unitary variance
@@ -44,7 +45,7 @@ def _normalize_rms(x: np.ndarray,
 
 
 @utils.function_variant(normalize, "range")
-@utils.numpy_out
+@utils.numpy_out(dtype=float)
 def _normalize_range(x: np.ndarray,
                      out: Optional[np.ndarray] = None) -> np.ndarray:
   """Normalize the array to have values betwen zero and one
@@ -55,7 +56,7 @@ def _normalize_range(x: np.ndarray,
 
   Returns:
     array: Normalized array"""
-  np.subtract(x, np.min(x), out=out)
+  np.subtract(x, np.min(x), out=out, dtype=out.dtype)
   return np.true_divide(out, np.max(out), out=out)
 
 
-- 
2.43.0


From 4981e68fab5c062b578aad8e88c2252a3595c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 08/29] fix: f2bin of a scalar frequency

---
 sample/utils/dsp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index 12b1c7c..ccd1f5f 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -242,9 +242,7 @@ def f2bin(f: np.ndarray, nfft: int, fs: float = 1) -> np.ndarray:
 
   Returns:
     array: Bin indices"""
-  out = np.multiply(f, nfft / fs)
-  out = np.ceil(out, out=out)
-  return out.astype(int)
+  return np.ceil(np.multiply(f, nfft / fs)).astype(int)
 
 
 @utils.numpy_out(dtype=float)
-- 
2.43.0


From 627f2cd58a847ecce40688f0b38593f6cda545ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 09/29] fix: detrend one sample, or with a model with flat
 predictions

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ccd1f5f..9d68f38 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -229,7 +229,7 @@ def detrend(y: np.ndarray,
   y = column(y)
   x = column(x)
   model.fit(x, y)
-  return np.squeeze(y - model.predict(x))
+  return np.reshape(y, -1) - np.reshape(model.predict(x), -1)
 
 
 def f2bin(f: np.ndarray, nfft: int, fs: float = 1) -> np.ndarray:
-- 
2.43.0


From 6c03696038aecf7a67e8f81547f93ef6cbd3cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 10/29] fix: sign test of the bisection on tiny values

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index 9d68f38..3ec4aeb 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -167,7 +167,7 @@ def dychotomic_zero_crossing(func: Callable[[float], float],
     float: Argument for which the function is close to zero"""
   f_lo = func(lo)
   f_hi = func(hi)
-  if f_lo * f_hi > 0:
+  if (f_lo > 0 and f_hi > 0) or (f_lo < 0 and f_hi < 0):
     raise ValueError("Function has the same sign at both boundaries: "
                      f"f({lo}) = {f_lo},  f({hi}) = {f_hi}")
   if f_lo > f_hi:
-- 
2.43.0


From 4ae39a009287dd3ea7e33cb1239e3a16e3363626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:10 +0000
Subject: [PATCH 11/29] fix: deprecated sine_tracker_cls argument of
 SinusoidalModel

---
 sample/sms/sm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index bc0b6cd..4130a50 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -213,8 +213,8 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda sine_tracker_cls, **kwargs:
-                             ("tracker", sine_tracker_cls()))
+                             convert=lambda _, **kwargs:
+                             ("tracker", kwargs["sine_tracker_cls"]()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
   @utils.deprecated_argument("h", "tracker__h")
-- 
2.43.0


From 6d33b6ea14e8517cf05aca80f3c4d1b069c8fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:10 +0000
Subject: [PATCH 12/29] fix: deprecated sample_fn argument of SAMPLEOptimizer

---
 sample/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..5eddfc5 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -94,7 +94,7 @@ class SAMPLEOptimizer:
       "sample_fn",
       convert=lambda _, **kwargs:
       ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)({} if kwargs.get(
+       (**kwargs.get("remap", sample_kwargs_remapper)(**{} if kwargs.get(
            "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
-- 
2.43.0


From 112ec69e18c70aa5f56518a18e56b0fbc92098b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:10 +0000
Subject: [PATCH 13/29] fix: optimized arguments without a remapper

---
 sample/optimize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 5eddfc5..b18ee1e 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -139,9 +139,8 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
-    if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
-    return kwargs
+    remap = dict if self.remap is None else self.remap
+    return remap(**dict(zip(self.dimensions, args)), **kwargs)
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
     """Define a loss function for the target audio based on
-- 
2.43.0


From 36d18ef985f49752fe227760c017fcb002aaafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 14/29] fix: deprecated optimizer arguments without a remapper
 or a dictionary

---
 sample/optimize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index b18ee1e..f6f1d63 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -94,15 +94,17 @@ class SAMPLEOptimizer:
       "sample_fn",
       convert=lambda _, **kwargs:
       ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)(**{} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
+       (**(kwargs.get("remap", sample_kwargs_remapper) or dict)
+        (**{} if kwargs.get("sample_kw", None) is None else kwargs.get(
+            "sample_kw", None)))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
       "sample_kw",
       convert=lambda _, **kwargs:
-      ("model", kwargs.get("model", sample.SAMPLE()).set_params(**kwargs.get(
-          "remap", sample_kwargs_remapper)(**kwargs["sample_kw"]))),
+      ("model", kwargs.get("model", sample.SAMPLE()).set_params(
+          **(kwargs.get("remap", sample_kwargs_remapper) or dict)
+          (**{} if kwargs["sample_kw"] is None else kwargs["sample_kw"]))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   def __init__(self,
-- 
2.43.0


From 597337611e6aeaab178016bf185e2f131429a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:22 +0000
Subject: [PATCH 15/29] fix: evaluate the gammatone envelope at integer times

---
 sample/psycho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index ac3fc8a..ac9dc15 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -597,9 +597,9 @@ class GammatoneFilter:
 
     Returns:
       array: The IR envelope function evaluated at :data:`t`"""
-    tmp = np.empty_like(t)
+    tmp = np.empty_like(t, dtype=float)
     # t + t_c
-    t_ = np.empty_like(t)
+    t_ = np.empty_like(t, dtype=float)
     np.add(t, t_c, out=t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
-- 
2.43.0


From 611b32f4dc0cf38c59500ab0a382a937d6926af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:22 +0000
Subject: [PATCH 16/29] fix: gammatone envelope is zero, not NaN, long before
 the leading time

---
 sample/psycho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/psycho.py b/sample/psycho.py
index ac9dc15..d9978c6 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -603,6 +603,8 @@ class GammatoneFilter:
     np.add(t, t_c, out=t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
+    # Avoid overflow of the exponential long before the leading time
+    np.maximum(t_, 0, out=t_)
     # u(t + t_c) * (t + t_c)^(n-1)
     np.power(t_, n - 1, out=tmp)
     np.multiply(tmp, out, out=out)
-- 
2.43.0


From facb37d067eabbeb401b3b8fd2f6d96966618448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:22 +0000
Subject: [PATCH 17/29] fix: do not lose the last sample of delayed rows in
 strided cochleagrams

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index d9978c6..d5a3fdf 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -851,7 +851,8 @@ class GammatoneFilterbank:
         # Starting index
         x_begins = self._ir_size - ir_sizes - offsets_x
         # Input lengths
-        x_sizes = np.minimum(x_pad.size - x_begins, x.size + 2 * (ir_sizes - 1))
+        x_sizes = np.minimum(x_pad.size - x_begins,
+                             x.size + 2 * (ir_sizes - 1) + offsets_x)
         # Output lengths
         n_wins = np.array([
             dsp_utils.n_windows(x_size, ir_size, hop=stride)
-- 
2.43.0


From 18279fce3c918295c866dc80b83f51adfdf60283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 18/29] fix: strided cochleagram of one-sample impulse
 responses

---
 sample/psycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index d5a3fdf..7eb7c65 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -841,7 +841,7 @@ class GammatoneFilterbank:
       else:
         # Zero-padding for full-convolution
         x_pad = np.zeros(x.size + 2 * (self._ir_size - 1), dtype=x.dtype)
-        x_pad[(self._ir_size - 1):-(self._ir_size - 1)] = x
+        x_pad[(self._ir_size - 1):(self._ir_size - 1 + x.size)] = x
         # Output delay (quantized to stride)
         offsets_s = self.offsets // stride
         # Input delay (quantization residual)
-- 
2.43.0


From 3f477c5cc84bb8dc9b509fe639a72170383d05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 19/29] fix: integer settings parser fails on nan and infinite
 values

---
 sample/widgets/settings.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..f6bc52e 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -123,10 +123,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(float(x), 1))
+  except (ValueError, OverflowError):
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From 3e16e8aab37466a7f1c867473f3926d95b961452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 20/29] fix: strip time parser accepts nan

---
 sample/widgets/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index f6bc52e..5466624 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -69,7 +69,7 @@ def strip_time_parse(x: str) -> Optional[float]:
     x = float(x)
   except ValueError:
     return None
-  if x <= 0:
+  if not x > 0:
     return None
   return x
 
-- 
2.43.0


From 2fdc05191972b2b858074fa41e32f6e99bb0f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 21/29] fix: frequency bounds with a nan are left unordered

---
 sample/widgets/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 5466624..cdb917d 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -153,7 +153,7 @@ def postprocess_fbound(smfb_0: float,
     dict, dict: Postprocessed settings and parameters as dictionaries"""
   if smfb_0 > smfb_1:
     smfb_0, smfb_1 = (smfb_1, smfb_0)
-  elif smfb_0 == smfb_1:
+  elif not smfb_0 < smfb_1:
     smfb_0 = 20
     smfb_1 = 16000
   in_kw = {
-- 
2.43.0


From ea5f930384537cfa44715aeacde9cf05655998be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 22/29] fix: automatic trimming fails when no onset is detected

---
 sample/widgets/audioload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..0177f78 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -179,6 +179,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     """Automatically trim audio via onset detection"""
     onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
     logging.debug("Onsets: %s", onsets)
+    if onsets.size == 0:
+      onsets = (0,)
     onsets = np.array([*onsets, self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
-- 
2.43.0


From 3ec8dc66e90bce8885a99a67c15e57d898dc3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 23/29] fix: loading unsigned integer or floating point WAV
 files

---
 sample/widgets/audioload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 0177f78..619c6a3 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -166,7 +166,10 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
+        if np.issubdtype(x.dtype, np.integer):
+          info = np.iinfo(x.dtype)
+          half_range = (info.max - info.min + 1) / 2
+          x = (x - (info.min + half_range)) / half_range
         if np.ndim(x) > 1:
           x = np.mean(x, axis=-1)
         self.audio_x = x
-- 
2.43.0


From 716797ed9b1a4539f379f8ad5367177b0029cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 24/29] fix: trim range loses samples when shown in seconds

---
 sample/widgets/audioload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 619c6a3..d455a74 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -211,7 +211,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = int(round(value * self.audio_sr))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 7df569dae7ac72a76db70b5e2ad8fb5d28b4dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:41 +0000
Subject: [PATCH 25/29] fix: default beat bounds miss the starting amplitudes
 of tracks of constant amplitude

---
 sample/beatsdrop/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index d74f22e..76dbdc4 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -238,6 +238,7 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
     a_max = np.max(a_lin)
     if a_min == a_max:
       a_min = 0.0
+      a_max = max(a_max, *(2 * a_i for a_i in p[:2]))
       if a_min == a_max:
         a_max = 1.0
     else:
-- 
2.43.0


From 5e90bed9c0c59785ba837d5352ac467f304e057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 26/29] fix: default beat bounds of a constant track keep
 containing the starting amplitudes; silent tracks keep the bound of one

---
 sample/beatsdrop/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index 76dbdc4..55c580a 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -238,9 +238,9 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
     a_max = np.max(a_lin)
     if a_min == a_max:
       a_min = 0.0
-      a_max = max(a_max, *(2 * a_i for a_i in p[:2]))
       if a_min == a_max:
         a_max = 1.0
+      a_max = max(a_max, *p[:2])
     else:
       a_max = max(a_max, *p[:2])
       a_min = min(a_min, *p[:2])
-- 
2.43.0


From 0e6ac1f5a2b7a0079a7645249b6eef4e8ca24d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:15 +0000
Subject: [PATCH 27/29] fix: concurrent workers can lose values in a shared
 intermediate storage

---
 sample/_training.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index edd94f4..73f2ee0 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -5,6 +5,7 @@ import functools
 import itertools
 import multiprocessing
 import multiprocessing.managers
+import threading
 from typing import Generator, Callable, Iterable, Optional
 
 import sample.utils
@@ -14,13 +15,43 @@ mp = multiprocessing
 utils = sample.utils
 
 
+class _SharedStorage(utils.learn.OptionalStorage):
+  """Storage shared by many processes. Managers serve every client in a thread
+  of its own, so that the operations on the storage have to exclude each other
+
+  Args:
+    save (bool): Determines if the storage is actually operational"""
+
+  def __init__(self, save: bool = False):
+    super().__init__(save=save)
+    self._lock = threading.RLock()
+
+  def __getitem__(self, key):
+    with self._lock:
+      return super().__getitem__(key)
+
+  def get_state(self, deepcopy: bool = True):
+    with self._lock:
+      return super().get_state(deepcopy=deepcopy)
+
+  def reset(self):
+    with self._lock:
+      return super().reset()
+
+  def append(self, key, value, index: Optional[int] = None):
+    with self._lock:
+      return super().append(key, value, index=index)
+
+  __call__ = append
+
+
 class _OptionalStorageManager(mp.managers.SyncManager):
   """Multiprocessing manager for :class:`sample.utils.learn.OptionalStorage`"""
 
 
 _OptionalStorageManager.register(
     "OptionalStorage",
-    utils.learn.OptionalStorage,
+    _SharedStorage,
     exposed=(
         *mp.managers.public_methods(utils.learn.OptionalStorage),
         "__getitem__",
-- 
2.43.0


From b4155c727e1ec8205b65db57298a7a5ef2e032cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:11 +0000
Subject: [PATCH 28/29] fix: keep the lower frequency limit of random beats
 non-negative for large beat frequencies

---
 sample/evaluation/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/evaluation/random.py b/sample/evaluation/random.py
index 7d73242..d0859e5 100644
--- a/sample/evaluation/random.py
+++ b/sample/evaluation/random.py
@@ -165,8 +165,8 @@ class BeatsGenerator:
         a=self.f_a,
         b=self.f_b,
         left=psycho.hz2bark(self.f_min) - min(
-            (psycho.hz2bark(self.f_min) - psycho.hz2bark(self.f_min - beat_hz),
-             delta_bark, 0)),
+            (psycho.hz2bark(self.f_min) -
+             psycho.hz2bark(self.f_min - min(beat_hz, 0)), delta_bark, 0)),
         right=psycho.hz2bark(self.f_max) - max(
             (psycho.hz2bark(self.f_max) - psycho.hz2bark(self.f_max - beat_hz),
              delta_bark, 0)),
-- 
2.43.0


From f870458b1d4e3867c4973a3ddfbd8bdb0e622b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 29/29] fix: restore the storages of a model even if the
 manager of the shared ones is gone

---
 sample/_training.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index 73f2ee0..0ad19f8 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -180,4 +180,6 @@ def _wrap_as_managed(mp_manager: mp.managers.BaseManager,
       if isinstance(original, utils.learn.OptionalStorage):
         original.cache_ = managed.get_state()
     finally:
-      model.set_params(**{key: original})
+      # The manager may be gone: set_params would query the shared storage
+      *path, name = key.split("__")
+      setattr(functools.reduce(getattr, path, model), name, original)
-- 
2.43.0

