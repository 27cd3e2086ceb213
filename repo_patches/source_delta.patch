From b464c6c17a42c2728b2b1b54aca107da9baf386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 01/34] fix: FirFilter and IirFilter truncate signals to
 integers when coefficients are integers

---
 diamondback/filters/fir_filter.py | 3 ++-
 diamondback/filters/iir_filter.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..94a7356 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -208,7 +208,8 @@ class FirFilter(object):
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
         super().__init__()
-        self._b, self._s = numpy.array(b), numpy.array(s, type(b[0]))
+        self._b = numpy.array(b, numpy.result_type(b, float))
+        self._s = numpy.array(s, numpy.result_type(self._b, s))
 
     def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
         """Estimates group delay and produces a reference signal.
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..20a6818 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -202,7 +202,7 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
-        self._a = numpy.array(a)
+        self._a = numpy.array(a, numpy.result_type(a, float))
 
     @staticmethod
     def _evaluate(style: str, frequency: float, order: int) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 703afed75e5de65e68e6c0e385f211b4d54a1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 02/34] fix: FirFilter, IirFilter, PidFilter, RankFilter
 discard the imaginary part of a complex signal

---
 diamondback/filters/fir_filter.py  | 6 +++++-
 diamondback/filters/iir_filter.py  | 8 ++++++--
 diamondback/filters/pid_filter.py  | 4 +++-
 diamondback/filters/rank_filter.py | 4 +++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 94a7356..9985b2a 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -256,7 +256,9 @@ class FirFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        if numpy.iscomplexobj(x):
+            self.s = numpy.array(self.s, complex)
+        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[1:] = self.s[:-1]
@@ -275,6 +277,8 @@ class FirFilter(object):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        if numpy.iscomplexobj(x):
+            self.s = numpy.array(self.s, complex)
         self.s[:] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 20a6818..6b39019 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -197,7 +197,7 @@ class IirFilter(FirFilter):
             a = numpy.concatenate((a, numpy.zeros(len(b) - len(a))))
         if len(b) < len(a):
             b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
-        if (isinstance(a[0], complex)) or (isinstance(b[0], complex)):
+        if numpy.iscomplexobj(a) or numpy.iscomplexobj(b):
             a, b = numpy.array(a, complex), numpy.array(b, complex)
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
@@ -301,7 +301,9 @@ class IirFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        if numpy.iscomplexobj(x):
+            self.s = numpy.array(self.s, complex)
+        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[0] += self.a.dot(self.s)
@@ -322,6 +324,8 @@ class IirFilter(FirFilter):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        if numpy.iscomplexobj(x):
+            self.s = numpy.array(self.s, complex)
         if len(self.s) > 1:
             self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
         self.s[0] = x
diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index bb2f596..34b21bb 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -79,7 +79,9 @@ class PidFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        if numpy.iscomplexobj(x):
+            self.s = numpy.array(self.s, complex)
+        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             self.s[2] = x[ii] - self.s[0]
             if abs(self.s[1] + x[ii]) < self.limit:
diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..488af46 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,9 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        if numpy.iscomplexobj(x):
+            self.s = numpy.array(self.s, complex)
+        y = numpy.zeros(len(x), self.s.dtype)
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From 4ba54b2ffdb77f9c10ff582c37875941a4448bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 03/34] fix: PolyphaseRateFilter loses samples and phase at the
 end of each call

---
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..2bb70de 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -149,7 +149,7 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.round(len(x) * self.rate)))
+        y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + 1)
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
         ii, jj = 0, 0
-- 
2.43.0


From 293a90f9af99118ca7208d3fdba91bf1a1aa177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/34] fix: WaveletTransform truncates integer signals

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..6ae3b21 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -533,7 +533,7 @@ class WaveletTransform(object):
             x = numpy.array(list(x))
         if (len(x.shape) > 2) or (not len(x)):
             raise ValueError(f"X = {x}")
-        v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
+        v = numpy.array(x if (len(x.shape) == 2) else [x], numpy.result_type(x, float))
         rows, cols = v.shape
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-- 
2.43.0


From fd75e407321ec651d234716a991a431f641ef4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 05/34] fix: ComplexTransform fails on a complex signal of
 shape (1, n)

---
 diamondback/transforms/complex_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..22387c3 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,9 +93,9 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
-            v = x
+            v = numpy.reshape(x, cols)
             if not neutral:
-                v = x / ComplexTransform.GAIN
+                v = v / ComplexTransform.GAIN
             y = numpy.matmul(
                 numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                 numpy.array([v.real, v.imag, numpy.zeros(cols)]),
-- 
2.43.0


From 38f819176f8e9712ba9b772a979dd08a4fa892f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/34] fix: ZTransform normalizes the caller's coefficient
 arrays in place and rejects integers

---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From e94cb9ea8aa25135e419cf09b96e969aaab6ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 07/34] fix: DiversityModel.clear replaces the order with the
 signal dimension

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..0cb5f23 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From b3916ae1b448a33f8502445051a3367e4de9a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 08/34] fix: GaussianModel normalizes covariance by dimension
 instead of sample count

---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..8324b8d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             self._model.append(dict(covariancei=i, mean=u))
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From 13fa0bab5f4dd9936f8c7b3c3e34306d2fbd2e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/34] fix: PolyphaseRateFilter with zero rate produces an
 empty signal as before

---
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 2bb70de..f55c4cc 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -149,7 +149,7 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + 1)
+        y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + bool(self.rate))
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
         ii, jj = 0, 0
-- 
2.43.0


From 1be16f55db341c89ee2d242ba8eb4dd8b694b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 10/34] fix: WaveletTransform synthesis discards the imaginary
 part of a complex signal

---
 diamondback/transforms/wavelet_transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 6ae3b21..17b83b2 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -568,18 +568,18 @@ class WaveletTransform(object):
                 jj = max(cc // 2, 1)
                 y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)
             if rr > 1:
-                u = numpy.zeros(rr)
+                u = numpy.zeros(rr, y.dtype)
                 for jj in range(0, cc):
-                    w = numpy.zeros(rr)
+                    w = numpy.zeros(rr, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]
                         fir_filter[kk].s[:] = 0.0
                         w += 2.0 * fir_filter[kk].filter(u)
                     y[:rr, jj] = w
             if cc > 1:
-                u = numpy.zeros(cc)
+                u = numpy.zeros(cc, y.dtype)
                 for ii in range(0, rr):
-                    w = numpy.zeros(cc)
+                    w = numpy.zeros(cc, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)]
                         fir_filter[kk].s[:] = 0.0
-- 
2.43.0


From 2b1a81ab1005aa00440f93e6c45795b2e968d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 11/34] fix: DiversityModel first replacement may reduce
 diversity

---
 diamondback/models/diversity_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 0cb5f23..b5c5b28 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -149,6 +149,10 @@ class DiversityModel(object):
                 self.s[cc, :] = x[ii, :]
                 cc += 1
             else:
+                self._diversity = min(
+                    (self._distance(self.s[uu, :], self.s[vv, :]) for uu in range(0, cc - 1) for vv in range(uu + 1, cc)),
+                    default=self._diversity,
+                )
                 v, jj = self._diversity, -1
                 for kk in range(0, cc):
                     u, s = numpy.inf, numpy.array(self.s)
-- 
2.43.0


From 9bf765f1e2bc9502cb677d65a3db32920557f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 12/34] fix: GaussianModel, GaussianMixtureModel predict
 positions rather than labels, and a failed fit discards a model

---
 diamondback/models/gaussian_mixture_model.py | 11 ++++++-----
 diamondback/models/gaussian_model.py         | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..fdaef7f 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -78,6 +78,7 @@ class GaussianMixtureModel(object):
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
         self._index = index
+        self._label = numpy.zeros(0, int)
         self._model: list[sklearn.mixture.GaussianMixture] = []
         self._order = order
         self._regularize = regularize
@@ -100,9 +101,8 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
-        for ii in sorted(set(y)):
+        label, models = numpy.unique(y), []
+        for ii in label:
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
                 covariance_type="full",
@@ -111,7 +111,8 @@ class GaussianMixtureModel(object):
                 reg_covar=self.regularize,
             )
             model.fit(z)
-            self._model.append(model)
+            models.append(model)
+        self._label, self._model, self._shape = label, models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
@@ -149,4 +150,4 @@ class GaussianMixtureModel(object):
                         model.weights_[kk],
                     )
                     v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
-        return numpy.fliplr(numpy.argsort(v, axis=1))
+        return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 8324b8d..39191d4 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -56,6 +56,7 @@ class GaussianModel(object):
 
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
+        self._label = numpy.zeros(0, int)
         self._model: list[dict[Any, Any]] = []
         self._regularize = regularize
         self._shape = ()
@@ -77,14 +78,14 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        label, models = numpy.unique(y), []
         r = self.regularize * numpy.identity(x.shape[1])
-        for ii in sorted(set(y)):
+        for ii in label:
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
-            self._model.append(dict(covariancei=i, mean=u))
+            models.append(dict(covariancei=i, mean=u))
+        self._label, self._model, self._shape = label, models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
@@ -116,4 +117,4 @@ class GaussianModel(object):
                 model = self._model[ii]
                 i, u = model["covariancei"], model["mean"]
                 v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
-        return numpy.argsort(v, axis=1)
+        return self._label[numpy.argsort(v, axis=1)]
-- 
2.43.0


From 5f64ebdc8b6ddedf9f7d0ab2e2148ad0760b3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 13/34] fix: GoertzelFilter ignores a modified frequency and
 mistakes complex64 for real

---
 diamondback/filters/goertzel_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..9155103 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
@@ -112,7 +114,7 @@ class GoertzelFilter(IirFilter):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From ff8de1c7b25c541d60d50021702cc16393b1234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 14/34] fix: ComplexFrequencyFilter ignores its initial
 frequency

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..254e5d6 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From ca44cafad8497d027186d0903d3165a4690f6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 15/34] fix: ComplexBandpassFilter, ComplexFrequencyFilter fail
 on a complex signal without imaginary part

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 254e5d6..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From 52cbdc2b924b22c58ac4687b60e8aab8139b0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 16/34] fix: FourierTransform is not reversible and mislabels
 frequency for an odd length

---
 diamondback/transforms/fourier_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..4f7de14 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -89,12 +89,12 @@ class FourierTransform(object):
         if inverse:
             if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
                 v[0], v[-1] = v[1], v[-2]
-            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
+            y = numpy.fft.ifftshift(u)
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                2.0 * numpy.fft.fftshift(numpy.fft.fftfreq(len(u))),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.fft.fftshift(y)
         return y, f
-- 
2.43.0


From 0b5c93c64521848823b81be598ae1b173c5c508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 17/34] fix: FirFilter, IirFilter response and delay mislabel
 frequency for an odd length

---
 diamondback/filters/fir_filter.py | 8 ++++----
 diamondback/filters/iir_filter.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 9985b2a..49951e7 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -233,9 +233,9 @@ class FirFilter(object):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                2.0 * numpy.fft.fftshift(numpy.fft.fftfreq(length)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.fft.fftshift(y) * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -301,9 +301,9 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         y, f = (
             freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+            2.0 * numpy.fft.fftshift(numpy.fft.fftfreq(length)),
         )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        y = numpy.fft.fftshift(y) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 6b39019..a47be0a 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -275,9 +275,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                2.0 * numpy.fft.fftshift(numpy.fft.fftfreq(length)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.fft.fftshift(y) * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -352,9 +352,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                2.0 * numpy.fft.fftshift(numpy.fft.fftfreq(length)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            y = numpy.fft.fftshift(y) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 625fa7aec9113871de7b507f47205a3101d7ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 18/34] fix: PolynomialRateFilter fails at rate zero for an
 order above one

---
 diamondback/filters/polynomial_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 98ee119..c653f4e 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -122,7 +122,7 @@ class PolynomialRateFilter(object):
                     [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2]],
                 )
             )
-            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate
+            u, v = numpy.linspace(-1.0, 2.0, 4), (1.0 / self.rate) if self.rate else numpy.inf
             ii, jj = 0, 0
             index = 0.0
             while ii < cc:
-- 
2.43.0


From 749bfc0e3a1ebace874fbd8e592211f70579fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 19/34] fix: FourierTransform inverse replaces a window end
 that is not zero

---
 diamondback/transforms/fourier_transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 4f7de14..fb07419 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -87,8 +87,10 @@ class FourierTransform(object):
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
         if inverse:
-            if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
-                v[0], v[-1] = v[1], v[-2]
+            if numpy.isclose(v[0], 0.0):
+                v[0] = v[1]
+            if numpy.isclose(v[-1], 0.0):
+                v[-1] = v[-2]
             y = numpy.fft.ifftshift(u)
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
-- 
2.43.0


From 5f7c65bfef5e2be86e0f4b3657462441ac59f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 20/34] fix: PsdTransform mislabels and omits frequencies for
 an odd length

---
 diamondback/transforms/psd_transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..52bb6ec 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -99,9 +99,9 @@ class PsdTransform(object):
         if len(x) < len(b):
             raise ValueError(f"X = {x}")
         y = [
-            numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
+            numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: (len(b) + 1) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
-        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
-        )
+        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), 2.0 * numpy.arange(
+            (len(b) + 1) // 2
+        ) / len(b)
-- 
2.43.0


From 7217d70590ba9a8156de01974af0e6576ea8675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 21/34] fix: FourierTransform overflows for narrow integer
 signals and windows

---
 diamondback/transforms/fourier_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index fb07419..8056f2a 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -85,7 +85,7 @@ class FourierTransform(object):
         if (len(b) > len(x)) or (numpy.isclose(b, 0.0).all()):
             raise ValueError(f"B = {b}")
         u = numpy.array(x[: len(b)])
-        v = numpy.array(b)
+        v = numpy.array(b, numpy.result_type(b, float))
         if inverse:
             if numpy.isclose(v[0], 0.0):
                 v[0] = v[1]
-- 
2.43.0


From 68164c63e2480f28b15ccd6fa69ea33ce5f7570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 22/34] fix: PsdTransform overflows for narrow integer signals
 and windows

---
 diamondback/transforms/psd_transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 52bb6ec..cfc050b 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -96,6 +96,7 @@ class PsdTransform(object):
             b = numpy.array(list(b))
         if (not len(b)) or (numpy.isclose(b, 0.0).all()):
             raise ValueError(f"B = {b}")
+        b = numpy.array(b, numpy.result_type(b, float))
         if len(x) < len(b):
             raise ValueError(f"X = {x}")
         y = [
-- 
2.43.0


From ab6210ac16d0df2bdaab0b68581d72dbf948e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 23/34] fix: WaveletTransform Daubechies 11 coefficient lacks a
 digit

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 17b83b2..c0e5b42 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.0010773010853085,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From ebc4c0235df38c4e8677705e3d91ed0c09e08148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 24/34] fix: WaveletTransform Coiflet 5 coefficients are not
 orthogonal

---
 diamondback/transforms/wavelet_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index c0e5b42..bd714c8 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.07273261951253,
+                    0.33789766245748,
+                    0.85257202021160,
+                    0.38486484686486,
+                    -0.07273261951253,
+                    -0.01565572813579,
                 ]
             ),
             11: numpy.array(
-- 
2.43.0


From 4a8b6358e78bcc6317caf2ecc41aed4c50e1fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 25/34] fix: coefficient and state settings alias the assigned
 array and reject a list

---
 diamondback/filters/fir_filter.py            | 4 ++--
 diamondback/filters/iir_filter.py            | 2 +-
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 diamondback/models/diversity_model.py        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 49951e7..c098253 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,7 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = b
+        self._b = numpy.array(b, numpy.result_type(numpy.asarray(b), float))
 
     @property
     def s(self):
@@ -119,7 +119,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), float))
 
     def __init__(
         self,
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a47be0a..73742cd 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = a
+        self._a = numpy.array(a, numpy.result_type(numpy.asarray(a), float))
 
     def __init__(
         self,
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index f55c4cc..1c2ec33 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), float))
 
     def __init__(self, rate: float) -> None:
         """Initialize.
diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index b5c5b28..6d9d2d2 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), float))
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0


From 8034f05c35938402bd9adcd7deaf00631e92d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 26/34] fix: DiversityModel cannot be serialized

---
 diamondback/models/diversity_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 6d9d2d2..9e00f29 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -108,7 +108,7 @@ class DiversityModel(object):
         if order < 0:
             raise ValueError(f"Order = {order} Expected Order in [0, inf)")
         super().__init__()
-        self._distance = DiversityModel.DISTANCE[style]
+        self._style = style
         self._diversity = 0.0
         self._s = numpy.zeros((order + 1, 0))
 
@@ -138,6 +138,7 @@ class DiversityModel(object):
             self.s = numpy.zeros((self.s.shape[0], x.shape[1])) + numpy.finfo(float).max
         if x.shape[1] != self.s.shape[1]:
             raise ValueError(f"X = {x.shape} S = {self.s.shape}")
+        distance = DiversityModel.DISTANCE[self._style]
         cc = 0
         for ii in range(0, self.s.shape[0]):
             if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max):
@@ -150,7 +151,7 @@ class DiversityModel(object):
                 cc += 1
             else:
                 self._diversity = min(
-                    (self._distance(self.s[uu, :], self.s[vv, :]) for uu in range(0, cc - 1) for vv in range(uu + 1, cc)),
+                    (distance(self.s[uu, :], self.s[vv, :]) for uu in range(0, cc - 1) for vv in range(uu + 1, cc)),
                     default=self._diversity,
                 )
                 v, jj = self._diversity, -1
@@ -159,7 +160,7 @@ class DiversityModel(object):
                     s[kk, :] = x[ii, :]
                     for uu in range(0, cc - 1):
                         for vv in range(uu + 1, cc):
-                            d = self._distance(s[uu, :], s[vv, :])
+                            d = distance(s[uu, :], s[vv, :])
                             if d < u:
                                 u = d
                     if u > v:
-- 
2.43.0


From 69fc5452cecfec1db4e224c44345bd13b471857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 27/34] fix: PolyphaseRateFilter decoded in another process has
 no filter bank

---
 diamondback/filters/polyphase_rate_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 1c2ec33..85f72dc 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -88,7 +88,7 @@ class PolyphaseRateFilter(object):
 
     @property
     def b(self):
-        return PolyphaseRateFilter.B
+        return self._b
 
     @property
     def rate(self):
@@ -129,6 +129,7 @@ class PolyphaseRateFilter(object):
             for ii in range(0, rr):
                 b[ii, :] /= sum(b[ii, :])
             PolyphaseRateFilter.B = b
+        self._b = b
         self._index = 0
         self._rate = rate
         self._s = numpy.zeros(cc)
@@ -150,7 +151,7 @@ class PolyphaseRateFilter(object):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + bool(self.rate))
-        b = PolyphaseRateFilter.B
+        b = self.b
         rr = b.shape[0]
         ii, jj = 0, 0
         while (ii < len(x)) and (jj < len(y)):
-- 
2.43.0


From 27e8cc866f24bf467238179800bcfb0e3907f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 28/34] fix: Log.write locates the exception being handled
 rather than the exception written

---
 diamondback/commons/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 96ebc6f..48e458a 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -151,8 +151,8 @@ class Log(object):
                 raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
+                    info = entry.__traceback__
                     entry = f"Exception = {type(entry).__name__} {entry}"
-                    info = sys.exc_info()[-1]
                     while info:
                         entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                         info = info.tb_next
-- 
2.43.0


From eeda7784df210a1f041cb5673a49de1bcc8f03a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 29/34] fix: Log.write initializes the stream when the level is
 rejected

---
 diamondback/commons/log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 48e458a..92a5a3c 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -143,12 +143,12 @@ class Log(object):
         """
 
         with Log._rlock:
-            if not Log._identity:
-                Log.stream(sys.stdout)
             try:
                 v = logger.level(level.upper())
             except Exception as ex:
                 raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
+            if not Log._identity:
+                Log.stream(sys.stdout)
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
                     info = entry.__traceback__
-- 
2.43.0


From 4d4a9fd7beb41990e6e35ac50fcd729b0c51b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 30/34] fix: Log.stream discards the present stream when a
 stream is rejected

---
 diamondback/commons/log.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 92a5a3c..3a435b8 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -123,13 +123,14 @@ class Log(object):
         with Log._rlock:
             if (not stream) or (not hasattr(stream, "write")):
                 raise ValueError(f"Stream = {stream} Expected Write")
-            with contextlib.suppress(ValueError):
-                logger.remove(Log._identity)
-            Log._identity = logger.add(
+            identity = logger.add(
                 stream,
                 level=0,
                 format="<blue>{time:YYYY-MM-DDTHH:mm:ss.SSZ}</blue> <level>{level}</level> {message}",
             )
+            with contextlib.suppress(ValueError):
+                logger.remove(Log._identity)
+            Log._identity = identity
 
     @classmethod
     def write(cls, level: str, entry: str | Exception) -> None:
-- 
2.43.0


From a38ca9920c931cdda1b3daa944e6443918f92dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 31/34] fix: PolyphaseRateFilter instances share one filter
 bank

---
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 85f72dc..8537033 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -129,7 +129,7 @@ class PolyphaseRateFilter(object):
             for ii in range(0, rr):
                 b[ii, :] /= sum(b[ii, :])
             PolyphaseRateFilter.B = b
-        self._b = b
+        self._b = numpy.array(b)
         self._index = 0
         self._rate = rate
         self._s = numpy.zeros(cc)
-- 
2.43.0


From 79b746eed2ea09fe9670681d8b9f42fa07f7a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 32/34] fix: IirFilter with a state longer than its
 coefficients raises an error

---
 diamondback/filters/iir_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 73742cd..6ce3fa6 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -193,8 +193,8 @@ class IirFilter(FirFilter):
             a = numpy.array(list(a))
         if (len(a) > 0) and (a[0]):
             raise ValueError(f"A = {a}")
-        if len(a) < len(b):
-            a = numpy.concatenate((a, numpy.zeros(len(b) - len(a))))
+        if len(a) < max(len(b), len(s)):
+            a = numpy.concatenate((a, numpy.zeros(max(len(b), len(s)) - len(a))))
         if len(b) < len(a):
             b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
         if numpy.iscomplexobj(a) or numpy.iscomplexobj(b):
-- 
2.43.0


From 6402e22cde264f290b1efc1d50060bf369257b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:30 +0000
Subject: [PATCH 33/34] fix: ComplexExponentialFilter accepts the least number
 of an integer type

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..0e7765e 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -79,7 +79,7 @@ class ComplexExponentialFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
+        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(1.0 * x) > 1.0).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
         phase = self.phase
-- 
2.43.0


From 9beade92ff7e9883969aca02254b494933cd7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:18 +0000
Subject: [PATCH 34/34] fix: the design of an IIR filter damps a search that
 oscillates, and reaches -3 dB

---
 diamondback/filters/iir_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 6ce3fa6..c40e335 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -170,7 +170,7 @@ class IirFilter(FirFilter):
                 frequency = 1.0 - frequency
             eps, error = float(numpy.finfo(float).eps), numpy.inf
             index, rate, scale = 500, 3.0e-2 * (1.0 - 0.5 * ((order > 8) or ((order > 6) and (count > 1)))), 1.0
-            a, b = numpy.array([]), numpy.array([])
+            a, b, last = numpy.array([]), numpy.array([]), 0.0
             for _ in range(0, index):
                 u, v = IirFilter._evaluate(style, scale * frequency, order)
                 x = numpy.exp(1j * math.pi * frequency)
@@ -181,6 +181,9 @@ class IirFilter(FirFilter):
                     a, b, error = u, v, abs(e)
                     if error < (10e3 * eps):
                         break
+                if (e * last < 0.0) and (abs(e) > 0.9 * abs(last)):
+                    rate *= 0.5
+                last = e
                 scale = max(scale + rate * e, eps)
             if complement:
                 a *= numpy.array([((-1.0) ** x) for x in range(0, len(a))])
-- 
2.43.0

