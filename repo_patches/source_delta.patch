From efc6206eea436740cfbfbd659bf33fc18c1f8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 01/57] fix: return a labelled DataFrame/Series when columns
 are known but there is no date index

path_sample(columns=...) and path_sample() on a model fitted to pandas data without a
DatetimeIndex raised UnboundLocalError because the index was never set.
---
 quantfinlib/sim/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..13f0e0e 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -290,6 +290,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
-- 
2.43.0


From bedad7b4f10cddceeade41719bb525f0965e38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 02/57] fix: path_sample(include_x0=False) must not raise when
 the result is a Series

---
 quantfinlib/sim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 13f0e0e..96c0f7d 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -313,7 +313,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From 84cd93d58d73c4571e4df0f0fbcdd01321d8f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 03/57] fix: derive the default dt of path_sample from
 label_freq, as documented

---
 quantfinlib/sim/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 96c0f7d..1b250a6 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -222,7 +222,10 @@ class SimBase(ABC):
 
         x0 = x0.reshape(1, -1)
 
-        # if dt not t is provided then align dt with the fitting()
+        # if dt is not provided then use the label_freq, or else align dt with the fitting()
+        if dt is None:
+            if label_freq is not None:
+                dt = time_series_freq_to_duration(label_freq)
         if dt is None:
             if is_fitted:
                 dt = self.fit_dt_
-- 
2.43.0


From 21aca1ff5fc2f0421c2960d7706f7866549eb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 04/57] fix: do not print debug output to stdout while
 simulating

---
 quantfinlib/sim/_base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 1b250a6..5e79dd7 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -87,8 +87,6 @@ def _triangular_index(T_n: int) -> int:
 
 
 def _make_cor_from_upper_tri(values: _SimFitDataType) -> np.ndarray:
-    print("_make_cor_from_upper_tri", values)
-
     values = _to_numpy(values)
 
     # We support 1 list, or a row/col from a matrix, as long as it's effectively 1d
@@ -202,7 +200,6 @@ class SimBase(ABC):
             else:
                 x0 = np.array([[self.x0_default]])
         elif isinstance(x0, str):
-            print(x0, is_fitted, need_datetime_index, label_start)
             if x0 == "first":
                 if not is_fitted:
                     raise ValueError('x0: "first" can not be used because the model is not fitted.')
-- 
2.43.0


From 1d2cf2ec16608da24b1e81805a66625497e15d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 05/57] fix: map anchored pandas frequencies (W-SUN, QE-DEC,
 YE-DEC) to their duration

pandas.infer_freq reports weekly, quarterly and yearly indices with an anchor, so fit() on
such data raised 'Unable to determine dt based on freq'.
---
 quantfinlib/_datatypes/timeseries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 4cf113d..f850ad8 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -151,7 +151,8 @@ def time_series_freq_to_duration(freq: str) -> Optional[float]:
 
     This function takes a frequency code representing the time series resolution
     and returns the corresponding duration in years. The mapping is based on the
-    private dictionary `_time_series_freq_to_duration_map`.
+    private dictionary `_time_series_freq_to_duration_map`. An anchor suffix, such as in
+    'W-SUN' or 'QE-DEC', is ignored.
 
     Parameters
     ----------
@@ -196,4 +197,7 @@ def time_series_freq_to_duration(freq: str) -> Optional[float]:
 
     #  secs = pd.to_timedelta(pd.tseries.frequencies.to_offset("H")).total_seconds()
 
+    # pandas reports weekly, quarterly and yearly frequencies with an anchor, e.g. "W-SUN" or "QE-DEC"
+    if isinstance(freq, str):
+        freq = freq.split("-")[0]
     return _time_series_freq_to_duration_map.get(freq, None)
-- 
2.43.0


From eed6d3adfe60f7af7c2d5bee5b7b1ff68cd1d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 06/57] fix: nll(), aic() and bic() must not change the fitted
 state of the model

Evaluating the likelihood of a path replaced the x0, dt and labels remembered from fit().
---
 quantfinlib/sim/_base.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 5e79dd7..8b03523 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -155,27 +155,38 @@ class SimBase(ABC):
     ) -> Tuple[np.ndarray, float]:
         r"""Inspect and normalizer the X and dt value provided to the fit function."""
 
+        values, dt = self._get_values_and_dt(x, dt)
+
         self.fit_container_dtype_ = type(x)
         self.fit_column_names_ = _get_column_names(x)
         self.fit_index_ = _DateTimeIndexInfo(x)
-
-        values = _to_numpy(x)
-        if values.ndim == 1:
-            values = values.reshape(-1, 1)
         self.fit_num_cols_ = values.shape[1]
         self.fit_x0_ = values[0, :].reshape(1, -1)
         self.fit_xn_ = values[-1, :].reshape(1, -1)
         self.fit_num_rows_ = values.shape[0]
+        self.fit_dt_ = dt
+
+        return values, dt
+
+    @staticmethod
+    def _get_values_and_dt(
+        x: Union[list, np.ndarray, pd.DataFrame, pd.Series], dt: Optional[Union[float, int]]
+    ) -> Tuple[np.ndarray, float]:
+        r"""Convert x to a 2d array, and infer dt if it is not provided, without changing the model."""
+
+        values = _to_numpy(x)
+        if values.ndim == 1:
+            values = values.reshape(-1, 1)
 
         # if dt is not provided then we need to infer it
         if dt is None:
-            if self.fit_index_.freq_ is not None:
-                dt = time_series_freq_to_duration(self.fit_index_.freq_)
+            freq = _DateTimeIndexInfo(x).freq_
+            if freq is not None:
+                dt = time_series_freq_to_duration(freq)
                 if dt is None:
-                    raise ValueError("Unable to determine dt based on freq", self.fit_index_.freq_)
+                    raise ValueError("Unable to determine dt based on freq", freq)
             else:
                 dt = 1 / 252  # Defualt
-        self.fit_dt_ = dt
 
         return values, dt
 
@@ -436,7 +447,7 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = self._get_values_and_dt(x, dt)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -455,7 +466,7 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = self._get_values_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -474,6 +485,6 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = self._get_values_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From f9af83b8d4572f49d9f06607112ab4e9356872bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 07/57] fix: aic() and bic() use the total log-likelihood once

nll() is already the sum over all observations; AIC = 2k + 2 nll and BIC = k ln(n) + 2 nll.
---
 quantfinlib/sim/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 8b03523..258263a 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -467,8 +467,7 @@ class SimNllMixin:
 
         """
         values, dt = self._get_values_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -486,5 +485,5 @@ class SimNllMixin:
             The computed Bayesian Information Criterion (BIC) value.
         """
         values, dt = self._get_values_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        num_samples = values.shape[0]
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
-- 
2.43.0


From 6a49f624e59673a00a6b79f39d0265733670c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 08/57] fix: OrnsteinUhlenbeck.fit() keeps the parameters of
 every column

Only the slope and intercept of the last column were used, as scalars, so a multivariate
fit was wrong and a fitted model could not simulate at all.
---
 quantfinlib/sim/_ou.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..fb51cbf 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -201,8 +201,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         num_series = x.shape[1]
 
         # Prepare to store slopes and intercepts
-        slopes = np.zeros(num_series)
-        intercepts = np.zeros(num_series)
+        slopes = np.zeros((1, num_series))
+        intercepts = np.zeros((1, num_series))
         residuals = np.zeros((x.shape[0] - 1, x.shape[1]))
 
         # Loop through each time series
@@ -226,8 +226,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
                 intercept = np.mean(lin_y)
 
             # Store the results
-            slopes[i] = slope
-            intercepts[i] = intercept
+            slopes[0, i] = slope
+            intercepts[0, i] = intercept
 
             # Compute the predicted y-values
             y_pred = slope * lin_x + intercept
@@ -246,9 +246,9 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
-        self.mrr = -np.log(slope) / dt
-        self.mean = intercept / (1 - slope)
-        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        self.mrr = -np.log(slopes) / dt
+        self.mean = intercepts / (1 - slopes)
+        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
         return self
 
-- 
2.43.0


From 633dc63441373eb8d8126afecde9155d7a99777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 09/57] fix: simulate several paths of a multivariate
 OrnsteinUhlenbeck model

---
 quantfinlib/sim/_ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index fb51cbf..8d10dfc 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -280,7 +280,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.resize(mrr_factor, ans.shape[1])
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From b702f44c1bc28694216d2be980874c2986cc496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 10/57] fix: GeometricBrownianMotion.fit() estimates the drift
 the simulation uses

Log returns have mean (drift - vol^2 / 2) dt, so the Ito correction must be added back.
---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..adc0b93 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
-- 
2.43.0


From 417a85f05b070b6373f6fdbb03ac8d9d03d46e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 11/57] fix: scale the mean log return with dt in the
 GeometricBrownianMotion likelihood

---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index adc0b93..afb2b65 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From 8835ed48e44a854331852b62926e2e9ec06fb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 12/57] fix: count the parameters of multivariate and fitted
 models

num_parameters_ used the number of rows of (1, n) arrays and was not updated by fit(),
which made aic() and bic() wrong for multivariate models.
---
 quantfinlib/sim/_bm.py  | 9 +++++++--
 quantfinlib/sim/_gbm.py | 9 +++++++--
 quantfinlib/sim/_ou.py  | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..6740346 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -154,9 +154,12 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
+        self._update_num_parameters()
+
+    def _update_num_parameters(self):
+        self.num_parameters_ = self.drift.size + self.vol.size
         if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+            self.num_parameters_ += len(self.cor) * (len(self.cor) - 1) // 2
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -186,6 +189,8 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._update_num_parameters()
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index afb2b65..00e4950 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -162,9 +162,12 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
+        self._update_num_parameters()
+
+    def _update_num_parameters(self):
+        self.num_parameters_ = self.drift.size + self.vol.size
         if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+            self.num_parameters_ += len(self.cor) * (len(self.cor) - 1) // 2
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -194,6 +197,8 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._update_num_parameters()
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 8d10dfc..ef17fe5 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -184,9 +184,12 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
+        self._update_num_parameters()
+
+    def _update_num_parameters(self):
+        self.num_parameters_ = self.mean.size + self.mrr.size + self.vol.size
         if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+            self.num_parameters_ += len(self.cor) * (len(self.cor) - 1) // 2
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -250,6 +253,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mean = intercepts / (1 - slopes)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
+        self._update_num_parameters()
+
         return self
 
     def _path_sample_np(
-- 
2.43.0


From 6e04f298aa45c3d22e03a0b2ce42f75f083ddaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:57 +0000
Subject: [PATCH 13/57] fix: infer the label frequency of nearly regular data
 (business days with holidays)

A model fitted to e.g. the VIX dataset raised AssertionError in path_sample(), because
pandas.infer_freq gives up on business days with holidays left out.
---
 quantfinlib/sim/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 258263a..64e9400 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -17,7 +17,7 @@ from typing import Any, List, Optional, Tuple, Union
 import numpy as np
 import pandas as pd
 
-from quantfinlib._datatypes.timeseries import time_series_freq_to_duration
+from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
 
 _SimFitDataType = Union[int, float, list, np.ndarray, pd.DataFrame, pd.Series]
 
@@ -128,7 +128,8 @@ class _DateTimeIndexInfo:
             self.name_ = index.name
             self.min_ = index.min()
             self.max_ = index.max()
-            self.freq_ = pd.infer_freq(x.index)
+            # real-world data is often only roughly regular, e.g. business days with holidays left out
+            self.freq_ = pd.infer_freq(index) or time_series_freq(index)
 
 
 class SimBase(ABC):
-- 
2.43.0


From 06710711491647edf9070d504c83fdbe6e21d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:50 +0000
Subject: [PATCH 14/57] fix: treat a Series of groups by position in
 TimeAwareKFold and WalkForward

Series groups were indexed by label, which raised KeyError or selected the wrong rows, and
integer Series groups were rejected when purging.
---
 quantfinlib/train_test_split/_base.py        | 9 +++++++++
 quantfinlib/train_test_split/kfoldpe.py      | 3 ++-
 quantfinlib/train_test_split/walk_forward.py | 4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..f4b8e76 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -131,6 +131,15 @@ def _embargo(
     return train_index
 
 
+def _groups_to_positional(groups: GroupType) -> Union[np.ndarray, pd.DatetimeIndex]:
+    """Convert a Series of groups, whose index labels carry no meaning, to an object indexed by position."""
+    if isinstance(groups, pd.Series):
+        if pd.api.types.is_datetime64_any_dtype(groups.dtype):
+            return pd.DatetimeIndex(groups)
+        return groups.to_numpy()
+    return groups
+
+
 class BaseCV(ABC):
     """Base class for cross-validation splitters."""
 
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..46ba07d 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -6,7 +6,7 @@ from typing import Generator, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _groups_to_positional, _purge, _embargo
 from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
 
 
@@ -138,6 +138,7 @@ class TimeAwareKFold(BaseCV):
             n_purge = self.n_purge
         if groups is None:
             groups = np.arange(X.shape[0])
+        groups = _groups_to_positional(groups)
         indices = np.arange(X.shape[0])
         assert len(groups) == len(indices), "Groups and indices must have the same length."
         test_indices_per_fold = np.array_split(indices, self.n_folds)
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..441a7c7 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _groups_to_positional
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -109,7 +109,7 @@ class WalkForward(BaseCV):
         super().split(X, y, groups)
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
-        groups = groups if groups is not None else np.arange(n_samples)
+        groups = _groups_to_positional(groups) if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
         # Calculate the boundaries of the training set
-- 
2.43.0


From 93828d8616db3b50318f06de98f7f1d2b36868c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 15/57] fix: reject groups that span an entire fold in
 TimeAwareKFold

Such a fold ended up empty: DatetimeIndex groups silently gave an empty test set with all
data in the training set, and integer groups a cryptic numpy error.
---
 quantfinlib/train_test_split/kfoldpe.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index 46ba07d..a712524 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -180,15 +180,22 @@ def _modify_fold_bounds(bound_per_fold: BoundPerFoldType, groups: GroupType) ->
     -------
     np.ndarray
         Modified bound per fold.
+
+    Raises
+    ------
+    ValueError
+        If a single group spans an entire fold, which would leave that fold empty.
     """
     n_folds = bound_per_fold.shape[0]
     for fold in range(n_folds - 1):
         last_group_curr_fold = groups[bound_per_fold[fold, 1]]
         first_group_next_fold = groups[bound_per_fold[fold + 1, 0]]
         if last_group_curr_fold == first_group_next_fold:
-            next_group = groups[groups > last_group_curr_fold][0]
-            bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
-            bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
+            last_index = np.where(groups == last_group_curr_fold)[0][-1]
+            if last_index >= bound_per_fold[fold + 1, 1]:
+                raise ValueError("A single group spans an entire fold. Use a smaller number of folds.")
+            bound_per_fold[fold, 1] = last_index
+            bound_per_fold[fold + 1, 0] = last_index + 1
     return bound_per_fold
 
 
-- 
2.43.0


From 5a80b389bab7479c42f80359fb6ee737f4fea36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:10 +0000
Subject: [PATCH 16/57] fix: WalkForward must not leak test groups into the
 training set when groups have gaps

With gaps (e.g. weekends) the last training group and the first test group were the same,
windows could overlap or skip groups, and the first window could run past the data.
---
 quantfinlib/train_test_split/walk_forward.py | 39 +++++++-------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 441a7c7..f0b3962 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -110,21 +110,21 @@ class WalkForward(BaseCV):
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = _groups_to_positional(groups) if groups is not None else np.arange(n_samples)
-        time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
-        # Calculate the boundaries of the training set
+        # The training set has the groups in [train_start_group, test_start_group),
+        # and the test set has the groups in [test_start_group, test_start_group + test_window).
         train_start_group = groups[0]
-        train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
-        ]
-        # Calculate the boundaries of the test set
-        test_start_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
-        ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
-        while train_end_group < groups[-1]:
-            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
-            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
+        test_start_group = train_start_group + self.train_window
+        while test_start_group <= groups[-1]:
+            train_index = indices[(groups >= train_start_group) & (groups < test_start_group)]
+            test_index = indices[(groups >= test_start_group) & (groups < test_start_group + self.test_window)]
+            # update the boundaries of the training and test sets
+            if self.split_type == "rolling":
+                train_start_group = train_start_group + self.test_window
+            test_start_group = test_start_group + self.test_window
+            # skip windows that fall in a gap between the groups
+            if len(train_index) == 0 or len(test_index) == 0:
+                continue
             if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
                 isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
             ):
@@ -137,18 +137,7 @@ class WalkForward(BaseCV):
                 )
             yield train_index, test_index
             self.n_splits += 1
-            # if the current end group of the test set is the last group, then we have reached the end of the data
-            if test_end_group >= groups[-1]:
-                self._finalized_splits = True
-                break
-            # update the boundaries of the training and test sets
-            if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
-            test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
-            ]
+        self._finalized_splits = True
 
 
 def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
-- 
2.43.0


From 9795b229bbacb3aecf190519b84136025a3b4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 17/57] fix: WalkForward.get_n_splits() counts the splits of
 the last split() only

---
 quantfinlib/train_test_split/walk_forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index f0b3962..b89ac1b 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -113,6 +113,7 @@ class WalkForward(BaseCV):
 
         # The training set has the groups in [train_start_group, test_start_group),
         # and the test set has the groups in [test_start_group, test_start_group + test_window).
+        n_splits = 0
         train_start_group = groups[0]
         test_start_group = train_start_group + self.train_window
         while test_start_group <= groups[-1]:
@@ -136,7 +137,8 @@ class WalkForward(BaseCV):
                     n_embargo=self.n_embargo,
                 )
             yield train_index, test_index
-            self.n_splits += 1
+            n_splits += 1
+        self.n_splits = n_splits
         self._finalized_splits = True
 
 
-- 
2.43.0


From e94199b86619f89c1635a0d6b7f49cc19bce1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:27 +0000
Subject: [PATCH 18/57] fix: WalkForward rejects non-positive window sizes
 instead of looping forever

---
 quantfinlib/train_test_split/walk_forward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index b89ac1b..22a4b87 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -107,6 +107,9 @@ class WalkForward(BaseCV):
 
         """
         super().split(X, y, groups)
+        zero = pd.Timedelta(0) if self.freq is not None else 0
+        if self.train_window <= zero or self.test_window <= zero:
+            raise ValueError("train_window and test_window must be positive.")
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = _groups_to_positional(groups) if groups is not None else np.arange(n_samples)
-- 
2.43.0


From 985472c1530442932ea8db8d901bccc0c78a0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 19/57] fix: _eigen_values_denoise must not modify the
 eigenvalues of the caller

---
 quantfinlib/math/cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..fe27616 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,7 +373,8 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
-        eigen_values[-(num_assets - num_timesteps):] = 0.0
+        eigen_values = eigen_values.copy()
+        eigen_values[num_timesteps:] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
         if num_assets > num_timesteps:
-- 
2.43.0


From 07404ad629b7156651787355ba9f05d05045df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 20/57] fix: fit the Marchenko-Pastur law to the non-zero
 eigenvalues when assets outnumber timesteps

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index fe27616..efd1ce9 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -378,7 +378,7 @@ def _eigen_values_denoise(
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
         if num_assets > num_timesteps:
-            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_assets - num_timesteps])
+            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_timesteps])
         else:
             best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values)
         _, max_noise_eig_val = _marcenko_pastur_support(best_var, num_timesteps, num_assets)
-- 
2.43.0


From f4c5924b04aaaf5b45f10e70bb1e90757d930303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 21/57] fix: Marchenko-Pastur density of integer eigenvalues
 was truncated to integers

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index efd1ce9..454de77 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -240,7 +240,7 @@ def _marchenko_pastur_pdf(var: float, num_timesteps: int, num_assets: int, eigen
 
     q = num_timesteps / num_assets
     e_min, e_max = _marcenko_pastur_support(var, num_timesteps, num_assets)
-    pdf = np.zeros_like(eigen_values)
+    pdf = np.zeros_like(eigen_values, dtype=float)
     mask = np.logical_and(eigen_values > e_min, eigen_values < e_max)
     pdf[mask] = (
         q
-- 
2.43.0


From 4a9a07b58652973256ffb34a4658d752c1decdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 22/57] fix: number of bins for (nearly) perfectly
 anti-correlated variables

mutual_info(x, -x) and var_info(x, -x) divided by zero or asked for a huge histogram.
---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..06783c7 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -16,7 +16,7 @@ def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
         return _get_optimal_nb_bins(x.shape[0], None)
     else:
         corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
+        if abs(abs(corr) - 1) < 1e-5:
             return _get_optimal_nb_bins(x.shape[0], None)
         else:
             return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-- 
2.43.0


From ffc094d53a5707f03494350c49321d4803c11a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 23/57] fix: accept correlation matrices whose diagonal is 1 up
 to rounding (numpy.corrcoef)

---
 quantfinlib/distance/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index b6232e4..2a10fe7 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -23,7 +23,7 @@ def _validate_correlation_matrix(corr: np.ndarray) -> None:
     assert corr.ndim == 2, "Input must be a 2D matrix"
     assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
     assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+    assert np.allclose(np.diag(corr), 1), "Diagonal elements of a correlation matrix must be 1"
 
 
 def _convert_correlation_to_distance(
-- 
2.43.0


From 1f34e0ecb42405e67f3c5423201c3eecf9ff121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 24/57] fix: convert a DataFrame of correlations to distances
 with the same checks and zero diagonal

---
 quantfinlib/distance/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index 2a10fe7..df51698 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -4,6 +4,7 @@ from typing import Callable, Union
 from functools import partial
 
 import numpy as np
+import pandas as pd
 
 
 def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
@@ -29,6 +30,9 @@ def _validate_correlation_matrix(corr: np.ndarray) -> None:
 def _convert_correlation_to_distance(
     corr: Union[float, np.ndarray], conversion_function: Callable
 ) -> Union[float, np.ndarray]:
+    if isinstance(corr, pd.DataFrame):
+        dist = _convert_correlation_to_distance(corr.to_numpy(), conversion_function)
+        return pd.DataFrame(dist, index=corr.index, columns=corr.columns)
     if isinstance(corr, np.ndarray):
         _validate_correlation_matrix(corr)
     corr = _clip_values(corr, -1.0, 1.0)
-- 
2.43.0


From d41347448ad94953116cbd09ec1bbe2c63c55470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 25/57] fix: gap_statistic must not reseed numpy's global
 random state

---
 quantfinlib/clustering/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..ce382ef 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -70,8 +70,8 @@ def gap_statistic(
         seed = 0
     for b in range(nb):
         # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
+        rng = np.random.RandomState(seed + b)
+        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
         # Make the reference distance matrix symmetric
         dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
         # Make sure the diagonal elements of reference distance matrix are zero
-- 
2.43.0


From 5f7db3c59ac21c1da5e9d00751b6ef44f4addf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 26/57] fix: optimize_n_clusters raised IndexError when the gap
 keeps increasing

---
 quantfinlib/clustering/hierarchical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 43d7cf4..bbfdf8e 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -176,7 +176,9 @@ def optimize_n_clusters(
             gap_values.append(gap)
             gap_std_values.append(gap_std)
         gap_values, gap_std_values = np.array(gap_values), np.array(gap_std_values)
-        k = np.where(gap_values[:-1] - gap_values[1:] + gap_std_values[1:] > 0)[0][0]
+        is_optimal = gap_values[:-1] - gap_values[1:] + gap_std_values[1:] > 0
+        # the gap keeps increasing when no number of clusters satisfies the criterion
+        k = np.argmax(is_optimal) if np.any(is_optimal) else len(gap_values) - 1
         return int(k + 2)
     elif metric == "silhouette":
         silh_values = []
-- 
2.43.0


From 6774be2625e60d2e925f049ad841066bbfb52d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 27/57] fix: importing the distance module must not reset the
 configured log level

---
 quantfinlib/distance/distance_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 8ec038e..37ac07b 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -20,7 +20,6 @@ from quantfinlib.util import (
 )
 
 logger = logging.getLogger("quantfinlib")
-logger.setLevel(logging.WARNING)
 
 CORR_TO_DIST_METHOD_MAP = {
     "angular": corr_to_angular_dist,
-- 
2.43.0


From cfcb0472159219c0eecc5ba6f7d101bcdf58068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 28/57] fix: close the handlers that configure_logger replaces

---
 quantfinlib/util/_logging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index ce13efb..793168c 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -24,6 +24,7 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     # Clear any existing handlers
     for handler in logger.handlers[:]:
         logger.removeHandler(handler)
+        handler.close()
 
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From 1b6b5543a4dd63d47211538f175aacc2c42c3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 29/57] fix: sign of the gamma term in the Corwin-Schultz
 spread

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..1922423 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -457,7 +457,7 @@ def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
     """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
     den = 3 - 2.0 * 2**0.5
     alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= -((gamma / den) ** 0.5)
+    alpha -= (gamma / den) ** 0.5
     alpha[alpha < 0] = 0  # set negative alpha to zero
     return alpha
 
-- 
2.43.0


From d075a2e3a29b674afa6c6d3994fa69c74073ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 30/57] fix: three irregular dates are not a daily time series

---
 quantfinlib/_datatypes/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index f850ad8..97ab29a 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -110,7 +110,7 @@ def time_series_freq(ts_obj) -> Optional[str]:
 
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
-    daily_resolution = len(time_deltas) - daily_count <= 2
+    daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
     if daily_resolution:
         return "D"
 
-- 
2.43.0


From 7d8a11947213dc154ebde1409abb495477c306f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 31/57] fix: recognise short working-day time series, as in the
 docstring example

---
 quantfinlib/_datatypes/timeseries.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 97ab29a..74269b7 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -111,7 +111,9 @@ def time_series_freq(ts_obj) -> Optional[str]:
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
     daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
-    if daily_resolution:
+    # A short series of working days has few weekend gaps, but all its days are working days
+    skips_weekends = (delta_counts.get(pd.Timedelta(days=3), 0) > 0) and (dt_ndx.dayofweek < 5).all()
+    if daily_resolution and not skips_weekends:
         return "D"
 
     # Check for working-day frequency (5 days a week)
-- 
2.43.0


From c2d702ab35f9dc4e00628fe0d8f0504706ec1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 32/57] fix: optimize_n_clusters failed when max_clust is not
 less than the number of items

The default max_clust=20 made the silhouette metric raise for data with 20 items or less.
---
 quantfinlib/clustering/hierarchical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index bbfdf8e..9f4f189 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -166,7 +166,8 @@ def optimize_n_clusters(
     n_clusters : int
         The optimal number of clusters.
     """
-    nclust_range = range(2, max_clust + 1)
+    # the metrics are only defined for less clusters than items
+    nclust_range = range(2, min(max_clust, len(dist) - 1) + 1)
     if metric == "gap":
         gap_values = []
         gap_std_values = []
-- 
2.43.0


From 78f0be33827110788c91519070108df2ebdd8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 33/57] fix: diagonal of the unnormalised mutual information
 matrix

The mutual information of a variable with itself is its entropy, it is only 1 when normalised.
---
 quantfinlib/distance/distance_matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 37ac07b..4a8804d 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -43,7 +43,10 @@ def _get_info_distance_matrix(X: DataFrameOrArray, func: Callable, **kwargs) ->
         res[i, j] = res_ij
         res[j, i] = res_ij
     if func == mutual_info:
-        np.fill_diagonal(res, 1)
+        if kwargs.get("norm", True):
+            np.fill_diagonal(res, 1)
+        else:
+            np.fill_diagonal(res, [func(X[:, i], X[:, i], **kwargs) for i in idx])
     if inp_pd_df:
         res = pd.DataFrame(res, index=colnames, columns=colnames)
     return res
-- 
2.43.0


From 552b1324262bfb3838ee7ac2645dc316619bb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 34/57] fix: get_edge_spread fails on repeated index labels and
 returns objects for short series

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 1922423..239ff38 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -281,10 +281,9 @@ def get_edge_spread(
     rolling_spread = Parallel(n_jobs=-1)(
         delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
     )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
+    # The first complete window ends at observation window - 1, everything before that is undefined.
+    undefined = [np.nan] * (len(price_df) - len(rolling_spread))
+    return pd.Series(undefined + rolling_spread, index=price_df.index, dtype=float)
 
 
 def _edge_spread(
-- 
2.43.0


From c01b67e025658b78eba19a28bb64dd3541d45fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:41 +0000
Subject: [PATCH 35/57] fix: clusters of centroid and median trees, whose merge
 heights may decrease

---
 quantfinlib/clustering/hierarchical.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 9f4f189..131b634 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -12,6 +12,14 @@ from quantfinlib.clustering.metrics import gap_statistic, silhouette_tstat
 from quantfinlib.util import DataFrameOrArray
 
 
+def _cut_linkage(linkage: np.ndarray, n_clusters: int) -> np.ndarray:
+    """Return the cluster labels after undoing the last merges until there are n_clusters clusters."""
+    # cut_tree orders the merges by their height, which may decrease for the centroid and median methods
+    tree = np.array(linkage, dtype=float)
+    tree[:, 2] = np.arange(1, len(tree) + 1)
+    return hierarchy.cut_tree(Z=tree, n_clusters=n_clusters).flatten()
+
+
 class HC:
     """Hierarchical clustering class.
 
@@ -134,7 +142,7 @@ class HC:
         np.ndarray
             The cluster labels.
         """
-        return hierarchy.cut_tree(Z=self.linkage, n_clusters=n_clusters).flatten()
+        return _cut_linkage(linkage=self.linkage, n_clusters=n_clusters)
 
     def get_optimal_nclusters(self, max_clust: int = 20, metric: str = "gap", nb: int = 10) -> int:
         """Get the optimal number of clusters."""
@@ -172,7 +180,7 @@ def optimize_n_clusters(
         gap_values = []
         gap_std_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_linkage(linkage, n_clusters=k)
             gap, gap_std = gap_statistic(dist=dist, labels=labels, nb=nb)
             gap_values.append(gap)
             gap_std_values.append(gap_std)
@@ -184,7 +192,7 @@ def optimize_n_clusters(
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_linkage(linkage, n_clusters=k)
             silh_values.append(silhouette_tstat(dist=dist, labels=labels))
         return int(np.argmax(silh_values) + 2)
     else:
-- 
2.43.0


From 5fbe38ea376aa22293b481688199cd45c826986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 36/57] fix: daylight saving time changes made regular
 calendars irregular

time_series_freq measured the steps of a time zone aware index in absolute time,
where days around a daylight saving time change have 23 or 25 hours. A daily index
of two years was reported as 'B', a weekly one as irregular.
---
 quantfinlib/_datatypes/timeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 74269b7..f1fa5d6 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -69,7 +69,8 @@ def time_series_freq(ts_obj) -> Optional[str]:
         dt_ndx = ts_obj
 
     # Calculate the time deltas between consecutive time points
-    time_deltas = dt_ndx.to_series().diff().dropna()
+    # (in local time: days around a daylight saving time change are not irregular)
+    time_deltas = dt_ndx.tz_localize(None).to_series().diff().dropna()
 
     # Ensure there are enough data points to make a determination
     if len(time_deltas) < 2:
-- 
2.43.0


From 243812fb58376e9643baa7823aaf11d1bf9a31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 37/57] fix: intraday series on the last day of a month,
 quarter or year got that frequency

All time points of an hourly series on, e.g., 31 December count as year ends, so
the series was reported as yearly instead of as undetermined.
---
 quantfinlib/_datatypes/timeseries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index f1fa5d6..c4d3c71 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -76,6 +76,10 @@ def time_series_freq(ts_obj) -> Optional[str]:
     if len(time_deltas) < 2:
         return None  # "The time series index must contain more than two time point to determine its frequency."
 
+    # Intraday time points that share a date would all count as the same month, quarter or year end (start)
+    if (time_deltas < pd.Timedelta(days=1)).mean() > 0.5:
+        return None
+
     # Count the occurrences of each time delta
     delta_counts = time_deltas.value_counts()
 
-- 
2.43.0


From ae62f693c812586182f6dc597a4d7db9bd4f5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 38/57] fix: date index of the treasury rates was not renamed
 to DATE

The rename of 'Date' was applied to the columns, where there is no such column,
so the index did not get the documented name that the other data sets have.
---
 quantfinlib/datasets/_dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantfinlib/datasets/_dataloader.py b/quantfinlib/datasets/_dataloader.py
index 2944fb1..cb52e8c 100644
--- a/quantfinlib/datasets/_dataloader.py
+++ b/quantfinlib/datasets/_dataloader.py
@@ -97,9 +97,8 @@ def load_treasury_rates() -> pd.DataFrame:
 
     logger.info(f"Reading daily Treasury rates data from {TREASURY_RATES_LOCAL_PATH.name}...")
     df = _load_csv_gz_to_df(TREASURY_RATES_LOCAL_PATH)
-    df = df.rename(
+    df = df.rename_axis(index="DATE").rename(
         columns={
-            "Date": "DATE",
             "1 Mo": "1m",
             "2 Mo": "2m",
             "3 Mo": "3m",
-- 
2.43.0


From 27e9c428220b213974c1cca14bc97a7157ceb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:08 +0000
Subject: [PATCH 39/57] fix: small and unsigned integer groups overflowed in
 purging, embargoing and the order check

---
 quantfinlib/train_test_split/_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index f4b8e76..3aeeb73 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -136,7 +136,10 @@ def _groups_to_positional(groups: GroupType) -> Union[np.ndarray, pd.DatetimeInd
     if isinstance(groups, pd.Series):
         if pd.api.types.is_datetime64_any_dtype(groups.dtype):
             return pd.DatetimeIndex(groups)
-        return groups.to_numpy()
+        groups = groups.to_numpy()
+    if isinstance(groups, np.ndarray) and np.issubdtype(groups.dtype, np.integer):
+        # adding and subtracting windows must not overflow small or unsigned integers
+        groups = groups.astype(np.int64)
     return groups
 
 
@@ -180,7 +183,7 @@ class BaseCV(ABC):
             raise TypeError("y must be a numpy array or a Series")
         if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
             raise TypeError("groups must be a numpy array or a Series")
-        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
+        if isinstance(groups, np.ndarray) and not np.all(groups[:-1] <= groups[1:]):
             raise ValueError("groups must be sorted in ascending order")
         if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
             raise ValueError("groups must be sorted in ascending order")
-- 
2.43.0


From 04524d79b699497176fca7130c3f736b8567a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:08 +0000
Subject: [PATCH 40/57] fix: changing the data after fit() changed the fitted
 first and last value

---
 quantfinlib/sim/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 64e9400..3efae8e 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -162,8 +162,8 @@ class SimBase(ABC):
         self.fit_column_names_ = _get_column_names(x)
         self.fit_index_ = _DateTimeIndexInfo(x)
         self.fit_num_cols_ = values.shape[1]
-        self.fit_x0_ = values[0, :].reshape(1, -1)
-        self.fit_xn_ = values[-1, :].reshape(1, -1)
+        self.fit_x0_ = values[0, :].reshape(1, -1).copy()
+        self.fit_xn_ = values[-1, :].reshape(1, -1).copy()
         self.fit_num_rows_ = values.shape[0]
         self.fit_dt_ = dt
 
-- 
2.43.0


From 0e4e1fac08243f4e9cdee3375982254a7327d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:38 +0000
Subject: [PATCH 41/57] fix: features of unsigned or narrow integers wrapped
 around or lost digits

---
 quantfinlib/feature/indicators/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantfinlib/feature/indicators/_base.py b/quantfinlib/feature/indicators/_base.py
index ba24f50..16547e4 100644
--- a/quantfinlib/feature/indicators/_base.py
+++ b/quantfinlib/feature/indicators/_base.py
@@ -19,6 +19,11 @@ def numpy_io_support(func):
         bound_args.apply_defaults()
         np_args = {}
         for name in exp_pd_args:
+            # differences of unsigned integers wrap around, products and logs of small integers lose digits
+            arg = bound_args.arguments[name]
+            if isinstance(arg, (pd.Series, np.ndarray)) and arg.dtype.kind in "iu":
+                bound_args.arguments[name] = arg.astype(float)
+
             if isinstance(bound_args.arguments[name], np.ndarray):
                 np_args[name] = pd.Series(bound_args.arguments[name])
             elif not isinstance(bound_args.arguments[name], pd.Series):
-- 
2.43.0


From 7bd19d0e1e1e80c19eac7f428cf57f4d09828e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 42/57] fix: fitting, likelihoods and starting values of
 unsigned or narrow integers were wrong

---
 quantfinlib/sim/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3efae8e..c6799b6 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -175,7 +175,8 @@ class SimBase(ABC):
     ) -> Tuple[np.ndarray, float]:
         r"""Convert x to a 2d array, and infer dt if it is not provided, without changing the model."""
 
-        values = _to_numpy(x)
+        # differences of unsigned integers wrap around, logs of small integers lose digits
+        values = np.asarray(_to_numpy(x), dtype=float)
         if values.ndim == 1:
             values = values.reshape(-1, 1)
 
@@ -227,7 +228,7 @@ class SimBase(ABC):
             else:
                 raise ValueError(f'x0: Unknown string value "{x0}", valid string values are "first" or "last".')
         else:
-            x0 = _to_numpy(x0)
+            x0 = np.asarray(_to_numpy(x0), dtype=float)
 
         x0 = x0.reshape(1, -1)
 
-- 
2.43.0


From 2afb02b532aa4243a101ca7947f663cbec831961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 43/57] fix: the gap statistic of small integer distances
 overflowed

---
 quantfinlib/clustering/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index ce382ef..61040e6 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -58,6 +58,9 @@ def gap_statistic(
     k = len(np.unique(labels))  # number of clusters
     # Create a boolean matrix indicating whether two points are in the same cluster
     within_clstr_identifier = labels[:, np.newaxis] == labels[np.newaxis, :]
+
+    # The squares of small integers would overflow
+    dist = dist.astype(float)
     # Calculate within-cluster dispersion (Wk)
     # Additional division by 2 to correct for double summing of pair distances
     Wk = np.sum(within_clstr_identifier * dist**2) / (4 * k)
-- 
2.43.0


From 1956746bd66a42eb7e9b325b7cded94b3380535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 44/57] fix: the CUSUM test of small integer prices used half
 or single precision

---
 quantfinlib/feature/structural_breaks/cusumtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/structural_breaks/cusumtest.py b/quantfinlib/feature/structural_breaks/cusumtest.py
index 028f8b5..4d8ceb7 100644
--- a/quantfinlib/feature/structural_breaks/cusumtest.py
+++ b/quantfinlib/feature/structural_breaks/cusumtest.py
@@ -56,7 +56,7 @@ def chu_stinchcombe_white_cusum_test(y: np.ndarray) -> tuple[np.ndarray, np.ndar
     """
     T = len(y)
     b_alpha = 4.6  # Derived via Monte Carlo for alpha=0.05
-    log_y = np.log(y)  # Precompute log-prices
+    log_y = np.log(y, dtype=float)  # Precompute log-prices (small integers have log-prices of few digits by default)
     # Compute the moving average standard deviation up to each time point
     squared_diffs = (log_y[1:] - log_y[:-1]) ** 2.0
     sigma_hats = np.sqrt(np.cumsum(squared_diffs) / np.arange(1, T))
-- 
2.43.0


From d47afe70b32920dfba46447e74cc983a9050df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 45/57] fix: the mean of denoised integer eigenvalues was
 truncated

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 454de77..5b1644b 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -391,7 +391,7 @@ def _eigen_values_denoise(
     info["k"] = k
     # All eigenvalues below "max_noise_eig_val" are considered noise components,
     # we will replace those with their mean.
-    improved_eigen_values = eigen_values.copy()
+    improved_eigen_values = eigen_values.astype(float)
     improved_eigen_values[k:] = np.mean(eigen_values[k:])
     return improved_eigen_values, info
 
-- 
2.43.0


From 582e3b55d232f544f59cd05dd219e1dbbfb70e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:55 +0000
Subject: [PATCH 46/57] fix: star imports of the sim and util packages failed

---
 quantfinlib/sim/__init__.py  |  2 +-
 quantfinlib/util/__init__.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantfinlib/sim/__init__.py b/quantfinlib/sim/__init__.py
index 48bc8ee..7801f38 100644
--- a/quantfinlib/sim/__init__.py
+++ b/quantfinlib/sim/__init__.py
@@ -21,7 +21,7 @@ from ._gbm import GeometricBrownianMotion
 from ._quasi_random import QuasiRandom
 from ._ou import OrnsteinUhlenbeck
 
-__all__ = [BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom]
+__all__ = ["BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck", "QuasiRandom"]
 
 """
 todo:
diff --git a/quantfinlib/util/__init__.py b/quantfinlib/util/__init__.py
index 84422ff..235e10c 100644
--- a/quantfinlib/util/__init__.py
+++ b/quantfinlib/util/__init__.py
@@ -6,13 +6,13 @@ from quantfinlib.util._validate import validate_series_or_1Darray, validate_fram
 from quantfinlib.util._dtypes import to_numpy, SeriesOrArray, DataFrameOrArray, ArrayLike
 
 __all__ = [
-    logger,
-    get_project_root,
-    configure_logger,
-    validate_series_or_1Darray,
-    validate_frame_or_2Darray,
-    to_numpy,
-    SeriesOrArray,
-    DataFrameOrArray,
-    ArrayLike,
+    "logger",
+    "get_project_root",
+    "configure_logger",
+    "validate_series_or_1Darray",
+    "validate_frame_or_2Darray",
+    "to_numpy",
+    "SeriesOrArray",
+    "DataFrameOrArray",
+    "ArrayLike",
 ]
-- 
2.43.0


From 473a590ae9ba130451bc10fb4ee733493a55e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:55 +0000
Subject: [PATCH 47/57] fix: the minimal standard deviation of a correlation
 matrix was used as minimal variance

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 5b1644b..8363632 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -72,7 +72,7 @@ def _cov_to_cor(cov: np.ndarray, cov_reg: float = 1e-6) -> Tuple[np.ndarray, np.
     cor, std
     """
     # Derive the correlation matrix from a covariance matrix
-    std = np.sqrt(np.maximum(np.diag(cov), cov_reg))
+    std = np.sqrt(np.maximum(np.diag(cov), cov_reg**2))
 
     cor = cov / np.outer(std, std)
     cor[cor < -1.0], cor[cor > 1.0] = -1.0, 1.0
-- 
2.43.0


From 634d100cb66e4522bea9fe7f64d9d46bf2afe182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:50 +0000
Subject: [PATCH 48/57] fix: the likelihood of correlated variates on very
 different scales failed

---
 quantfinlib/sim/_bm.py  | 9 ++++-----
 quantfinlib/sim/_gbm.py | 9 ++++-----
 quantfinlib/sim/_ou.py  | 9 ++++-----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index 6740346..a502d47 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -228,9 +228,8 @@ class BrownianMotion(SimBase, SimNllMixin):
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-            D = np.diag(std_)
-            cov_ = D @ self.cor @ D
-            var = multivariate_normal(mean=mean_, cov=cov_)
-        else:
-            var = norm(loc=mean_, scale=std_)
+            # standardize: the covariance of variates on very different scales is numerically singular
+            log_scale = np.sum(np.log(np.broadcast_to(std_, len(self.cor))))
+            return -1 * np.sum(multivariate_normal(cov=self.cor).logpdf((dx - mean_) / std_) - log_scale)
+        var = norm(loc=mean_, scale=std_)
         return -1 * np.sum(var.logpdf(dx))
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 00e4950..34a182f 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -240,9 +240,8 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-            D = np.diag(std_)
-            cov_ = D @ self.cor @ D
-            var = multivariate_normal(mean=mean_, cov=cov_)
-        else:
-            var = norm(loc=mean_, scale=std_)
+            # standardize: the covariance of variates on very different scales is numerically singular
+            log_scale = np.sum(np.log(np.broadcast_to(std_, len(self.cor))))
+            return -1 * np.sum(multivariate_normal(cov=self.cor).logpdf((dx - mean_) / std_) - log_scale)
+        var = norm(loc=mean_, scale=std_)
         return -1 * np.sum(var.logpdf(dx))
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index ef17fe5..d6f4fb0 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -303,9 +303,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         dx = x[1:, ...] - mrr_factor * x[:-1, ...]
 
         if self.cor is not None:
-            D = np.diag(std_)
-            cov_ = D @ self.cor @ D
-            var = multivariate_normal(mean=mean_, cov=cov_)
-        else:
-            var = norm(loc=mean_, scale=std_)
+            # standardize: the covariance of variates on very different scales is numerically singular
+            log_scale = np.sum(np.log(np.broadcast_to(std_, len(self.cor))))
+            return -1 * np.sum(multivariate_normal(cov=self.cor).logpdf((dx - mean_) / std_) - log_scale)
+        var = norm(loc=mean_, scale=std_)
         return -1 * np.sum(var.logpdf(dx))
-- 
2.43.0


From 69c4111e733587e0947d578820b655b9d150e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:44 +0000
Subject: [PATCH 49/57] fix: bands of arrays could not be pickled, bands of
 mixed arrays and Series not evaluated

---
 quantfinlib/feature/indicators/_bands.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index d83b803..856615e 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -54,14 +54,12 @@ class GenericBands:
         self.rolling_mean = rolling_mean
         self.rolling_std = rolling_std
         self.multiplier = multiplier
-        if isinstance(ts, pd.Series) or isinstance(rolling_mean, pd.Series) or isinstance(rolling_std, pd.Series):
-            self._rename = self._rename_pd
-        else:
-            self._rename = lambda x, _: x
         self.basename = basename
 
-    def _rename_pd(self, s: pd.Series, name: str) -> pd.Series:
-        return s.rename(name + self.basename)
+    def _rename(self, x: Union[pd.Series, np.ndarray], name: str) -> Union[pd.Series, np.ndarray]:
+        if isinstance(x, pd.Series):
+            return x.rename(name + self.basename)
+        return x
 
     def upper(self) -> Union[pd.Series, np.ndarray]:
         """
-- 
2.43.0


From 25d35f2450eb61d4423ac59b2b6facc8d6402162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 50/57] fix: quasi random models with the default base model
 shared one instance

---
 quantfinlib/sim/_quasi_random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_quasi_random.py b/quantfinlib/sim/_quasi_random.py
index aa59b03..ecbd525 100644
--- a/quantfinlib/sim/_quasi_random.py
+++ b/quantfinlib/sim/_quasi_random.py
@@ -40,7 +40,7 @@ class QuasiRandom(SimBase):
         self,
         tech_ind_func: Callable[[np.ndarray], np.ndarray],
         f_signal_vol: Union[float, np.ndarray] = 0.1,
-        base_model: BaseModel = BrownianMotion(),
+        base_model: Optional[BaseModel] = None,
     ):
         r"""Initializes the QuasiBrownianMotion instance for simulating a semi-random process.
         First a random path is generated using Brownian motion, then the technical indicator is
@@ -55,12 +55,12 @@ class QuasiRandom(SimBase):
             The factor by which to scale the signal volatility compared to the Brownian motion
             volatility (default is 0.1).
         base_model : BaseModel
-            The base simulation model to use (default is BrownianMotion).
+            The base simulation model to use (default is a new BrownianMotion).
         """
         super().__init__()
         self.tech_ind_func = tech_ind_func
         self.f_signal_vol = f_signal_vol
-        self.base_model = base_model
+        self.base_model = BrownianMotion() if base_model is None else base_model
 
     def __repr__(self) -> str:
         """Return a string representation of the QuasiBrownianMotion instance."""
-- 
2.43.0


From 210702aa8bb36b1759bc6cf3a16fdd5f991ffd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:41 +0000
Subject: [PATCH 51/57] fix: the features could not be imported when Python
 strips docstrings (-OO)

---
 quantfinlib/feature/indicators/_bands.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index 856615e..63377cf 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -117,7 +117,7 @@ class GenericBands:
         return self._rename((self.ts - self.lower()) / (2 * self.rolling_std * self.multiplier), "%B")
 
 
-GenericBands.__doc__ += _GENERIC_DOCSTRING
+GenericBands.__doc__ = (GenericBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class BollingerBands(GenericBands):
@@ -140,7 +140,7 @@ class BollingerBands(GenericBands):
         )
 
 
-BollingerBands.__doc__ += _GENERIC_DOCSTRING
+BollingerBands.__doc__ = (BollingerBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class EwmBollingerBands(GenericBands):
@@ -161,7 +161,7 @@ class EwmBollingerBands(GenericBands):
         super().__init__(ts, ewm_mean(ts, span=window), ewm_std(ts, span=window), multiplier, basename=" EwmBollinger")
 
 
-EwmBollingerBands.__doc__ += _GENERIC_DOCSTRING
+EwmBollingerBands.__doc__ = (EwmBollingerBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class KeltnerBands(GenericBands):
@@ -202,7 +202,7 @@ class KeltnerBands(GenericBands):
         )
 
 
-KeltnerBands.__doc__ += _GENERIC_DOCSTRING
+KeltnerBands.__doc__ = (KeltnerBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class DonchianBands(GenericBands):
@@ -223,4 +223,4 @@ class DonchianBands(GenericBands):
         super().__init__(ts, (ub + lb) / 2, (ub - lb) / 2, 1, basename=" Donchian")
 
 
-DonchianBands.__doc__ += _GENERIC_DOCSTRING
+DonchianBands.__doc__ = (DonchianBands.__doc__ or "") + _GENERIC_DOCSTRING
-- 
2.43.0


From c909caf23ce8486c8f3efb187f7e6f9f6b9a9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 52/57] fix: the von Neumann divergence of read-only triangular
 matrices failed

---
 quantfinlib/distance/matrix_divergence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/distance/matrix_divergence.py b/quantfinlib/distance/matrix_divergence.py
index 820f312..488c54b 100644
--- a/quantfinlib/distance/matrix_divergence.py
+++ b/quantfinlib/distance/matrix_divergence.py
@@ -55,8 +55,9 @@ def von_neuman_divergence(p: np.ndarray, q: np.ndarray) -> float:
         Von Neumann divergence between p and q.
     """
     _assert_positive_definite(p, q)  # Ensure the matrices are positive definite
-    log_p = logm(p)  # Compute the matrix logarithm of p
-    log_q = logm(q)  # Compute the matrix logarithm of q
+    # logm() can not handle read-only triangular matrices
+    log_p = logm(np.array(p))  # Compute the matrix logarithm of p
+    log_q = logm(np.array(q))  # Compute the matrix logarithm of q
     first_term = np.trace(p @ (log_p - log_q))
     second_term = np.trace(-p + q)
     return first_term + second_term
-- 
2.43.0


From 242161a898964c8ae175ead67831dece7e05d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 53/57] fix: unions of the custom array and pandas types
 rejected valid data

---
 quantfinlib/util/_custom_types.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/quantfinlib/util/_custom_types.py b/quantfinlib/util/_custom_types.py
index f253894..5934e04 100644
--- a/quantfinlib/util/_custom_types.py
+++ b/quantfinlib/util/_custom_types.py
@@ -32,18 +32,18 @@ class _CustomNumpyArrayPydanticAnnotation:  # pragma: no cover
 
         def validate_numpy_array(value: Any) -> np.ndarray:
             if not isinstance(value, np.ndarray):
-                raise TypeError(f"Expected a numpy array, got {type(value)}")
+                raise ValueError(f"Expected a numpy array, got {type(value)}")
             # Validate dtype
             if self.dtype is not Any and not np.can_cast(value.dtype, np.dtype(self.dtype)):
-                raise TypeError(f"Expected array of dtype {self.dtype}, got {value.dtype}")
+                raise ValueError(f"Expected array of dtype {self.dtype}, got {value.dtype}")
             # Validate shape
             if isinstance(self.shape, tuple):
                 if len(self.shape) != value.ndim:
-                    raise TypeError(f"Expected {len(self.shape)}-dimensional array, got {value.ndim}-dimensional array")
+                    raise ValueError(f"Expected {len(self.shape)}-dimensional array, got {value.ndim}-dimensional array")
 
                 for dim, expected_dim in zip(value.shape, self.shape):
                     if expected_dim != "*" and dim != int(expected_dim):
-                        raise TypeError(f"Expected array shape {self.shape}, but got {value.shape}")
+                        raise ValueError(f"Expected array shape {self.shape}, but got {value.shape}")
 
             return value
 
@@ -92,7 +92,7 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_dataframe(value: Any) -> pd.DataFrame:
             if not isinstance(value, pd.DataFrame):
-                raise TypeError(f"Expected a pandas DataFrame, got {type(value)}")
+                raise ValueError(f"Expected a pandas DataFrame, got {type(value)}")
 
             # Validate columns if columns are provided
             if self.columns is not None:
@@ -100,21 +100,21 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
                     raise TypeError(f"Expected 'columns' to be a dictionary, got {type(self.columns)}")
                 for col, dtype in self.columns.items():
                     if col not in value.columns:
-                        raise TypeError(f"Missing expected column: {col}")
+                        raise ValueError(f"Missing expected column: {col}")
                     if not pd.api.types.is_dtype_equal(value[col].dtype, dtype):
-                        raise TypeError(
+                        raise ValueError(
                             f"Expected column '{col}' to have dtype '{dtype}', but got '{value[col].dtype}'"
                         )
 
             # If dtype is provided, validate the entire DataFrame's dtype
             elif self.dtype is not None:
                 if not all(pd.api.types.is_dtype_equal(value.dtypes[col], self.dtype) for col in value.columns):
-                    raise TypeError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
+                    raise ValueError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
 
             # Validate shape
             if self.shape != "*" and len(self.shape) == 2:
                 if value.shape != self.shape:
-                    raise TypeError(f"Expected DataFrame shape {self.shape}, but got {value.shape}")
+                    raise ValueError(f"Expected DataFrame shape {self.shape}, but got {value.shape}")
 
             return value
 
@@ -158,19 +158,19 @@ class _CustomPandasSeriesPydanticAnnotation:  # pragma: no cover
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_series(value: Any) -> pd.Series:
             if not isinstance(value, pd.Series):
-                raise TypeError(f"Expected a pandas Series, got {type(value)}")
+                raise ValueError(f"Expected a pandas Series, got {type(value)}")
 
             # Validate dtype if provided
             if self.dtype is not None:
                 if not pd.api.types.is_dtype_equal(value.dtype, self.dtype):
-                    raise TypeError(f"Expected Series to have dtype '{self.dtype}', but got '{value.dtype}'")
+                    raise ValueError(f"Expected Series to have dtype '{self.dtype}', but got '{value.dtype}'")
 
             # Validate shape (length)
             if self.shape != "*":
                 if not isinstance(self.shape, int):
                     raise TypeError(f"Expected 'shape' to be an integer or '*', got {type(self.shape)}")
                 if len(value) != self.shape:
-                    raise TypeError(f"Expected Series to have length {self.shape}, but got {len(value)}")
+                    raise ValueError(f"Expected Series to have length {self.shape}, but got {len(value)}")
 
             return value
 
-- 
2.43.0


From 8bdf9781138582e9fdf1f5fd58c4af1381f23d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 54/57] fix: frames with repeated column names were rejected by
 the custom pandas type

---
 quantfinlib/util/_custom_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/util/_custom_types.py b/quantfinlib/util/_custom_types.py
index 5934e04..ed235dc 100644
--- a/quantfinlib/util/_custom_types.py
+++ b/quantfinlib/util/_custom_types.py
@@ -108,7 +108,7 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
 
             # If dtype is provided, validate the entire DataFrame's dtype
             elif self.dtype is not None:
-                if not all(pd.api.types.is_dtype_equal(value.dtypes[col], self.dtype) for col in value.columns):
+                if not all(pd.api.types.is_dtype_equal(dtype, self.dtype) for dtype in value.dtypes):
                     raise ValueError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
 
             # Validate shape
-- 
2.43.0


From 7eff40a7efbb4036537a4b9dad3b90e08924fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 55/57] fix: walk-forward splits could not be used in a grid
 search before they were split

---
 quantfinlib/train_test_split/walk_forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 22a4b87..c27eb9f 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -76,7 +76,9 @@ class WalkForward(BaseCV):
     def get_n_splits(
         self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
     ) -> int:
-        """Return the number of splits."""
+        """Return the number of splits of the given data, or else of the last data that were split."""
+        if X is not None:
+            return sum(1 for _ in self.split(X, y, groups))
         if self._finalized_splits:
             return self.n_splits
         else:
-- 
2.43.0


From 7d628fee3b04bf3383e71bad6bdff5ba58932468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:38 +0000
Subject: [PATCH 56/57] fix: the von Neumann divergence changed numpy's global
 random state

---
 quantfinlib/distance/matrix_divergence.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/distance/matrix_divergence.py b/quantfinlib/distance/matrix_divergence.py
index 488c54b..53a4eb8 100644
--- a/quantfinlib/distance/matrix_divergence.py
+++ b/quantfinlib/distance/matrix_divergence.py
@@ -9,6 +9,17 @@ def _assert_positive_definite(p: np.ndarray, q: np.ndarray) -> None:
     assert np.all(np.linalg.eigvals(p) > 0) and np.all(np.linalg.eigvals(q) > 0), "Matrices must be positive definite"
 
 
+def _matrix_log(x: np.ndarray) -> np.ndarray:
+    """Calculate the matrix logarithm of a positive definite matrix."""
+    x = np.array(x)  # logm() can not handle read-only triangular matrices
+    if np.allclose(x, x.conj().T, rtol=1e-10, atol=0):
+        # logm() draws from the global random number generator of numpy
+        eigenvalues, eigenvectors = np.linalg.eigh(x)
+        if eigenvalues[0] > 0:
+            return (eigenvectors * np.log(eigenvalues)) @ eigenvectors.conj().T
+    return logm(x)
+
+
 def log_det_divergence(p: np.ndarray, q: np.ndarray) -> float:
     r"""Calculate log determinant divergence between two positive definite matrices p and q.
 
@@ -55,9 +66,8 @@ def von_neuman_divergence(p: np.ndarray, q: np.ndarray) -> float:
         Von Neumann divergence between p and q.
     """
     _assert_positive_definite(p, q)  # Ensure the matrices are positive definite
-    # logm() can not handle read-only triangular matrices
-    log_p = logm(np.array(p))  # Compute the matrix logarithm of p
-    log_q = logm(np.array(q))  # Compute the matrix logarithm of q
+    log_p = _matrix_log(p)  # Compute the matrix logarithm of p
+    log_q = _matrix_log(q)  # Compute the matrix logarithm of q
     first_term = np.trace(p @ (log_p - log_q))
     second_term = np.trace(-p + q)
     return first_term + second_term
-- 
2.43.0


From 5324defa753c9eac2e2223e3b9e66b2299e968fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 57/57] fix: Ornstein-Uhlenbeck steps keep their precision for
 slow mean reversion and tiny steps

---
 quantfinlib/sim/_ou.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index d6f4fb0..75fcd6b 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -268,8 +268,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
 
         # Handy OU constants
         mrr_factor = np.exp(-self.mrr * dt)
-        mean_term = self.mean * (1 - mrr_factor)
-        scale_factor = np.sqrt(self.vol**2 / (2 * self.mrr) * (1 - np.exp(-2 * self.mrr * dt)))
+        mean_term = -self.mean * np.expm1(-self.mrr * dt)
+        scale_factor = np.sqrt(-self.vol**2 / (2 * self.mrr) * np.expm1(-2 * self.mrr * dt))
 
         # Allocate storage for the simulation
         num_variates = self.mean.shape[1]
@@ -294,8 +294,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
     def _nll(self, x: np.ndarray, dt: float):
 
         mrr_factor = np.exp(-self.mrr * dt)
-        mean_ = self.mean * (1 - mrr_factor)
-        std_ = np.sqrt(self.vol**2 / (2 * self.mrr) * (1 - np.exp(-2 * self.mrr * dt)))
+        mean_ = -self.mean * np.expm1(-self.mrr * dt)
+        std_ = np.sqrt(-self.vol**2 / (2 * self.mrr) * np.expm1(-2 * self.mrr * dt))
 
         mean_ = mean_.flatten()
         std_ = std_.flatten()
-- 
2.43.0

