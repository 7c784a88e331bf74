From 458364b49863a0a7170a8726ea7a9bd852146eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 01/27] fix: opportunism statistics are float and keep missing
 values

Confident, Covered and JaccardDistant returned booleans, which xr.dot
aggregates with a logical or, and mapped NaN to False.
---
 weatherbenchX/metrics/categorical.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..ed8b04e 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -743,7 +743,12 @@ class Confident(base.PerVariableStatisticWithClimatology):
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    threshold = self._confidence_threshold * climatology_spread
+    return (
+        (predictions_spread < threshold)
+        .where(~np.isnan(predictions_spread - threshold))
+        .astype(np.float32)
+    )
 
 
 class Covered(base.PerVariableStatistic):
@@ -781,7 +786,11 @@ class Covered(base.PerVariableStatistic):
     predictions_high = predictions.quantile(
         self._interval_high, dim=self._ensemble_dim
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
+    return (
+        ((predictions_low <= targets) & (targets <= predictions_high))
+        .where(~np.isnan(predictions_low + predictions_high + targets))
+        .astype(np.float32)
+    )
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -859,7 +868,11 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    return (
+        (jaccard_distance > self._threshold)
+        .where(~np.isnan(union_length))
+        .astype(np.float32)
+    )
 
 
 class Opportunism(base.PerVariableMetric):
-- 
2.43.0


From d7b51022ef9e388c092dcd7039f000495e2ef027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 02/27] fix: do not skip missing ensemble members in
 opportunism quantiles

---
 weatherbenchX/metrics/categorical.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index ed8b04e..c794e8b 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -735,8 +735,10 @@ class Confident(base.PerVariableStatisticWithClimatology):
 
     # Get the spread of the predictions.
     predictions_spread = predictions.quantile(
-        self._spread_high, dim=self._ensemble_dim
-    ) - predictions.quantile(self._spread_low, dim=self._ensemble_dim)
+        self._spread_high, dim=self._ensemble_dim, skipna=False
+    ) - predictions.quantile(
+        self._spread_low, dim=self._ensemble_dim, skipna=False
+    )
 
     # Climatologies are already quantiles.
     climatology_spread = aligned_climatology.sel(
@@ -781,10 +783,10 @@ class Covered(base.PerVariableStatistic):
   ) -> xr.DataArray:
     """Computes coverage per variable."""
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
     return (
         ((predictions_low <= targets) & (targets <= predictions_high))
@@ -834,10 +836,10 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     """Computes jaccard distance per variable."""
     del targets  # Unused.
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
     climatology_low = aligned_climatology.sel(quantile=self._interval_low)
     climatology_high = aligned_climatology.sel(quantile=self._interval_high)
-- 
2.43.0


From cb1a12cb8d30abd482e2afcdab4d9fe382c0e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 03/27] fix: RankedProbabilityScore keeps missing values

A missing cell summed to a perfect score of 0.
---
 weatherbenchX/metrics/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index c794e8b..195787c 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    return ((predictions - targets) ** 2).sum(self._bin_dim, skipna=False)
 
 
 # Metrics
-- 
2.43.0


From 772d6bdf4af0a4f934153574b1199a3c4df16fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 04/27] fix: EnsembleErrorExceedance keeps missing values

---
 weatherbenchX/metrics/probabilistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..fed83c7 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -735,7 +735,7 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
       targets: xr.DataArray,
   ) -> xr.DataArray:
     out = super()._compute_per_variable(predictions, targets)
-    return out.mean(dim=self._ensemble_dim)
+    return out.mean(dim=self._ensemble_dim, skipna=False)
 
 
 class UnbiasedEnsembleMeanRMSE(base.PerVariableMetric):
-- 
2.43.0


From 9e15b9c54c83332b095581a0f4c6af3e13e3c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 05/27] fix: RankHistogram keeps missing values

A missing target or member was counted as a valid rank.
---
 weatherbenchX/metrics/probabilistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index fed83c7..fa805b9 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1217,4 +1217,5 @@ class RankHistogram(base.PerVariableStatistic):
     categories.coords['rank'] = categories
 
     # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    missing = np.isnan(targets) | np.isnan(predictions).any(self._ensemble_dim)
+    return (ranks == categories).where(~missing).astype(np.float32)
-- 
2.43.0


From 5b065416baddb2cac923b0c3491633513504aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 06/27] fix: CRPSEnsembleDistance forwards skipna_ensemble to
 all its statistics

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index fa805b9..aae7f8c 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -632,7 +632,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -644,6 +647,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From 2b27f3c1104f9387c598c6a2a706cf3e6c78a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 07/27] fix: RelativeEconomicValue statistics of different
 ensemble sizes collided

---
 weatherbenchX/metrics/probabilistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index aae7f8c..d880f06 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1039,7 +1039,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
-- 
2.43.0


From e3c1e0d0548de849029c06ee7bb1540a315f5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 08/27] fix: include options of deterministic statistics in
 their unique names

---
 weatherbenchX/metrics/deterministic.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..e3f43f2 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -48,6 +48,10 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    return 'RelativeIntensity_' + '_'.join(self._spatial_dims)
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -135,6 +139,11 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
+    return 'PredictionPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -159,6 +168,15 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    suffix = (
+        '_copy_nans_from_predictions'
+        if self._copy_nans_from_predictions
+        else ''
+    )
+    return 'TargetPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -200,7 +218,7 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join([*self._vector_name, *self._u_name, *self._v_name])
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
-- 
2.43.0


From 362cd03b15b291cb8599b946f3d9a8e9ffdbc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 09/27] fix: include the thresholds in the unique names of
 error exceedances

---
 weatherbenchX/metrics/deterministic.py | 7 +++++++
 weatherbenchX/metrics/probabilistic.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index e3f43f2..6265e75 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -14,6 +14,7 @@
 """Implementation of deterministic metrics and assiciated statistics."""
 from absl import logging
 from collections.abc import Hashable
+import hashlib
 from typing import Iterable, Mapping, Sequence, Union
 import jax
 import numpy as np
@@ -296,6 +297,12 @@ class ErrorExceedance(base.PerVariableStatistic):
       )
     self._thresholds = thresholds
 
+  @property
+  def unique_name(self) -> str:
+    # Hash the thresholds since they may be large arrays.
+    digest = hashlib.sha256(repr(self._thresholds.to_dict()).encode())
+    return f'{type(self).__name__}_{digest.hexdigest()[:16]}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d880f06..5d7ff82 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -733,6 +733,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
-- 
2.43.0


From 7dffbffe823b529d578a75d559f3db2154f2e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 10/27] fix: include skipna_ensemble in the unique names of
 ensemble statistics

---
 weatherbenchX/metrics/probabilistic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 5d7ff82..6e5920a 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -48,7 +48,10 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return (
+        f'{self._wrapped_statistic.unique_name}_each_{self._ensemble_dim}{suffix}'
+    )
 
   def compute(
       self,
@@ -124,7 +127,8 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return f'CRPSSkill_{self._ensemble_dim}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -189,7 +193,8 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}{suffix}'
 
   def _compute_per_variable(
       self,
-- 
2.43.0


From 551005173fea6763e17d7723674e766e9c29ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 11/27] fix: include bin options in the unique names of ranked
 probability scores

---
 weatherbenchX/metrics/categorical.py   | 2 +-
 weatherbenchX/metrics/probabilistic.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 195787c..d86a8b9 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 6e5920a..23c93c0 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -411,6 +411,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._skipna_ensemble = skipna_ensemble
     self._fair = fair
     self._bin_dim = bin_dim
+    self._right_inclusive = right_inclusive
     self._unique_name_suffix = unique_name_suffix
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
@@ -463,7 +464,8 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
-        f'{self._unique_name_suffix}'
+        f'right_inclusive_{self._right_inclusive}_'
+        f'{self._bin_dim}_{self._unique_name_suffix}'
     )
 
   def _compute_per_variable(
-- 
2.43.0


From d9445b827871fdb5ada9c0f64c8995079a89086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 12/27] fix: include ensemble_dim in the unique names of
 opportunism statistics

---
 weatherbenchX/metrics/categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index d86a8b9..031bf99 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -719,6 +719,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
   def unique_name(self) -> str:
     return (
         'Confident'
+        + f'_{self._ensemble_dim}'
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
@@ -772,6 +773,7 @@ class Covered(base.PerVariableStatistic):
   def unique_name(self) -> str:
     return (
         'Covered'
+        + f'_{self._ensemble_dim}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
     )
@@ -822,6 +824,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
   def unique_name(self) -> str:
     return (
         'JaccardDistant'
+        + f'_{self._ensemble_dim}'
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
-- 
2.43.0


From 0626e52251a2a4b55f0c639a8c7e80ae0a0af2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 13/27] fix: include options in the unique name of
 WeibullEnsembleToProbabilistic

---
 weatherbenchX/metrics/wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..f8183bf 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -493,7 +493,10 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return (
+        'ensemble_to_probabilistic_by_weibull_plotting_position_'
+        f'{self._ensemble_dim=}_{self._skipna=}'
+    )
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
-- 
2.43.0


From 50b59fa96c216a6bc5961c9e8a8267aeeff0813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 14/27] fix: keep missing values in
 EnsembleRankedProbabilityScore when skipping members

skipna_ensemble is about missing ensemble members. Passing it to the sum over
bins turned cells with a missing target, or with no valid member, into 0.
---
 weatherbenchX/metrics/probabilistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 23c93c0..8f23181 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -481,7 +481,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     ]
 
     # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    return cdf_mse.sum(self._bin_dim, skipna=False)
 
 
 ### Metrics
-- 
2.43.0


From 317f88f853b52c3afee596d8798731fb14237d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 15/27] fix: do not add the mask to the caller's arrays in
 add_nan_mask_to_data

---
 weatherbenchX/data_loaders/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..ade2d33 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -52,7 +52,7 @@ def add_nan_mask_to_data(
   data = dict(data)
   for var in data:
     if variable_subset is None or var in variable_subset:
-      data[var].coords['mask'] = ~np.isnan(data[var])
+      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
   return data
 
 
-- 
2.43.0


From 163fe2c222892f38f66f7352c7a94fdbaeaee294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 16/27] fix: do not modify the interpolated data in
 GridToSparseWithAltitudeAdjustment

---
 weatherbenchX/interpolations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..240984c 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -348,7 +348,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if da.name in ['2m_temperature', '10m_wind_speed']:
@@ -362,7 +362,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       )
       if da.name == '2m_temperature':
         adjustment = sparse_higher_than_grid_m * LAPSE_RATE_K_PER_M
-        da_like_reference += adjustment
+        da_like_reference = da_like_reference + adjustment
       elif da.name == '10m_wind_speed':
         # Only adjust stations > 100m above model orography.
         adjustment_factor = xr.ones_like(sparse_higher_than_grid_m)
@@ -376,7 +376,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
         adjustment_factor = adjustment_factor.where(
             sparse_higher_than_grid_m < 1100, 3
         )
-        da_like_reference *= adjustment_factor
+        da_like_reference = da_like_reference * adjustment_factor
     return da_like_reference
 
 
-- 
2.43.0


From 1185e900161e734747d97499766b176e972a1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 17/27] fix: keep add_values_to_coords of the loader wrapped in
 ConstantLatencyWrapper

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..5332825 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From a8f76d074013a9afbe96518a8b7f48e22ef0a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 18/27] fix: chunk offsets for a lead time slice in TimeChunks

---
 weatherbenchX/time_chunks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..fdb0270 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,9 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # The chunk size is None for a slice, which is a single chunk at offset 0.
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From 9cae8a13ad1912c624356ffaed630e553959ff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 19/27] fix: do not skip missing values when summing resampled
 statistics

A missing sum was dropped while its weight was kept, so that resampled means
were too small. IIDBootstrap and the point estimate propagate them.
---
 weatherbenchX/statistical_inference/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..61868c9 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -545,7 +545,7 @@ class StationaryBootstrap(Bootstrap):
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From ce36fdbd3fed6dbe5f0f7ea2758af68506e2f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 20/27] fix: start of the interval for lead time slices in
 sparse observations

A slice starting at 6h loaded observations from 6h before the init time.
---
 weatherbenchX/data_loaders/sparse_parquet.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..f70b8de 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,13 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
-    Otherwise, tolerance and file tolerance are applied around valid_time.
+    If lead_time_slice is given, load data from valid_time +
+    lead_time_slice.start to valid_time + lead_time_slice.stop. Otherwise, tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for the interval of lead
+        times relative to valid_time.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +223,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 5abab68ae23051b6a2cc95b7ce69935b62cb859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 21/27] fix: clip reference coordinates that are in descending
 order

---
 weatherbenchX/interpolations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 240984c..8b4f63d 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -261,9 +261,12 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
+        # Not a slice, which is empty for coordinates in descending order.
+        within = np.logical_and(
+            reference[coord].values >= da[coord].values.min(),
+            reference[coord].values <= da[coord].values.max(),
         )
+        reference = reference.isel({coord: within})
 
     # If dims not explicit, interpolate all dims that have a corresponding
     # coordinate in the reference.
-- 
2.43.0


From 9a591e31b8490d5c59a108d97ab902a495012c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 22/27] fix: bootstrap p-values count replicates tied with the
 null value in both tails

---
 weatherbenchX/statistical_inference/bootstrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 61868c9..21721fc 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -115,8 +115,11 @@ class Bootstrap(base.StatisticalInferenceMethod):
         return np.nan
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
-      empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # Replicates tied with the null value count towards both tails, otherwise
+      # it would be rejected although it is inside the interval.
+      lower_tail = np.interp(null_value, data, q)
+      upper_tail = np.interp(-null_value, -data[::-1], q)
+      return min(1., 2 * min(lower_tail, upper_tail))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From 0f3a724408ba076b10422373c9a2deb361379a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 23/27] fix: METARFromParquet ignored rename_variables

---
 weatherbenchX/data_loaders/sparse_parquet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index f70b8de..9b0fc55 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -479,6 +479,10 @@ class METARFromParquet(SparseObservationsFromParquet):
       preprocessing_fn: Optional[Callable[[pd.DataFrame], pd.DataFrame]] = None,
       **kwargs,
   ):
+    if rename_variables is None:
+      rename_variables = METAR_TO_ERA5_NAMES
+    raw_names = {v: k for k, v in rename_variables.items()}
+
     def metar_preprocessing_fn(
         df: pd.DataFrame,
         preprocessing_fn: Optional[
@@ -490,7 +494,7 @@ class METARFromParquet(SparseObservationsFromParquet):
       df = set_bad_quality_to_nan(
           df,
           # Rename to raw variables since this happens before renaming.
-          [ERA5_TO_METAR_NAMES[v] for v in variables],
+          [raw_names.get(v, v) for v in variables],
           METAR_QC_SUFFIX,
           METAR_BAD_QUALITY_FLAGS,
       )
@@ -511,7 +515,7 @@ class METARFromParquet(SparseObservationsFromParquet):
         dropna=dropna,
         tolerance=tolerance,
         partitioned_by=partitioned_by,
-        rename_variables=METAR_TO_ERA5_NAMES,
+        rename_variables=rename_variables,
         include_slice_end_time=include_slice_end_time,
         remove_duplicates=remove_duplicates,
         pick_closest_duplicate_by=pick_closest_duplicate_by,
-- 
2.43.0


From 6d020e7f1ed8cee832f94ca0eee86155cf7e8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 24/27] fix: drop the dashboard symbol of a model that does not
 exist

---
 public_benchmark/apps/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/public_benchmark/apps/config.py b/public_benchmark/apps/config.py
index 4588acc..8051f18 100644
--- a/public_benchmark/apps/config.py
+++ b/public_benchmark/apps/config.py
@@ -143,7 +143,6 @@ SYMBOLS = {
     "Keisler (2022) vs ERA5": "circle",
     "ERA5-Forecasts vs ERA5": "circle",
     "NeuralGCM 0.7 vs ERA5": "circle",
-    "neuralgcm_hres_vs_era": "circle",
     "NeuralGCM ENS vs ERA5": "square",
     "NeuralGCM ENS (mean) vs ERA5": "square",
     "NeuralGCM ENS (1st member) vs ERA5": "triangle-down",
-- 
2.43.0


From 8f8dcb8d034688a4ca61014a6745d3b81434b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 25/27] fix: do not end a chunk's statistics when aggregating
 one raises StopIteration

---
 weatherbenchX/beam_pipeline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..0c42eef 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -190,7 +190,9 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
         # Compute stats.
         start_time = time.time()
         stat_name, stats = next(stats_iter)
-
+      except StopIteration:
+        break
+      else:
         # Create a short name so that it's more readable in dashboards.
         short_stat_name = (
             stat_name[:30] + '...' if len(stat_name) > 30 else stat_name
@@ -236,8 +238,6 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
               lead_time_offset=lead_time_offset,
           )
           yield aggregation_key, aggregation_state.sum_weights
-      except StopIteration:
-        break
 
 
 class ConcatPerStatisticPerVariable(beam.PTransform):
-- 
2.43.0


From 797fc7a1b7f1266e3264078dd8e078274dfafcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 26/27] fix: report unreadable result files instead of skipping
 them as missing

---
 public_benchmark/combine_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_benchmark/combine_results.py b/public_benchmark/combine_results.py
index c7c201e..58a2ca3 100644
--- a/public_benchmark/combine_results.py
+++ b/public_benchmark/combine_results.py
@@ -202,7 +202,7 @@ def process_results(model, year, resolution):
   fn = path.join(INPUT_DIR.value, f"{model}_{resolution}_{year}.nc")
   try:
     ds = open_nc(fn)
-  except Exception:  # pylint: disable=broad-exception-caught
+  except FileNotFoundError:
     print(fn, "does not exist.")
     return
 
-- 
2.43.0


From 7dbe259b4ae1282b808162c8be2667db44023b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:08 +0000
Subject: [PATCH 27/27] fix: keep the dataset as it was when preparing it fails

maybe_prepare_dataset stored every intermediate dataset on the loader, so a
call after one that failed part of the way (a worker retrying after a read
error, an interrupted notebook cell) preprocessed and renamed it twice.
---
 weatherbenchX/data_loaders/xarray_loaders.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/weatherbenchX/data_loaders/xarray_loaders.py b/weatherbenchX/data_loaders/xarray_loaders.py
index d2a4b8d..3266169 100644
--- a/weatherbenchX/data_loaders/xarray_loaders.py
+++ b/weatherbenchX/data_loaders/xarray_loaders.py
@@ -118,26 +118,30 @@ class XarrayDataLoader(base.DataLoader):
     if self._preprocessed:
       return
 
-    if self._ds is None:
+    # The prepared dataset is only stored once it is complete, so that a call
+    # after one that failed does not start from a partly prepared dataset.
+    ds = self._ds
+    if ds is None:
       logging.info('Opening dataset from path: %s', self._path)
       assert self._path is not None
       if self._path.rstrip('/').endswith('.zarr'):
-        self._ds = xr.open_zarr(self._path)
+        ds = xr.open_zarr(self._path)
       else:
-        self._ds = xr.open_dataset(self._path)
+        ds = xr.open_dataset(self._path)
 
     if self._preprocessing_fn is not None:
-      self._ds = self._preprocessing_fn(self._ds)
-    self._ds = _rename_dataset(
-        self._ds,
+      ds = self._preprocessing_fn(ds)
+    ds = _rename_dataset(
+        ds,
         self._rename_dimensions,
         self._rename_variables,
         self._automatically_convert_lat_lon_to_latitude_longitude,
     )
     if self._variables is not None:
-      self._ds = self._ds[list(self._variables)]
+      ds = ds[list(self._variables)]
     if self._sel_kwargs is not None:
-      self._ds = self._ds.sel(**self._sel_kwargs)
+      ds = ds.sel(**self._sel_kwargs)
+    self._ds = ds
     self._preprocessed = True
 
   def _load_chunk_from_source(
-- 
2.43.0

