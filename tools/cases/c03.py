D = 'weatherbenchX/metrics/deterministic.py'
C = 'weatherbenchX/metrics/categorical.py'
P = 'weatherbenchX/metrics/probabilistic.py'
W = 'weatherbenchX/metrics/wrappers.py'
S = 'weatherbenchX/metrics/spatial.py'
CASES = [
    ('exceed', 'C03', D, "    out = out.where(~abs_error.isnull())\n", "", 1),
    ('ensmean_skip', 'C03', P, "return out.mean(dim=self._ensemble_dim, skipna=False)", "return out.mean(dim=self._ensemble_dim)", 1),
    ('covered_low_only', 'C03', C, "        .where(~np.isnan(predictions_low + predictions_high + targets))", "        .where(~np.isnan(predictions_low + predictions_high))", 1),
    ('rank_targets_only', 'C03', P, "np.isnan(predictions).any(self._ensemble_dim)", "np.isnan(predictions).all(self._ensemble_dim)", 1),
    ('relu', 'C03', W, "xr.where(da > 0, da, 0).where(~np.isnan(da))", "xr.where(da > 0, da, 0)", 1),
    ('relu_fmax', 'C03', W, "xr.where(da > 0, da, 0).where(~np.isnan(da))", "np.fmax(da, 0)", 1),
    ('rps_sum', 'C03', C, ".sum(self._bin_dim, skipna=False)", ".sum(self._bin_dim)", 1),
    ('quantile', 'C03', C, "        self._interval_low, dim=self._ensemble_dim, skipna=False", "        self._interval_low, dim=self._ensemble_dim", 1),
    ('binarize', 'C03', W, "(x > threshold).where(~np.isnan(x)).astype(np.float32)", "(x > threshold).astype(np.float32)", 1),
    ('binarize_thr', 'C03', W, "(x > threshold).where(~np.isnan(x)).astype(np.float32)", "(x > threshold).where(~np.isnan(threshold)).astype(np.float32)", 1),
    ('tp_or', 'C03', C, "(predictions.astype(bool) * targets.astype(bool))\n        .where(~np.isnan(predictions * targets))", "(predictions.astype(bool) * targets.astype(bool))\n        .where(~(np.isnan(predictions) & np.isnan(targets)))", 1),
    ('fss_fill', 'C03', S, "    return 1 - (\n        statistic_values['SquaredFractionsError']\n        / (\n            statistic_values['SquaredPredictionFraction']\n            + statistic_values['SquaredTargetFraction']\n        )\n    )", "    return (1 - (\n        statistic_values['SquaredFractionsError']\n        / (\n            statistic_values['SquaredPredictionFraction']\n            + statistic_values['SquaredTargetFraction']\n        )\n    )).fillna(1.0)", 1),
    ('nan_to_num', 'C03', P, "    return predictions.var(\n        dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble\n    )", "    return predictions.fillna(0.0).var(\n        dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble\n    )", 1),
    ('tp_sep', '*', C, "(predictions.astype(bool) * targets.astype(bool))\n        .where(~np.isnan(predictions * targets))", "(predictions.astype(bool) * targets.astype(bool))\n        .where(~np.isnan(predictions)).where(~targets.isnull())", 0),
    ('relu_max', '*', W, "xr.where(da > 0, da, 0).where(~np.isnan(da))", "np.maximum(da, 0)", 0),
    ('relu_clip', '*', W, "xr.where(da > 0, da, 0).where(~np.isnan(da))", "xr.where(np.isnan(da), da, xr.where(da > 0, da, 0))", 0),
    ('exceed_one', '*', D, "    out = out.where(~abs_error.isnull())\n    out = out.where(~thresholds.isnull())\n", "    out = out.where(abs_error.notnull() & thresholds.notnull())\n", 0),
    ('rank_or', '*', P, "np.isnan(targets) | np.isnan(predictions).any(self._ensemble_dim)", "predictions.isnull().any(self._ensemble_dim) | targets.isnull()", 0),
]
