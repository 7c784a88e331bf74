D = 'weatherbenchX/metrics/deterministic.py'
C = 'weatherbenchX/metrics/categorical.py'
P = 'weatherbenchX/metrics/probabilistic.py'
W = 'weatherbenchX/metrics/wrappers.py'
S = 'weatherbenchX/metrics/spatial.py'
CASES = [
    ('exceed', 'C04', D, "(abs_error > thresholds).astype(float)", "(abs_error > thresholds)", 1),
    ('exceed_int', 'C04', D, ["(abs_error > thresholds).astype(float)", "    out = out.where(~abs_error.isnull())\n", "    out = out.where(~thresholds.isnull())\n"], ["(abs_error > thresholds).astype(int)", "", ""], 1),
    ('rank', 'C04', P, "(ranks == categories).where(~missing).astype(np.float32)", "(ranks == categories).where(~missing)", 1),
    ('rank_int', 'C04', P, "(ranks == categories).where(~missing).astype(np.float32)", "(ranks == categories).astype(np.int8)", 1),
    ('binarize', 'C04', W, "(x > threshold).where(~np.isnan(x)).astype(np.float32)", "x > threshold", 1),
    ('cdf', 'C04', W, "    cdf = (da < thresholds).astype('float')", "    cdf = da < thresholds", 1),
    ('cdf_int', 'C04', W, "    cdf = (da <= thresholds).astype('float')", "    cdf = (da <= thresholds).astype('int64')", 1),
    ('tp_bool', 'C04', C, "        (predictions.astype(bool) * targets.astype(bool))\n        .where(~np.isnan(predictions * targets))\n        .astype(np.float32)", "        (predictions.astype(bool) * targets.astype(bool))\n        .where(~np.isnan(predictions * targets), False)\n        .astype(bool)", 1),
    ('exceed_f64', '*', D, "(abs_error > thresholds).astype(float)", "(abs_error > thresholds).astype('float64')", 0),
    ('exceed_where', '*', D, "(abs_error > thresholds).astype(float)", "xr.where(abs_error > thresholds, 1.0, 0.0)", 0),
    ('tp_and', '*', C, "(predictions.astype(bool) * targets.astype(bool))", "(predictions.astype(bool) & targets.astype(bool))", 0),
    ('tp_ne', '*', C, "(predictions.astype(bool) * targets.astype(bool))", "np.logical_and(predictions != 0, targets.astype('bool'))", 0),
    ('tp_order', '*', C, "        (predictions.astype(bool) * targets.astype(bool))\n        .where(~np.isnan(predictions * targets))\n        .astype(np.float32)", "        (predictions.astype(bool) * targets.astype(bool)).astype(np.float32)\n        .where(~np.isnan(predictions * targets))", 0),
    ('tn_not', '*', C, "(~predictions.astype(bool) * ~targets.astype(bool))", "(~(predictions.astype(bool) | targets.astype(bool)))", 0),
    ('tn_eq', '*', C, "(~predictions.astype(bool) * ~targets.astype(bool))", "((predictions == 0) & (targets == 0))", 0),
    ('fp_wrong', 'C15', C, "(predictions.astype(bool) * ~targets.astype(bool))", "(predictions.astype(bool) | ~targets.astype(bool))", 1),
    ('binarize_np', '*', W, "(x > threshold).where(~np.isnan(x)).astype(np.float32)", "(x > threshold).where(~np.isnan(x)).astype('float32')", 0),
]
