D = 'weatherbenchX/metrics/deterministic.py'
C = 'weatherbenchX/metrics/categorical.py'
P = 'weatherbenchX/metrics/probabilistic.py'
S = 'weatherbenchX/metrics/spatial.py'
W = 'weatherbenchX/metrics/wrappers.py'
B = 'weatherbenchX/metrics/base.py'
CASES = [
    ('drop_skipna', 'C05', P, "    return f'EnsembleVariance_{self._ensemble_dim}_skipna_ensemble_{self._skipna_ensemble}'", "    return f'EnsembleVariance_{self._ensemble_dim}'", 1),
    ('wrap_lost', 'C05', S, "  if wrap_longitude:\n", "  if False:\n", 1),
    ('rounded', 'C05', W, "','.join([str(t) for t in self._threshold_value])", "','.join([f'{t:.2f}' for t in self._threshold_value])", 1),
    ('count', 'C05', W, "','.join([str(t) for t in self._bin_values])", "f'{len(self._bin_values)}'", 1),
    ('which', 'C05', W, "_{self.transform.which}_{self", "_{self", 1),
    ('transform', 'C05', W, "{self.transform.which}_{self.transform.unique_name_suffix}'", "{self.transform.which}_{type(self.transform).__name__}'", 1),
    ('right', 'C05', W, "_right_inclusive_{self._right_inclusive}'", "'", 1),
    ('repr_values', 'C05', D, "repr(self._thresholds.to_dict())", "repr(self._thresholds.values)", 1),
    ('short_hash', 'C05', D, "hexdigest()[:16]", "hexdigest()[:2]", 1),
    ('same_name', 'C05', C, "return 'FalsePositives'", "return 'TruePositives'", 1),
    ('subclass', 'C05', D, "return f'{type(self).__name__}_{digest.hexdigest()[:16]}'", "return f'ErrorExceedance_{digest.hexdigest()[:16]}'", 0),
    ('variables', 'C05', W, "    return f'{self.statistic.unique_name}_{variables_str}'", "    return f'{self.statistic.unique_name}_{len(self.variables)}'", 1),
    ('rev', 'C05', P, "f'all_thresholds_for_ensemble_size_{ensemble_size}'", "'all_thresholds'", 1),
    ('rev_gate', 'C05', P, "    if probability_thresholds is not None and statistic_suffix is None:\n      raise ValueError(\n          'If probability_thresholds is specified, statistic_suffix must be'\n          ' specified.'\n      )\n", "", 1),
    ('hash', 'C05', D, "repr(self._thresholds.to_dict())", "repr(hash(str(self._thresholds.to_dict())))", 1),
    ('seeps_p1', 'C05', C, "_min_p1_", "_", 0),
    ('conf', 'C05', C, "        + f'_spread_high={self._spread_high}'\n", "", 1),
    ('rank', 'C05', P, "return f'RankHistogram_{self._ensemble_dim}'", "return 'RankHistogram'", 1),
    ('ok_format', '*', P, "return f'RankHistogram_{self._ensemble_dim}'", "return 'RankHistogram_' + self._ensemble_dim", 0),
    ('ok_tuple', 'C05', W, "'_'.join(self.variables)", "str(tuple(self.variables))", 0),
    ('ok_helper', '*', W, "    variables_str = '_'.join(self.variables)\n", "    variables_str = _joined(self.variables)\n", 0),
    ('first_wins', 'C05', B, "unique_statistics[stat.unique_name] = stat", "unique_statistics[type(stat).__name__] = stat", 1),
]
CASES[20] = ('ok_helper', '*', W, ["    variables_str = '_'.join(self.variables)\n", "def binarize_thresholds("],
             ["    variables_str = _joined(self.variables)\n", "def _joined(xs):\n  return '_'.join(xs)\n\n\ndef binarize_thresholds("], 0)
