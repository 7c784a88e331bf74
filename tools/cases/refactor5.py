"""Hand-written behaviour-preserving rewrites: every check must stay quiet."""

P = 'weatherbenchX/metrics/probabilistic.py'
PP = 'C02 C03 C04 C05 C06 C07 C15 C17 C18 C23 C24'

CASES = [
    ('prob-averaged-comprehension', PP, P, ['''    statistics = self._wrapped_statistic.compute(predictions, targets)

    # Enforce that every single array has the ensemble dimension.
    def reduce_over_ensemble(da: xr.DataArray) -> xr.DataArray:
      if self._ensemble_dim not in da.dims:
        raise ValueError(
            f'Dimension {self._ensemble_dim} not found in {da.dims}'
        )
      return da.mean(dim=self._ensemble_dim, skipna=self._skipna_ensemble)

    return xarray_tree.map_structure(reduce_over_ensemble, statistics)
''', '''    wrapped_statistics = {}
    for stat_name, stat in self._wrapped_metric.statistics.items():
      wrapped_statistics[stat_name] = EnsembleAveragedStatistic(
          wrapped_statistic=stat,
          ensemble_dim=self._ensemble_dim,
          skipna_ensemble=self._skipna_ensemble,
      )
    return wrapped_statistics
'''], ['''    return xarray_tree.map_structure(
        self._reduce_over_ensemble,
        self._wrapped_statistic.compute(predictions, targets),
    )

  def _reduce_over_ensemble(self, da: xr.DataArray) -> xr.DataArray:
    dim = self._ensemble_dim
    if dim in da.dims:
      return da.mean(dim, skipna=self._skipna_ensemble)
    raise ValueError(f'Dimension {dim} not found in {da.dims}')
''', '''    options = dict(
        ensemble_dim=self._ensemble_dim, skipna_ensemble=self._skipna_ensemble
    )
    return {
        name: EnsembleAveragedStatistic(stat, **options)
        for name, stat in self._wrapped_metric.statistics.items()
    }
''']),
    ('prob-skill-branches', PP, P, ['''    reduce_dims = [self._ensemble_dim]
    if self._ensemble_dim in targets.dims:
      # TODO: shoyer - Add an implementation based on sort (similar to
      # scipy.stats.energy_distance), for which runtime would scale like
      # O((N + M) * log(N + M)) rather than O(N * M) for prediction and
      # target realizations of sizes N and M.
      pseudo_ensemble_dim = f'{self._ensemble_dim}_PSEUDO_FOR_TARGETS'
      reduce_dims += [pseudo_ensemble_dim]
      targets = targets.rename({self._ensemble_dim: pseudo_ensemble_dim})
    return np.abs(predictions - targets).mean(
        reduce_dims, skipna=self._skipna_ensemble
    )
'''], ['''    dim = self._ensemble_dim
    if dim not in targets.dims:
      error = abs(predictions - targets)
      return error.mean(dim, skipna=self._skipna_ensemble)
    target_dim = dim + '_PSEUDO_FOR_TARGETS'
    error = abs(predictions - targets.rename({dim: target_dim}))
    return error.mean([dim, target_dim], skipna=self._skipna_ensemble)
''']),
    ('prob-spread-selected', PP, P, ['''    if self._which == 'predictions':
      da = predictions
    elif self._which == 'targets':
      da = targets
    else:
      raise ValueError(f'Unhandled {self._which=}')

    if self._skipna_ensemble:
      n_ensemble = da.count(self._ensemble_dim)
    else:
      n_ensemble = da.sizes[self._ensemble_dim]
''', '''    if not self._skipna_ensemble:
''', '''      # Normalizing before the sum would be numerically''' if False else '''      second_ensemble_dim = 'ensemble_dim_2'
      da_2 = da.rename({self._ensemble_dim: second_ensemble_dim})
'''], ['''    inputs = {'predictions': predictions, 'targets': targets}
    if self._which not in inputs:
      raise ValueError(f'Unhandled {self._which=}')
    da = inputs[self._which]
    n_ensemble = (
        da.count(self._ensemble_dim)
        if self._skipna_ensemble
        else da.sizes[self._ensemble_dim]
    )
''', '''    if self._skipna_ensemble is False or not self._skipna_ensemble:
''', '''      second_ensemble_dim = 'ensemble_dim_2'
      renames = {self._ensemble_dim: second_ensemble_dim}
      da_2 = da.rename(renames)
''']),
    ('prob-rank-inverse', PP, P, ['''  x = np.asarray(x)
  x = np.swapaxes(x, axis, -1)
  j = np.argsort(x, axis=-1)
  ordinal_ranks = np.broadcast_to(
      np.arange(1, x.shape[-1] + 1, dtype=int), x.shape
  )
  ordered_ranks = np.empty(j.shape, dtype=ordinal_ranks.dtype)
  np.put_along_axis(ordered_ranks, j, ordinal_ranks, axis=-1)
  return np.swapaxes(ordered_ranks, axis, -1)


def _rank_da(da: xr.DataArray, dim: str) -> np.ndarray:
  return da.copy(data=_rankdata(da.values, axis=da.dims.index(dim)))
'''], ['''  values = np.swapaxes(np.asarray(x), axis, -1)
  order = values.argsort(axis=-1)
  n = values.shape[-1]
  ranks = np.broadcast_to(np.arange(1, n + 1, dtype=int), values.shape)
  result = np.empty(order.shape, dtype=ranks.dtype)
  np.put_along_axis(result, order, ranks, axis=-1)
  return np.swapaxes(result, axis, -1)


def _rank_da(da: xr.DataArray, dim: str) -> np.ndarray:
  ranks = _rankdata(da.values, da.dims.index(dim))
  return da.copy(data=ranks)
''']),
    ('prob-unbiased-moments', PP, P, ['''    if self._ensemble_dim in predictions.dims:
      predictions_mean = predictions.mean(
          dim=self._ensemble_dim, skipna=self._skipna_ensemble
      )
      predictions_var = predictions.var(
          dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble
      )
      if self._skipna_ensemble:
        num_predictions = predictions.count(self._ensemble_dim)
      else:
        num_predictions = predictions.sizes[self._ensemble_dim]
      predictions_bias = predictions_var / num_predictions
    else:
      raise ValueError(
          f'Dimension {self._ensemble_dim} not found in {predictions.dims}'
      )

    if self._ensemble_dim in targets.dims:
      targets_mean = targets.mean(
          dim=self._ensemble_dim, skipna=self._skipna_ensemble
      )
      targets_var = targets.var(
          dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble
      )
      if self._skipna_ensemble:
        num_targets = targets.count(self._ensemble_dim)
      else:
        num_targets = targets.sizes[self._ensemble_dim]
      targets_bias = targets_var / num_targets
    else:
      targets_mean = targets
      targets_bias = 0.0
    biased_mse = (predictions_mean - targets_mean) ** 2
    return biased_mse - predictions_bias - targets_bias
'''], ['''    if self._ensemble_dim not in predictions.dims:
      raise ValueError(
          f'Dimension {self._ensemble_dim} not found in {predictions.dims}'
      )
    predictions_mean, predictions_bias = self._mean_and_bias(predictions)
    if self._ensemble_dim not in targets.dims:
      return (predictions_mean - targets) ** 2 - predictions_bias
    targets_mean, targets_bias = self._mean_and_bias(targets)
    biased_mse = np.square(predictions_mean - targets_mean)
    return biased_mse - (predictions_bias + targets_bias)

  def _mean_and_bias(self, da: xr.DataArray):
    """Ensemble mean, and the bias of its square."""
    kwargs = {'dim': self._ensemble_dim, 'skipna': self._skipna_ensemble}
    mean = da.mean(**kwargs)
    variance = da.var(ddof=1, **kwargs)
    if self._skipna_ensemble:
      size = da.count(self._ensemble_dim)
    else:
      size = da.sizes[self._ensemble_dim]
    return mean, variance / size
''']),
    ('prob-rps-cdf-factory', PP, P, ['''    binned_prediction_wrapper = wrappers.ContinuousToCDF(
        which='predictions',
        threshold_values=self._prediction_bin_thresholds,
        threshold_dim=bin_dim,
        unique_name_suffix=self._unique_name_suffix,
        enforce_monotonicity=enforce_monotonicity,
        right_inclusive=right_inclusive,
    )
    binned_target_wrapper = wrappers.ContinuousToCDF(
        which='targets',
        threshold_values=self._target_bin_thresholds,
        threshold_dim=bin_dim,
        unique_name_suffix=self._unique_name_suffix,
        enforce_monotonicity=enforce_monotonicity,
        right_inclusive=right_inclusive,
    )
''', '''    self._se_stat = wrappers.WrappedStatistic(
        wrappers.WrappedStatistic(se_stat, binned_target_wrapper),
        binned_prediction_wrapper,
    )
''', '''    cdf_mse = self._se_stat.compute({'tmp': predictions}, {'tmp': targets})[
        'tmp'
    ]

    # RPS is the sum of squared errors over the bin dimension.
    return cdf_mse.sum(self._bin_dim, skipna=False)
'''], ['''    def to_cdf(which, thresholds):
      return wrappers.ContinuousToCDF(
          which,
          thresholds,
          threshold_dim=bin_dim,
          unique_name_suffix=unique_name_suffix,
          enforce_monotonicity=enforce_monotonicity,
          right_inclusive=right_inclusive,
      )

''', '''    for transform in (
        to_cdf('targets', target_bin_thresholds),
        to_cdf('predictions', prediction_bin_thresholds),
    ):
      se_stat = wrappers.WrappedStatistic(se_stat, transform)
    self._se_stat = se_stat
''', '''    name = 'tmp'
    squared_errors = self._se_stat.compute(
        {name: predictions}, {name: targets}
    )
    return squared_errors[name].sum(dim=self._bin_dim, skipna=False)
''']),
    ('prob-crps-shared', PP, P, ['''        'CRPSSpread': CRPSSpread(
            ensemble_dim=self._ensemble_dim,
            use_sort=self._use_sort,
            fair=self._fair,
            skipna_ensemble=self._skipna_ensemble,
        ),
        'CRPSTargetSpread': CRPSSpread(
            ensemble_dim=self._ensemble_dim,
            use_sort=self._use_sort,
            fair=self._fair,
            which='targets',
            skipna_ensemble=self._skipna_ensemble,
        ),
    }
''', '''    return (
        statistic_values['CRPSSkill']
        - 0.5 * statistic_values['CRPSSpread']
        - 0.5 * statistic_values['CRPSTargetSpread']
    )
''', '''    return statistic_values['CRPSSkill'] - 0.5 * statistic_values['CRPSSpread']
'''], ['''        'CRPSSpread': self._spread('predictions'),
        'CRPSTargetSpread': self._spread('targets'),
    }

  def _spread(self, which: str) -> CRPSSpread:
    return CRPSSpread(
        self._ensemble_dim,
        self._use_sort,
        self._fair,
        which,
        self._skipna_ensemble,
    )
''', '''    skill = statistic_values['CRPSSkill']
    spreads = (
        statistic_values['CRPSSpread'] + statistic_values['CRPSTargetSpread']
    )
    return skill - spreads / 2
''', '''    spread = statistic_values['CRPSSpread'] / 2
    return statistic_values['CRPSSkill'] - spread
''']),
    ('prob-wasserstein-loop', PP, P, ['''    if self._ensemble_dim not in predictions.dims:
      raise ValueError(
          f'Ensemble dimension {self._ensemble_dim!r} not found in '
          f'predictions: {predictions}'
      )
    if self._ensemble_dim not in targets.dims:
      raise ValueError(
          f'Ensemble dimension {self._ensemble_dim!r} not found in '
          f'targets: {targets}'
      )

    input_core_dims = [[self._ensemble_dim], [self._ensemble_dim]]
''', '''        input_core_dims=input_core_dims,
'''], ['''    for name, da in (('predictions', predictions), ('targets', targets)):
      if self._ensemble_dim not in da.dims:
        raise ValueError(
            f'Ensemble dimension {self._ensemble_dim!r} not found in '
            f'{name}: {da}'
        )
''', '''        input_core_dims=[[self._ensemble_dim]] * 2,
''']),
    ('prob-rev-thresholds', PP, P, ['''    if ensemble_size is None and probability_thresholds is None:
      raise ValueError(
          'Either ensemble_size or probability_thresholds must be specified.'
      )
    if probability_thresholds is not None and ensemble_size is not None:
      raise ValueError(
          'Only one of ensemble_size or probability_thresholds must be'
          ' specified.'
      )
    if probability_thresholds is not None and statistic_suffix is None:
      raise ValueError(
          'If probability_thresholds is specified, statistic_suffix must be'
          ' specified.'
      )
''', '''    self._thresholds = probability_thresholds
    if self._thresholds is None:
      # Without''' if False else '''    self._thresholds = probability_thresholds
    if self._thresholds is None:
'''], ['''    if probability_thresholds is None:
      if ensemble_size is None:
        raise ValueError(
            'Either ensemble_size or probability_thresholds must be specified.'
        )
    elif ensemble_size is not None:
      raise ValueError(
          'Only one of ensemble_size or probability_thresholds must be'
          ' specified.'
      )
    elif statistic_suffix is None:
      raise ValueError(
          'If probability_thresholds is specified, statistic_suffix must be'
          ' specified.'
      )
''', '''    self._thresholds = probability_thresholds
    if probability_thresholds is None:
''']),
    ('prob-rev-statistics', PP, P, ['''    return {
        'TruePositives': wrappers.WrappedStatistic(
            categorical.TruePositives(), binarize
        ),
        'TrueNegatives': wrappers.WrappedStatistic(
            categorical.TrueNegatives(), binarize
        ),
        'FalsePositives': wrappers.WrappedStatistic(
            categorical.FalsePositives(), binarize
        ),
        'FalseNegatives': wrappers.WrappedStatistic(
            categorical.FalseNegatives(), binarize
        ),
    }
''', '''    common_variables = set.intersection(
        *[set(statistic_values[s]) for s in self.statistics]
    )
    values = {}
    for var_name in common_variables:
      stats_per_variable = {
          s: statistic_values[s][var_name] for s in self.statistics
      }
      values[var_name] = self._values_from_mean_statistics_per_variable(
          stats_per_variable, var_name
      )
    return values
''', '''      if isinstance(self._optimal_thresholds, Mapping):
        optimal_thresholds = self._optimal_thresholds[var_name]
      else:
        optimal_thresholds = self._optimal_thresholds
      method = 'nearest' if self._optimal_thresholds_select_nearest else None
      tp = _select_optimal_thresholds(tp, optimal_thresholds, method)
      fp = _select_optimal_thresholds(fp, optimal_thresholds, method)
      fn = _select_optimal_thresholds(fn, optimal_thresholds, method)

    pred_cost = self._cost_loss_ratio * (tp + fp) + fn
    perf_cost = self._cost_loss_ratio * (tp + fn)
    clim_cost = xu.minimum(self._cost_loss_ratio, tp + fn)
    return (clim_cost - pred_cost) / (clim_cost - perf_cost)
'''], ['''    counts = {
        'TruePositives': categorical.TruePositives(),
        'TrueNegatives': categorical.TrueNegatives(),
        'FalsePositives': categorical.FalsePositives(),
        'FalseNegatives': categorical.FalseNegatives(),
    }
    return {
        name: wrappers.WrappedStatistic(count, transform=binarize)
        for name, count in counts.items()
    }
''', '''    names = list(self.statistics)
    variables = set.intersection(*(set(statistic_values[s]) for s in names))
    return {
        v: self._values_from_mean_statistics_per_variable(
            {s: statistic_values[s][v] for s in names}, v
        )
        for v in variables
    }
''', '''      thresholds = self._optimal_thresholds
      if isinstance(thresholds, Mapping):
        thresholds = thresholds[var_name]
      method = 'nearest' if self._optimal_thresholds_select_nearest else None
      tp, fp, fn = (
          _select_optimal_thresholds(x, thresholds, method)
          for x in (tp, fp, fn)
      )

    ratio = self._cost_loss_ratio
    base_rate = tp + fn
    clim_cost = xu.minimum(ratio, base_rate)
    saved = clim_cost - (ratio * (tp + fp) + fn)
    possible = clim_cost - ratio * base_rate
    return saved / possible
''']),
    ('prob-rev-check-loop', PP, P, ['''      if isinstance(optimal_thresholds, Mapping):
        data_vars = optimal_thresholds.values()
      else:
        data_vars = [optimal_thresholds]
      for var in data_vars:
        if 'cost_loss_ratio' not in var.dims:
          raise ValueError(
              'optimal_thresholds must have "cost_loss_ratio" dimensions.'
          )
        if not var.coords['cost_loss_ratio'].equals(self._cost_loss_ratio):
          raise ValueError(
              'optimal_thresholds must have cost_loss_ratio coordinates with '
              'the same values as the cost_loss_ratios argument.'
          )
''', '''    if not np.all(self._thresholds >= 0.0) or not np.all(
        self._thresholds <= 1.0
    ):
      raise ValueError(
'''], ['''      for var in (
          optimal_thresholds.values()
          if isinstance(optimal_thresholds, Mapping)
          else (optimal_thresholds,)
      ):
        self._check_optimal_thresholds(var)
''', '''    in_range = np.all(self._thresholds >= 0.0) and np.all(
        self._thresholds <= 1.0
    )
    if not in_range:
      raise ValueError(
''']),
    ('prob-rank-histogram', PP, P, ['''    num_bins = predictions.sizes[self._ensemble_dim] + 1
    ranks = (
        (predictions < targets)
        .astype(int)
        .sum(self._ensemble_dim, skipna=False)
    )

    categories = xr.DataArray(np.arange(num_bins), dims=['rank'])
    categories.coords['rank'] = categories

    # Transform to floating point for the subsequent aggregation.
    missing = np.isnan(targets) | np.isnan(predictions).any(self._ensemble_dim)
    return (ranks == categories).where(~missing).astype(np.float32)
'''], ['''    dim = self._ensemble_dim
    below = (targets > predictions).astype(int)
    ranks = below.sum(dim, skipna=False)

    categories = xr.DataArray(
        np.arange(predictions.sizes[dim] + 1), dims=['rank']
    )
    categories = categories.assign_coords(rank=categories)

    # Transform to floating point for the subsequent aggregation.
    valid = targets.notnull() & predictions.notnull().all(dim)
    return (categories == ranks).where(valid).astype(np.float32)
''']),
]

_CHECK = '''  def _check_optimal_thresholds(self, var: xr.DataArray):
    if 'cost_loss_ratio' not in var.dims:
      raise ValueError(
          'optimal_thresholds must have "cost_loss_ratio" dimensions.'
      )
    same = var.coords['cost_loss_ratio'].equals(self._cost_loss_ratio)
    if not same:
      raise ValueError(
          'optimal_thresholds must have cost_loss_ratio coordinates with '
          'the same values as the cost_loss_ratios argument.'
      )

'''
for _c in CASES:
  if _c[0] == 'prob-rev-check-loop':
    _c[3].append('  def _add_constant_threshold_results(\n')
    _c[4].append(_CHECK + '  def _add_constant_threshold_results(\n')

CASES = [c + (0,) for c in CASES]
