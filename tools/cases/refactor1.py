"""Hand-written behaviour-preserving rewrites: every check must stay quiet."""

B = 'weatherbenchX/metrics/base.py'
D = 'weatherbenchX/metrics/deterministic.py'

CASES = [
    ('base-pervar-comprehension', '*', B, '''    result = {}
    for var_name in predictions.keys():
      if var_name in targets.keys():
        per_var_result = self._compute_per_variable(
            predictions[var_name], targets[var_name])
        if per_var_result is not None:
          result[var_name] = per_var_result
    return result
''', '''    shared = [name for name in predictions.keys() if name in targets.keys()]
    computed = {
        name: self._compute_per_variable(predictions[name], targets[name])
        for name in shared
    }
    return {k: v for k, v in computed.items() if v is not None}
''', 0),
    ('base-pervar-continue', '*', B, ['''    for var_name in predictions.keys():
      if var_name in targets.keys():
        per_var_result = self._compute_per_variable(
            predictions[var_name], targets[var_name])
        if per_var_result is not None:
          result[var_name] = per_var_result
    return result
''', '''    common_variables = set.intersection(
        *[set(statistic_values[s]) for s in self.statistics]
    )
    values = {}
    # Compute values for all common variables.
    for v in common_variables:
      stats_per_variable = {s: statistic_values[s][v] for s in self.statistics}
      values[v] = self._values_from_mean_statistics_per_variable(
          stats_per_variable
      )
    return values
''', '''  for m in metrics.values():
    for _, stat in m.statistics.items():
      unique_statistics[stat.unique_name] = stat
  for k, stat in unique_statistics.items():
    try:
      yield k, stat.compute(predictions, targets)
    except Exception as e:
      raise ValueError(
          'Failed to compute statistic'
          f' {k}={stat} from:\\n{predictions=}\\n{targets=}'
      ) from e
'''], ['''    for var_name, prediction in predictions.items():
      if var_name not in targets:
        continue
      target = targets[var_name]
      per_var_result = self._compute_per_variable(prediction, target)
      if per_var_result is None:
        continue
      result[var_name] = per_var_result
    return result
''', '''    statistic_names = list(self.statistics)
    variable_sets = [set(statistic_values[name]) for name in statistic_names]
    common_variables = variable_sets[0]
    for other in variable_sets[1:]:
      common_variables = common_variables & other
    return {
        v: self._values_from_mean_statistics_per_variable(
            {name: statistic_values[name][v] for name in statistic_names}
        )
        for v in common_variables
    }
''', '''  for metric in metrics.values():
    for stat in metric.statistics.values():
      unique_statistics[stat.unique_name] = stat
  for name in unique_statistics:
    stat = unique_statistics[name]
    try:
      values = stat.compute(predictions, targets)
    except Exception as e:
      message = f'Failed to compute statistic {name}={stat} from:'
      raise ValueError(f'{message}\\n{predictions=}\\n{targets=}') from e
    yield name, values
'''], 0),
    ('base-climatology-helpers', '*', B, ['''    # Predictions/targets can either have a single time dimension: valid_time
    if hasattr(predictions, 'valid_time'):
      valid_time = predictions.valid_time
    # Or init and lead time dimensions.
    elif hasattr(predictions, 'init_time') and hasattr(
        predictions, 'lead_time'
    ):
      valid_time = predictions.init_time + predictions.lead_time
    else:
      raise ValueError(
          'Predictions should have either valid_time or init/lead_time'
          ' dimensions.'
      )

    # Climatology either has time, dayofyear or dayofyear/hour dimensions
    if hasattr(climatology, 'time'):
      sel_kwargs = {'time': valid_time}
    else:
      sel_kwargs = {'dayofyear': valid_time.dt.dayofyear}
      if hasattr(climatology, 'hour'):
        sel_kwargs['hour'] = valid_time.dt.hour
    aligned_climatology = climatology.sel(**sel_kwargs).compute()
''', '''class PerVariableStatisticWithClimatology(Statistic):
'''], ['''    valid_time = _get_valid_time(predictions)
    aligned_climatology = climatology.sel(
        **_climatology_indexers(climatology, valid_time)
    ).compute()
''', '''def _get_valid_time(predictions: xr.DataArray) -> xr.DataArray:
  """Valid time of the predictions."""
  if hasattr(predictions, 'valid_time'):
    return predictions.valid_time
  if not (
      hasattr(predictions, 'init_time') and hasattr(predictions, 'lead_time')
  ):
    raise ValueError(
        'Predictions should have either valid_time or init/lead_time'
        ' dimensions.'
    )
  return predictions.init_time + predictions.lead_time


def _climatology_indexers(climatology, valid_time):
  """Indexers aligning the climatology with valid_time."""
  if hasattr(climatology, 'time'):
    return dict(time=valid_time)
  indexers = dict(dayofyear=valid_time.dt.dayofyear)
  if hasattr(climatology, 'hour'):
    indexers.update(hour=valid_time.dt.hour)
  return indexers


class PerVariableStatisticWithClimatology(Statistic):
'''], 0),
    ('det-relative-intensity', '*', D, ['''    if 'mask' in targets.coords:
      # If mask is present, we compute mean only over mask==1 region.
      # If any value in that region is NaN, the mean will be NaN.
      # So, we set masked-out values to 0, then sum with skipna=False,
      # and divide by the count of unmasked values.
      mask = targets.mask == 1
      count = mask.sum(dim=spatial_dims, skipna=False)
      prediction_sum = predictions.where(mask, 0).sum(
          dim=spatial_dims, skipna=False
      )
      target_sum = targets.where(mask, 0).sum(dim=spatial_dims, skipna=False)
      prediction_mean = prediction_sum / count
      prediction_mean = prediction_mean.where(count > 0, 0.0)
      target_mean = target_sum / count
      target_mean = target_mean.where(count > 0, 0.0)
      ratio = (prediction_mean + epsilon) / (target_mean + epsilon)
      result = abs(ratio - 1)
      # The mask is 1 if there was at least one valid value in the aggregation.
      # Otherwise, it is 0.
      result.coords['mask'] = (count > 0).astype(int)
    else:
      prediction_mean = predictions.mean(dim=spatial_dims, skipna=False)
      target_mean = targets.mean(dim=spatial_dims, skipna=False)
      ratio = (prediction_mean + epsilon) / (target_mean + epsilon)
      result = abs(ratio - 1)

    return result
''', '''    out = {}
    for u, v, vector in zip(self._u_name, self._v_name, self._vector_name):
      predictions_u = predictions[u]
      predictions_v = predictions[v]
      targets_u = targets[u]
      targets_v = targets[v]
      se = (predictions_u - targets_u) ** 2 + (predictions_v - targets_v) ** 2
      out[vector] = se
    return out
''', '''    if isinstance(self._thresholds, xr.Dataset):
      thresholds = self._thresholds[abs_error.name]
    else:
      thresholds = self._thresholds
    out = (abs_error > thresholds).astype(float)
    # Make sure NaNs are preserved
    out = out.where(~abs_error.isnull())
    out = out.where(~thresholds.isnull())
    return out
'''], ['''    def relative_error(numerator, denominator):
      return abs((numerator + epsilon) / (denominator + epsilon) - 1)

    if 'mask' not in targets.coords:
      return relative_error(
          predictions.mean(dim=spatial_dims, skipna=False),
          targets.mean(dim=spatial_dims, skipna=False),
      )

    mask = targets.mask == 1
    count = mask.sum(dim=spatial_dims, skipna=False)
    any_valid = count > 0

    def masked_mean(values):
      total = values.where(mask, 0).sum(dim=spatial_dims, skipna=False)
      return (total / count).where(any_valid, 0.0)

    result = relative_error(masked_mean(predictions), masked_mean(targets))
    result.coords['mask'] = any_valid.astype(int)
    return result
''', '''    def squared_error(name):
      return (predictions[name] - targets[name]) ** 2

    return {
        vector: squared_error(u) + squared_error(v)
        for u, v, vector in zip(self._u_name, self._v_name, self._vector_name)
    }
''', '''    thresholds = (
        self._thresholds[abs_error.name]
        if isinstance(self._thresholds, xr.Dataset)
        else self._thresholds
    )
    valid = abs_error.notnull() & thresholds.notnull()
    return (abs_error > thresholds).astype(float).where(valid)
'''], 0),
    ('det-passthrough', '*', D, ['''    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
    return 'PredictionPassthrough' + suffix
''', '''    # Make sure potential coordinates from targets are preserved.
    result = predictions + xr.zeros_like(targets)
    if self._copy_nans_from_targets:
      result = result.where(~targets.isnull())
    return result
''', '''    suffix = '_'.join([*self._vector_name, *self._u_name, *self._v_name])
    return 'WindVectorSquaredError_' + suffix
''', '''    return statistic_values['AnomalyCovariance'] / (
        xu.sqrt(statistic_values['SquaredPredictionAnomaly'])
        * xu.sqrt(statistic_values['SquaredTargetAnomaly'])
    )
''', '''    prediction_anom = predictions - aligned_climatology
    target_anom = targets - aligned_climatology
    return prediction_anom * target_anom
''', '''    self._u_name = [u_name] if isinstance(u_name, str) else u_name
    self._v_name = [v_name] if isinstance(v_name, str) else v_name
    self._vector_name = (
        [vector_name] if isinstance(vector_name, str) else vector_name
    )
    if not len(self._u_name) == len(self._v_name) == len(self._vector_name):
''', '''    return {
        'SquaredPredictionAnomaly': SquaredPredictionAnomaly(
            climatology=self._climatology
        ),
        'SquaredTargetAnomaly': SquaredTargetAnomaly(
            climatology=self._climatology
        ),
        'AnomalyCovariance': AnomalyCovariance(climatology=self._climatology),
    }
''', '''    if isinstance(thresholds, Sequence):
      thresholds = xr.DataArray(
          thresholds,
          dims='error_exceedance_thresholds',
          coords={'error_exceedance_thresholds': thresholds},
      )
    self._thresholds = thresholds
''', '''    digest = hashlib.sha256(repr(self._thresholds.to_dict()).encode())
    return f'{type(self).__name__}_{digest.hexdigest()[:16]}'
'''], ['''    name = 'PredictionPassthrough'
    if self._copy_nans_from_targets:
      name += '_copy_nans_from_targets'
    return name
''', '''    preserved = predictions + xr.zeros_like(targets)
    if not self._copy_nans_from_targets:
      return preserved
    return preserved.where(targets.notnull())
''', '''    names = list(self._vector_name) + list(self._u_name) + list(self._v_name)
    return '_'.join(['WindVectorSquaredError'] + names)
''', '''    prediction_std, target_std = (
        xu.sqrt(statistic_values[name])
        for name in ('SquaredPredictionAnomaly', 'SquaredTargetAnomaly')
    )
    return statistic_values['AnomalyCovariance'] / (prediction_std * target_std)
''', '''    return (targets - aligned_climatology) * (predictions - aligned_climatology)
''', '''    def as_list(name):
      return [name] if isinstance(name, str) else name

    self._u_name = as_list(u_name)
    self._v_name = as_list(v_name)
    self._vector_name = as_list(vector_name)
    lengths = {len(self._u_name), len(self._v_name), len(self._vector_name)}
    if len(lengths) != 1:
''', '''    classes = (SquaredPredictionAnomaly, SquaredTargetAnomaly, AnomalyCovariance)
    return {cls.__name__: cls(climatology=self._climatology) for cls in classes}
''', '''    self._thresholds = thresholds
    if isinstance(thresholds, Sequence):
      dim = 'error_exceedance_thresholds'
      self._thresholds = xr.DataArray(
          data=thresholds, coords={dim: thresholds}, dims=dim
      )
''', '''    serialized = repr(self._thresholds.to_dict()).encode()
    suffix = hashlib.sha256(serialized).hexdigest()[:16]
    return '_'.join([type(self).__name__, suffix])
'''], 0),
]
