"""Hand-written behaviour-preserving rewrites: every check must stay quiet."""

C = 'weatherbenchX/metrics/categorical.py'
W = 'weatherbenchX/metrics/wrappers.py'
PC = 'C02 C03 C04 C05 C06 C07 C15 C18 C23 C24'
PW = 'C03 C05 C06 C07 C15 C18 C20 C23 C24 C26'

CASES = [
    ('cat-outcome-helper', PC, C, ['''class TruePositives(base.PerVariableStatistic):
''', '''    return (
        (predictions.astype(bool) * targets.astype(bool))
        .where(~np.isnan(predictions * targets))
        .astype(np.float32)
    )
''', '''    return (
        (~predictions.astype(bool) * ~targets.astype(bool))
        .where(~np.isnan(predictions * targets))
        .astype(np.float32)
    )
''', '''    return (
        (predictions.astype(bool) * ~targets.astype(bool))
        .where(~np.isnan(predictions * targets))
        .astype(np.float32)
    )
''', '''    return (
        (~predictions.astype(bool) * targets.astype(bool))
        .where(~np.isnan(predictions * targets))
        .astype(np.float32)
    )
'''], ['''def _outcome(
    predictions: xr.DataArray,
    targets: xr.DataArray,
    predicted: bool,
    observed: bool,
) -> xr.DataArray:
  """1 where predictions and targets are as given, missing where either is."""
  forecast = predictions.astype(bool)
  event = targets.astype(bool)
  if not predicted:
    forecast = ~forecast
  if not observed:
    event = ~event
  missing = np.isnan(predictions * targets)
  return (forecast & event).where(~missing).astype(np.float32)


class TruePositives(base.PerVariableStatistic):
''', '''    return _outcome(predictions, targets, True, True)
''', '''    return _outcome(predictions, targets, False, False)
''', '''    return _outcome(predictions, targets, predicted=True, observed=False)
''', '''    return _outcome(predictions, targets, observed=True, predicted=False)
''']),
    ('cat-xr-where', PC, C, ['''    return (
        (predictions.astype(bool) * targets.astype(bool))
        .where(~np.isnan(predictions * targets))
        .astype(np.float32)
    )
'''], ['''    both = predictions.astype(bool) & targets.astype(bool)
    valid = predictions.notnull() & targets.notnull()
    return both.where(valid).astype('float32')
''']),
    ('cat-counts', PC, C, ['''    """Computes metrics from aggregated statistics."""
    return statistic_values['TruePositives'] / (
        statistic_values['TruePositives']
        + statistic_values['FalsePositives']
        + statistic_values['FalseNegatives']
    )
''', '''    return (
        statistic_values['TruePositives'] + statistic_values['TrueNegatives']
    ) / (
        statistic_values['TruePositives']
        + statistic_values['FalsePositives']
        + statistic_values['FalseNegatives']
        + statistic_values['TrueNegatives']
    )
'''], ['''    """Computes metrics from aggregated statistics."""
    tp, fp, fn = (
        statistic_values[name]
        for name in ('TruePositives', 'FalsePositives', 'FalseNegatives')
    )
    return tp / (tp + fp + fn)
''', '''    correct = (
        statistic_values['TruePositives'] + statistic_values['TrueNegatives']
    )
    wrong = (
        statistic_values['FalsePositives'] + statistic_values['FalseNegatives']
    )
    return correct / (correct + wrong)
''']),
    ('cat-statistics-loop', PC, C, ['''    return {
        'TruePositives': TruePositives(),
        'FalsePositives': FalsePositives(),
        'FalseNegatives': FalseNegatives(),
    }
'''], ['''    components = (TruePositives(), FalsePositives(), FalseNegatives())
    return {s.unique_name: s for s in components}
''']),
    ('cat-seeps-broadcast-helper', PC, C, ['''    self._dry_threshold_mm = (
        dry_threshold_mm
        if isinstance(dry_threshold_mm, Sequence)
        else [dry_threshold_mm] * len(variables)
    )
    self._min_p1 = (
        min_p1 if isinstance(min_p1, Sequence) else [min_p1] * len(variables)
    )
    self._max_p1 = (
        max_p1 if isinstance(max_p1, Sequence) else [max_p1] * len(variables)
    )
    assert (
        len(self._variables)
        == len(self._dry_threshold_mm)
        == len(self._min_p1)
        == len(self._max_p1)
    ), 'All arguments must have the same length.'
'''], ['''    def per_variable(value):
      if isinstance(value, Sequence):
        return value
      return [value for _ in variables]

    self._dry_threshold_mm = per_variable(dry_threshold_mm)
    self._min_p1 = per_variable(min_p1)
    self._max_p1 = per_variable(max_p1)
    for option in (self._dry_threshold_mm, self._min_p1, self._max_p1):
      assert len(option) == len(
          variables
      ), 'All arguments must have the same length.'
''']),
    ('cat-seeps-compute-index', PC, C, ['''    out = {}
    for variable, dry_threshold_mm, min_p1, max_p1 in zip(
        self._variables, self._dry_threshold_mm, self._min_p1, self._max_p1
    ):
      out[variable] = self._compute_seeps_per_variable(
          predictions[variable],
          targets[variable],
          variable,
          dry_threshold_mm,
          min_p1,
          max_p1,
      )
    return out
'''], ['''    return {
        variable: self._compute_seeps_per_variable(
            predictions=predictions[variable],
            targets=targets[variable],
            variable=variable,
            dry_threshold_mm=self._dry_threshold_mm[i],
            min_p1=self._min_p1[i],
            max_p1=self._max_p1[i],
        )
        for i, variable in enumerate(self._variables)
    }
''']),
    ('cat-seeps-name-parts', PC, C, ['''    suffix = (
        '_'.join(self._variables)
        + '_dry_threshold_mm_'
        + '_'.join([str(s) for s in self._dry_threshold_mm])
        + '_min_p1_'
        + '_'.join([str(s) for s in self._min_p1])
        + '_max_p1_'
        + '_'.join([str(s) for s in self._max_p1])
    )
    return f'SEEPS_{suffix}'
'''], ['''    join = lambda values: '_'.join(map(str, values))
    return (
        f"SEEPS_{'_'.join(self._variables)}"
        f'_dry_threshold_mm_{join(self._dry_threshold_mm)}'
        f'_min_p1_{join(self._min_p1)}_max_p1_{join(self._max_p1)}'
    )
''']),
    ('cat-seeps-matrix', PC, C, ['''    # Convert to SI units [meters]
    dry_threshold = dry_threshold_mm / 1000.0
    dry = da <= dry_threshold
    light = np.logical_and(
        da > dry_threshold, da < wet_threshold_for_valid_time
    )
    heavy = da >= wet_threshold_for_valid_time
''', '''    scoring_matrix = [
        [xr.zeros_like(p1), 1 / (1 - p1), 4 / (1 - p1)],
        [1 / p1, xr.zeros_like(p1), 3 / (1 - p1)],
        [
            1 / p1 + 3 / (2 + p1),
            3 / (2 + p1),
            xr.zeros_like(p1),
        ],
    ]
    das = []
    for mat in scoring_matrix:
      das.append(xr.concat(mat, dim=out.truth_cat))
    scoring_matrix = 0.5 * xr.concat(das, dim=out.forecast_cat)
    scoring_matrix = scoring_matrix.compute()
'''], ['''    # Convert to SI units [meters]
    dry_threshold_m = dry_threshold_mm / 1000.0
    wet_threshold = wet_threshold_for_valid_time
    dry = da <= dry_threshold_m
    light = (dry_threshold_m < da) & (da < wet_threshold)
    heavy = wet_threshold <= da
''', '''    zero = xr.zeros_like(p1)
    wet = 1 - p1
    rows = [
        [zero, 1 / wet, 4 / wet],
        [1 / p1, zero, 3 / wet],
        [1 / p1 + 3 / (2 + p1), 3 / (2 + p1), zero],
    ]
    scoring_matrix = 0.5 * xr.concat(
        [xr.concat(row, dim=out.truth_cat) for row in rows],
        dim=out.forecast_cat,
    )
    scoring_matrix = scoring_matrix.compute()
''']),
    ('cat-seeps-mask-loop', PC, C, ['''    if hasattr(predictions, 'mask'):
      if hasattr(targets, 'mask'):
        raise ValueError(
            'Both predictions and targets have masks. This should not happen.'
        )
      mask = mask & predictions.mask
    elif hasattr(targets, 'mask'):
      mask = mask & targets.mask

    result.coords['mask'] = mask

    return result
'''], ['''    masked_inputs = [x for x in (predictions, targets) if hasattr(x, 'mask')]
    if len(masked_inputs) > 1:
      raise ValueError(
          'Both predictions and targets have masks. This should not happen.'
      )
    for x in masked_inputs:
      mask = mask & x.mask

    result.coords['mask'] = mask

    return result
''']),
    ('wrap-check-dim', PW, W, ['''  if isinstance(thresholds, xr.Dataset):
    assert threshold_dim in thresholds.dims, (
        f'threshold_dim ({threshold_dim}) not found in thresholds'
        f' ({thresholds.dims})'
    )
    assert x.name in thresholds.data_vars, (
        f'Input DataArray name ({x.name}) not found in thresholds'
        f' ({thresholds.data_vars})'
    )
    threshold = thresholds[x.name]
  elif isinstance(thresholds, xr.DataArray):
    assert threshold_dim in thresholds.dims, (
        f'threshold_dim ({threshold_dim}) not found in thresholds'
        f' ({thresholds.dims})'
    )
    threshold = thresholds
  else:
    threshold = xr.DataArray(
        thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
    )
  return (x > threshold).where(~np.isnan(x)).astype(np.float32)
'''], ['''  if isinstance(thresholds, (xr.Dataset, xr.DataArray)):
    assert threshold_dim in thresholds.dims, (
        f'threshold_dim ({threshold_dim}) not found in thresholds'
        f' ({thresholds.dims})'
    )
    threshold = thresholds
    if isinstance(thresholds, xr.Dataset):
      assert x.name in thresholds.data_vars, (
          f'Input DataArray name ({x.name}) not found in thresholds'
          f' ({thresholds.data_vars})'
      )
      threshold = thresholds[x.name]
  else:
    threshold = xr.DataArray(
        data=thresholds,
        coords={threshold_dim: thresholds},
        dims=(threshold_dim,),
    )
  exceeds = x > threshold
  return exceeds.where(x.notnull()).astype(np.float32)
''']),
    ('wrap-init-order', PW, W, ['''    # Convert to list if it isn't already.
    self._threshold_value = (
        threshold_value
        if isinstance(threshold_value, (Iterable, xr.DataArray, xr.Dataset))
        else [threshold_value]
    )
    self._threshold_dim = threshold_dim

    if isinstance(self._threshold_value, (xr.DataArray, xr.Dataset)):
      if unique_name_suffix is None:
        raise ValueError(
            'unique_name_suffix must be provided if threshold_value is an'
            ' xarray.DataArray or xarray.Dataset.'
        )
    self._unique_name_suffix = unique_name_suffix

  @property
  def unique_name_suffix(self) -> str:
    if self._unique_name_suffix is None:
      unique_name_suffix = ','.join([str(t) for t in self._threshold_value])
    else:
      unique_name_suffix = self._unique_name_suffix
    return f'{self._threshold_dim}={unique_name_suffix}'
'''], ['''    is_xarray = isinstance(threshold_value, (xr.DataArray, xr.Dataset))
    if is_xarray and unique_name_suffix is None:
      raise ValueError(
          'unique_name_suffix must be provided if threshold_value is an'
          ' xarray.DataArray or xarray.Dataset.'
      )
    self._threshold_dim = threshold_dim
    self._unique_name_suffix = unique_name_suffix
    self._threshold_value = threshold_value
    if not is_xarray and not isinstance(threshold_value, Iterable):
      # A single number.
      self._threshold_value = [threshold_value]

  @property
  def unique_name_suffix(self) -> str:
    suffix = self._unique_name_suffix
    if suffix is None:
      suffix = ','.join(str(t) for t in self._threshold_value)
    return f'{self._threshold_dim}={suffix}'
''']),
    ('wrap-time-selectors', PW, W, ['''  if {'init_time', 'lead_time'}.issubset(chunk.dims):
    if 'valid_time' in bin_thresholds.dims:
      bin_thresholds = bin_thresholds.sel(
          valid_time=chunk.init_time + chunk.lead_time
      )
''', '''    elif {'init_time', 'lead_time'}.issubset(bin_thresholds.dims):
      bin_thresholds = bin_thresholds.sel(
          init_time=chunk.init_time, lead_time=chunk.lead_time
      )
    elif {'dayofyear', 'lead_time'}.issubset(bin_thresholds.dims):
      bin_thresholds = bin_thresholds.sel(
          dayofyear=chunk.init_time.dt.dayofyear, lead_time=chunk.lead_time
      )
    else:
      # No time dimensions in bin_thresholds, so just return it.
      return bin_thresholds

  elif 'valid_time' in chunk.dims:
    if 'valid_time' in bin_thresholds.dims:
      bin_thresholds = bin_thresholds.sel(valid_time=chunk.valid_time)
    elif 'dayofyear' in bin_thresholds.dims:
      bin_thresholds = bin_thresholds.sel(
          dayofyear=chunk.valid_time.dt.dayofyear
      )
    else:
      # No time dimensions in bin_thresholds, so just return it.
      return bin_thresholds

  else:
    # No time dimensions in chunk, so just return thresholds.
    return bin_thresholds

  return bin_thresholds.compute()
'''], ['''  selector = None
  dims = bin_thresholds.dims
  if 'init_time' in chunk.dims and 'lead_time' in chunk.dims:
    if 'valid_time' in dims:
      selector = {'valid_time': chunk.init_time + chunk.lead_time}
''', '''    elif 'init_time' in dims and 'lead_time' in dims:
      selector = {'init_time': chunk.init_time, 'lead_time': chunk.lead_time}
    elif 'dayofyear' in dims and 'lead_time' in dims:
      selector = {
          'dayofyear': chunk.init_time.dt.dayofyear,
          'lead_time': chunk.lead_time,
      }
  elif 'valid_time' in chunk.dims:
    if 'valid_time' in dims:
      selector = {'valid_time': chunk.valid_time}
    elif 'dayofyear' in dims:
      selector = {'dayofyear': chunk.valid_time.dt.dayofyear}

  if selector is None:
    # No time dimensions in the chunk or the thresholds.
    return bin_thresholds
  return bin_thresholds.sel(selector).compute()
''']),
    ('wrap-cdf-guards', PW, W, ['''  if isinstance(threshold_values, (xr.DataArray, xr.Dataset)):
    if isinstance(threshold_values, xr.Dataset):
      thresholds = threshold_values[da.name]  # Select appropriate variable.
    else:
      thresholds = threshold_values
    thresholds = select_bin_thresholds_by_time_from_chunk(thresholds, da)
  elif isinstance(threshold_values, Iterable):
''', '''  if enforce_monotonicity:
    if not np.all(thresholds.diff(threshold_dim) > 0):
      raise ValueError(
          'Bin values must be monotonically increasing. To turn off this'
          ' check, set `enforce_monotonicity=False`.'
      )
  if right_inclusive:
    cdf = (da <= thresholds).astype('float')
  else:
    cdf = (da < thresholds).astype('float')
  # Make sure NaNs are propagated from da and thresholds.
  cdf = cdf.where(~np.isnan(da)).where(~np.isnan(thresholds))
  return cdf
'''], ['''  if isinstance(threshold_values, xr.Dataset):
    thresholds = select_bin_thresholds_by_time_from_chunk(
        threshold_values[da.name], da
    )
  elif isinstance(threshold_values, xr.DataArray):
    thresholds = select_bin_thresholds_by_time_from_chunk(threshold_values, da)
  elif isinstance(threshold_values, Iterable):
''', '''  if enforce_monotonicity:
    increasing = (thresholds.diff(threshold_dim) > 0).all()
    if not increasing:
      raise ValueError(
          'Bin values must be monotonically increasing. To turn off this'
          ' check, set `enforce_monotonicity=False`.'
      )
  below = da <= thresholds if right_inclusive else da < thresholds
  cdf = below.astype(float)
  # Make sure NaNs are propagated from da and thresholds.
  return cdf.where(da.notnull() & thresholds.notnull())
''']),
    ('wrap-bins-coords', PW, W, ['''    left_edges = cdf[self._bin_dim].values[:-1]
    right_edges = cdf[self._bin_dim].values[1:]
    result = cdf.diff(self._bin_dim)
    bin_names = [
        f'{left:.2f} < p <= {right:.2f}'
        for left, right in zip(left_edges, right_edges)
    ]
    result = result.assign_coords({self._bin_dim: bin_names})
    result = result.assign_coords(
        {f'{self._bin_dim}_left': (self._bin_dim, left_edges)}
    )
    result = result.assign_coords(
        {f'{self._bin_dim}_right': (self._bin_dim, right_edges)}
    )
'''], ['''    edges = cdf[self._bin_dim].values
    left_edges, right_edges = edges[:-1], edges[1:]
    bin_names = []
    for i in range(len(edges) - 1):
      bin_names.append(f'{edges[i]:.2f} < p <= {edges[i + 1]:.2f}')
    result = cdf.diff(self._bin_dim)
    result = result.assign_coords({
        self._bin_dim: bin_names,
        f'{self._bin_dim}_left': (self._bin_dim, left_edges),
        f'{self._bin_dim}_right': (self._bin_dim, right_edges),
    })
''']),
    ('wrap-shift-one-lookup', PW, W, ['''    if isinstance(self._shift_value, xr.Dataset):
      shifts = self._shift_value[da.name]
      if self._shift_dim not in shifts.dims:
        raise RuntimeError(
            f'Expected to find {self._shift_dim=} in {shifts.dims=} but did'
            ' not. This is probably an error.'
        )
      shifts = self._shift_value[da.name]
    else:
      shifts = xr.DataArray(
          self._shift_value,
          dims=[self._shift_dim],
          coords={self._shift_dim: self._shift_value},
      )

    return da + shifts
'''], ['''    return da + self._shifts_for(da.name)

  def _shifts_for(self, name: Hashable) -> xr.DataArray:
    dim, value = self._shift_dim, self._shift_value
    if not isinstance(value, xr.Dataset):
      return xr.DataArray(value, coords={dim: value}, dims=[dim])
    shifts = value[name]
    if dim in shifts.dims:
      return shifts
    raise RuntimeError(
        f'Expected to find {self._shift_dim=} in {shifts.dims=} but did'
        ' not. This is probably an error.'
    )
''']),
    ('wrap-side-helper', PW, W, ['''    if self.transform.which in ('predictions', 'both'):
      predictions = xarray_tree.map_structure(
          self.transform.transform_fn,
          predictions,
      )
    if self.transform.which in ('targets', 'both'):
      targets = xarray_tree.map_structure(
          self.transform.transform_fn,
          targets,
      )
    return self.statistic.compute(predictions, targets)
'''], ['''    return self.statistic.compute(
        self._transformed(predictions, 'predictions'),
        self._transformed(targets, 'targets'),
    )

  def _transformed(self, data, side):
    if self.transform.which != side and self.transform.which != 'both':
      return data
    return xarray_tree.map_structure(self.transform.transform_fn, data)
''']),
    ('wrap-statistics-reduce', PW, W, ['''    stats = {}
    for name, stat in self.metric.statistics.items():
      # Apply wrappers in reverse order since the last one will be called first
''', '''      original_name = stat.unique_name
      for wrapper in self.transforms[::-1]:
        stat = WrappedStatistic(stat, wrapper)
      if self.unique_name_suffix is not None:
        unique_name = f'{original_name}_{self.unique_name_suffix}'
        stat = RenamedStatistic(stat, unique_name)
      stats[name] = stat
    return stats
'''], ['''    return {
        name: self._wrap(stat) for name, stat in self.metric.statistics.items()
    }

  def _wrap(self, statistic: base.Statistic) -> base.Statistic:
''', '''    wrapped = statistic
    for transform in reversed(self.transforms):
      wrapped = WrappedStatistic(wrapped, transform)
    if self.unique_name_suffix is None:
      return wrapped
    return RenamedStatistic(
        wrapped, f'{statistic.unique_name}_{self.unique_name_suffix}'
    )
''']),
    ('wrap-relu-maximum', PW, W, ['''    if self._ensemble_dim not in da.dims and self._skip_if_ensemble_dim_missing:
      return da
    return da.mean(self._ensemble_dim, skipna=self._skipna)
''', '''    ensemble_members = da.sizes[self._ensemble_dim]
    return da.sum(self._ensemble_dim, skipna=self._skipna) / (
        ensemble_members + 1
    )
''', '''    self._temporary_new_dim_name = 'STACK_OF_' + '_AND_'.join(
        (str(d) for d in self._dims_to_stack)
    )
''', '''    da = da.copy()
    if self._sel is not None:
      da = da.sel(self._sel, **self._sel_kwargs)
    if self._isel is not None:
      da = da.isel(self._isel, **self._isel_kwargs)
    return da
'''], ['''    has_ensemble = self._ensemble_dim in da.dims
    if has_ensemble or not self._skip_if_ensemble_dim_missing:
      da = da.mean(dim=self._ensemble_dim, skipna=self._skipna)
    return da
''', '''    total = da.sum(dim=self._ensemble_dim, skipna=self._skipna)
    return total / (1 + da.sizes[self._ensemble_dim])
''', '''    stacked_names = '_AND_'.join(map(str, dims_to_stack))
    self._temporary_new_dim_name = f'STACK_OF_{stacked_names}'
''', '''    result = da.copy()
    if self._sel is not None:
      result = result.sel(self._sel, **self._sel_kwargs)
    if self._isel is None:
      return result
    return result.isel(self._isel, **self._isel_kwargs)
''']),
]

CASES = [c + (0,) for c in CASES]
