"""Hand-written behaviour-preserving rewrites: every check must stay quiet."""

A = 'weatherbenchX/aggregation.py'
T = 'weatherbenchX/time_chunks.py'
W = 'weatherbenchX/weighting.py'
X = 'weatherbenchX/xarray_tree.py'

CASES = [
    ('agg-sum-two-maps', '*', A, ['''    sum_weighted_statistics_and_sum_weights_tuples = [
        (a.sum_weighted_statistics, a.sum_weights)
        for a in aggregation_states
        if a.sum_weighted_statistics is not None
    ]

    # Sometimes beam does a reduction with only Zero states. In this case, we
    # end up with an empty collection. In these cases, we need to return a zero
    # state.
    if not sum_weighted_statistics_and_sum_weights_tuples:
      return cls.zero()

    # Sum over each element in the nested dictionaries
    sum_weighted_statistics, sum_weights = xarray_tree.map_structure(
        lambda *a: combining_sum(a),
        *sum_weighted_statistics_and_sum_weights_tuples,
    )

    return cls(sum_weighted_statistics, sum_weights)
''', '''    def normalize(sum_weighted_statistics, sum_weights):
      return sum_weighted_statistics / sum_weights

    return xarray_tree.map_structure(
        normalize, self.sum_weighted_statistics, self.sum_weights
    )
''', '''    mean_statistics = self.mean_statistics()
    metric_values = metrics_base.compute_metrics_from_statistics(
        metrics, mean_statistics
    )
    values = xr.Dataset()
    for metric_name in metric_values:
      for var_name in metric_values[metric_name]:
        da = metric_values[metric_name][var_name]
        values[f'{metric_name}.{var_name}'] = da
    return values
''', '''    if self.sum_weighted_statistics is None:
      # Further reduction of a generic zero state is also a zero state.
      return self
    else:
      return self.map(lambda x: x.sum(dims, skipna=False))
'''], ['''    pairs = []
    for state in aggregation_states:
      if state.sum_weighted_statistics is None:
        continue
      pairs.append((state.sum_weighted_statistics, state.sum_weights))

    if len(pairs) == 0:
      return cls.zero()

    def add_up(*arrays):
      return combining_sum(arrays)

    totals = xarray_tree.map_structure(add_up, *pairs)
    return cls(sum_weighted_statistics=totals[0], sum_weights=totals[1])
''', '''    return xarray_tree.map_structure(
        lambda total, weight: total / weight,
        self.sum_weighted_statistics,
        self.sum_weights,
    )
''', '''    metric_values = metrics_base.compute_metrics_from_statistics(
        metrics, self.mean_statistics()
    )
    values = xr.Dataset()
    for metric_name, per_variable in metric_values.items():
      for var_name, da in per_variable.items():
        values['.'.join([str(metric_name), str(var_name)])] = da
    return values
''', '''    if self.sum_weighted_statistics is None:
      return self

    def reduce_dims(array):
      return array.sum(dim=dims, skipna=False)

    return self.map(reduce_dims)
'''], 0),
    ('agg-aggregator', '*', A, ['''    weights = [
        weighting_method.weights(stat)
        for weighting_method in self.weigh_by or []
    ]

    bin_dim_names = {binning.bin_dim_name for binning in self.bin_by or []}
    if len(bin_dim_names) != len(self.bin_by or []):
      raise ValueError('Bin dimension names must be unique.')

    bin_masks = []
    for binning_method in self.bin_by or []:
      bin_mask = binning_method.create_bin_mask(stat)
      # bin_masks_dims are all of the dims the mask operate with on the input
      # data (e.g. the actual bin dimension does not count).
      bin_masks_dims = set(bin_mask.dims) - {binning_method.bin_dim_name}
      if bin_masks_dims.issubset(eval_unit_dims):
        bin_masks.append(bin_mask)
      else:
        # Can't bin based on dims that aren't present as evaluation unit dims:
        return None
''', '''    if self.masked and hasattr(stat, 'mask'):
      mask = stat.mask
      if self.skipna:
        mask = mask & ~stat.isnull()

      # Set masked values to Zero for stat and weights, which will therefore
      # be ignored in mean_statistics(). this is equivalent to multiplying by
      # the mask, but avoids NaN * 0 -> NaN in cases where there are NaNs in
      # masked positions. Only for variables with a mask attribute.
      stat = stat.where(mask, 0)

      # We need to broadcast the mask to the same shape as the stat, so that
      # reductions over it behave the same as reductions over the full stat.
      mask = mask.broadcast_like(stat)
    elif self.skipna:
      mask = ~stat.isnull()
      stat = stat.where(mask, 0)
    else:
      mask = xr.ones_like(stat)

    assert mask.sizes == stat.sizes

    sum_weighted_statistics = self.aggregation_fn(stat)
    sum_weights = self.aggregation_fn(mask.astype(stat.dtype))
    if sum_weighted_statistics is None or sum_weights is None:
      return None
    else:
      return AggregationState(sum_weighted_statistics, sum_weights)
''', '''    per_var = {var_name: self.aggregate_stat_var(stat)
               for var_name, stat in stats.items() if stat is not None}
    return AggregationState(
        sum_weighted_statistics={
            var_name: agg_state.sum_weighted_statistics
            for var_name, agg_state in per_var.items()
            if agg_state is not None},
        sum_weights={
            var_name: agg_state.sum_weights
            for var_name, agg_state in per_var.items()
            if agg_state is not None},
    )
''', '''    per_stat = {stat_name: self.aggregate_stat_vars(stats)
                for stat_name, stats in statistics.items()}
    return AggregationState(
        sum_weighted_statistics={
            stat_name: agg_state.sum_weighted_statistics
            for stat_name, agg_state in per_stat.items()},
        sum_weights={
            stat_name: agg_state.sum_weights
            for stat_name, agg_state in per_stat.items()},
    )
'''], ['''    bin_by = list(self.bin_by or [])
    weights = []
    for weighting_method in self.weigh_by or []:
      weights.append(weighting_method.weights(stat))

    if len(set(b.bin_dim_name for b in bin_by)) != len(bin_by):
      raise ValueError('Bin dimension names must be unique.')

    bin_masks = [b.create_bin_mask(stat) for b in bin_by]
    for b, bin_mask in zip(bin_by, bin_masks):
      other_dims = set(bin_mask.dims) - {b.bin_dim_name}
      if not other_dims <= eval_unit_dims:
        return None
''', '''    stat, mask = self._apply_mask(stat)
    assert mask.sizes == stat.sizes

    total = self.aggregation_fn(stat)
    weight = self.aggregation_fn(mask.astype(stat.dtype))
    if total is not None and weight is not None:
      return AggregationState(total, weight)
    return None

  def _apply_mask(self, stat):
    """Zeroes what does not count and returns what counts."""
    use_mask = self.masked and hasattr(stat, 'mask')
    if not use_mask and not self.skipna:
      return stat, xr.ones_like(stat)
    if not use_mask:
      present = ~stat.isnull()
      return stat.where(present, 0), present
    mask = stat.mask
    if self.skipna:
      mask = mask & stat.notnull()
    zeroed = stat.where(mask, 0)
    return zeroed, mask.broadcast_like(zeroed)
''', '''    sums = {}
    weights = {}
    for var_name, stat in stats.items():
      if stat is None:
        continue
      agg_state = self.aggregate_stat_var(stat)
      if agg_state is None:
        continue
      sums[var_name] = agg_state.sum_weighted_statistics
      weights[var_name] = agg_state.sum_weights
    return AggregationState(sum_weighted_statistics=sums, sum_weights=weights)
''', '''    sums, weights = {}, {}
    for stat_name in statistics:
      state = self.aggregate_stat_vars(statistics[stat_name])
      sums[stat_name] = state.sum_weighted_statistics
      weights[stat_name] = state.sum_weights
    return AggregationState(sums, weights)
'''], 0),
    ('agg-trees', '*', A, ['''    if isinstance(self.sum_weighted_statistics, xr.DataArray):
      return xr.DataTree(dataset=xr.Dataset({
          'sum_weighted_statistics': self.sum_weighted_statistics,
          'sum_weights': self.sum_weights}))
    elif isinstance(self.sum_weighted_statistics, Mapping):
      return xr.DataTree(children={
          k: AggregationState(self.sum_weighted_statistics[k],
                              self.sum_weights[k]).to_data_tree()
          for k in self.sum_weighted_statistics.keys()})
    else:
      raise TypeError('Bad type for AggregationState.sum_weighted_statistics.')
''', '''    if data_tree.dataset:
      return cls(
          data_tree.dataset['sum_weighted_statistics'].rename(data_tree.name),
          data_tree.dataset['sum_weights'].rename(data_tree.name))
    else:
      children = {
          k: cls.from_data_tree(v) for k, v in data_tree.children.items()}
      return cls(
          sum_weighted_statistics={
              k: v.sum_weighted_statistics for k, v in children.items()},
          sum_weights={
              k: v.sum_weights for k, v in children.items()},
      )
''', '''    result = {}
    for path, dataset in self.to_data_tree().to_dict().items():
      path = str(path).lstrip('/').replace('/', separator)
      for var_name, data_array in dataset.items():
        result[f'{path}{separator}{var_name}'] = data_array
    return xr.Dataset(result)
''', '''    dataset_dict = collections.defaultdict(xr.Dataset)
    for path, data_array in dataset.items():
      path, var_name = str(path).rsplit(separator, 1)
      path = '/' + path.replace(separator, '/')
      dataset_dict[path][var_name] = data_array
    return cls.from_data_tree(xr.DataTree.from_dict(dataset_dict))
''', '''    if any(a.sum_weighted_statistics is None for a in agg_states):
      raise ValueError('Cannot map a zero AggregationState.')
    sum_weighted_statistics = xarray_tree.map_structure(
        func, *[a.sum_weighted_statistics for a in agg_states])
    sum_weights = xarray_tree.map_structure(
        func, *[a.sum_weights for a in agg_states])
    return AggregationState(sum_weighted_statistics, sum_weights)
'''], ['''    sums, weights = self.sum_weighted_statistics, self.sum_weights
    if isinstance(sums, xr.DataArray):
      dataset = xr.Dataset(
          dict(sum_weighted_statistics=sums, sum_weights=weights)
      )
      return xr.DataTree(dataset=dataset)
    if not isinstance(sums, Mapping):
      raise TypeError('Bad type for AggregationState.sum_weighted_statistics.')
    children = {}
    for key, value in sums.items():
      children[key] = AggregationState(value, weights[key]).to_data_tree()
    return xr.DataTree(children=children)
''', '''    dataset = data_tree.dataset
    if dataset:
      sums, weights = (
          dataset[name].rename(data_tree.name)
          for name in ('sum_weighted_statistics', 'sum_weights')
      )
      return cls(sums, weights)
    sums = {}
    weights = {}
    for key, subtree in data_tree.children.items():
      child = cls.from_data_tree(subtree)
      sums[key] = child.sum_weighted_statistics
      weights[key] = child.sum_weights
    return cls(sum_weighted_statistics=sums, sum_weights=weights)
''', '''    def flat_name(path, var_name):
      prefix = str(path).lstrip('/').replace('/', separator)
      return f'{prefix}{separator}{var_name}'

    return xr.Dataset({
        flat_name(path, var_name): data_array
        for path, dataset in self.to_data_tree().to_dict().items()
        for var_name, data_array in dataset.items()
    })
''', '''    groups = collections.defaultdict(xr.Dataset)
    for name in dataset:
      path, var_name = str(name).rsplit(separator, maxsplit=1)
      groups['/' + path.replace(separator, '/')][var_name] = dataset[name]
    tree = xr.DataTree.from_dict(groups)
    return cls.from_data_tree(tree)
''', '''    for state in agg_states:
      if state.sum_weighted_statistics is None:
        raise ValueError('Cannot map a zero AggregationState.')
    sums = [state.sum_weighted_statistics for state in agg_states]
    weights = [state.sum_weights for state in agg_states]
    return AggregationState(
        sum_weighted_statistics=xarray_tree.map_structure(func, *sums),
        sum_weights=xarray_tree.map_structure(func, *weights),
    )
'''], 0),
    ('time-chunks-helpers', '*', T, ['''    if init_time_chunk_size is not None and init_time_chunk_size < 0:
      raise ValueError(
          f'{init_time_chunk_size=} but should be non-negative or None'
      )
    if lead_time_chunk_size is not None and lead_time_chunk_size < 0:
      raise ValueError(
          f'{lead_time_chunk_size=} but should be non-negative or None'
      )
''', '''    # If chunk size is None, return all elements in a single chunk.
    if not init_time_chunk_size:
      init_time_chunk_size = len(init_times)
    # Split init_times into chunks
    self._init_time_chunks = [
        init_times[i : i + init_time_chunk_size]
        for i in range(0, len(init_times), init_time_chunk_size)
    ]

    if isinstance(lead_times, slice):
''', '''      if lead_times.start is None or lead_times.stop is None:
        raise ValueError('Slice start and stop must be specified.')
''', '''      if not lead_time_chunk_size:
        lead_time_chunk_size = len(lead_times)
      # Split lead_times into chunks
      self._lead_time_chunks = [
          lead_times[i : i + lead_time_chunk_size]
          for i in range(0, len(lead_times), lead_time_chunk_size)
      ]
''', '''class TimeChunks(Iterable[TimeChunk]):
''', '''    return itertools.product(self._init_time_chunks, self._lead_time_chunks)
''', '''    if index < 0 or index >= len(self):
      raise IndexError(f'TimeChunks index out of range: {index}')
    init_chunk = self._init_time_chunks[index // self._num_lead_chunks]
    lead_chunk = self._lead_time_chunks[index % self._num_lead_chunks]
    return init_chunk, lead_chunk
''', '''    for index, (init_chunk, lead_chunk) in enumerate(self):
      init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
      # The chunk size is None for a slice, which is a single chunk at offset 0.
      lead_index = (self._lead_time_chunk_size or 0) * (
          index % self._num_lead_chunks
      )
      offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
      yield offsets, (init_chunk, lead_chunk)
'''], ['''    for name, size in (
        ('init_time_chunk_size', init_time_chunk_size),
        ('lead_time_chunk_size', lead_time_chunk_size),
    ):
      if size is not None and size < 0:
        raise ValueError(f'{name}={size!r} but should be non-negative or None')
''', '''    init_time_chunk_size = init_time_chunk_size or len(init_times)
    self._init_time_chunks = _split(init_times, init_time_chunk_size)

    if isinstance(lead_times, slice):
''', '''      if None in (lead_times.start, lead_times.stop):
        raise ValueError('Slice start and stop must be specified.')
''', '''      lead_time_chunk_size = lead_time_chunk_size or len(lead_times)
      self._lead_time_chunks = _split(lead_times, lead_time_chunk_size)
''', '''def _split(times, chunk_size):
  """Consecutive pieces of times of the given size."""
  chunks = []
  for start in range(0, len(times), chunk_size):
    chunks.append(times[start : start + chunk_size])
  return chunks


class TimeChunks(Iterable[TimeChunk]):
''', '''    for init_chunk in self._init_time_chunks:
      for lead_chunk in self._lead_time_chunks:
        yield init_chunk, lead_chunk
''', '''    if not 0 <= index < len(self):
      raise IndexError(f'TimeChunks index out of range: {index}')
    init_index, lead_index = divmod(index, self._num_lead_chunks)
    return self._init_time_chunks[init_index], self._lead_time_chunks[lead_index]
''', '''    lead_time_chunk_size = self._lead_time_chunk_size or 0
    for index, chunk in enumerate(self):
      init_number, lead_number = divmod(index, self._num_lead_chunks)
      yield (
          TimeChunkOffsets(
              init_time=init_number * self._init_time_chunk_size,
              lead_time=lead_number * lead_time_chunk_size,
          ),
          chunk,
      )
'''], 0),
    ('time-chunks-offsets-nested', '*', T, ['''    for index, (init_chunk, lead_chunk) in enumerate(self):
      init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
      # The chunk size is None for a slice, which is a single chunk at offset 0.
      lead_index = (self._lead_time_chunk_size or 0) * (
          index % self._num_lead_chunks
      )
      offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
      yield offsets, (init_chunk, lead_chunk)
'''], ['''    for index in range(len(self)):
      init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
      lead_index = (self._lead_time_chunk_size or 0) * (
          index % self._num_lead_chunks
      )
      yield TimeChunkOffsets(init_index, lead_index), self[index]
'''], 0),
    ('weighting-rewritten', '*', W, ['''  left_bound = x[0] - diff[0] / 2
  right_bound = x[-1] + diff[-1] / 2
  pi_over_2 = np.pi / 2
  left_bound = np.max([left_bound, -pi_over_2])
  right_bound = np.min([right_bound, pi_over_2])
  return np.concatenate([
      np.array([left_bound], dtype=x.dtype),
      (x[:-1] + x[1:]) / 2,
      np.array([right_bound], dtype=x.dtype),
  ])
''', '''    latitude = statistic[self.latitude_name].data

    assert _is_strictly_monotonic(
        latitude
    ), f'Points must be strictly monotonic: {latitude}'
    if latitude[0] > latitude[1]:
      needs_reversing = True
      latitude = latitude[::-1]
    else:
      needs_reversing = False

    weights = cell_area_from_latitude(np.deg2rad(latitude))
    if needs_reversing:
      weights = weights[::-1]
    if self.return_normalized:
      weights /= np.mean(weights)
    weights = statistic[self.latitude_name].copy(data=weights)
    return weights
''', '''  bounds = latitude_cell_bounds(points)
  upper = bounds[1:]
  lower = bounds[:-1]
  # Normalized cell area: integral from lower to upper of cos(latitude).
  return np.sin(upper) - np.sin(lower)
'''], ['''  half_pi = 0.5 * np.pi
  first = max(x[0] - 0.5 * diff[0], -half_pi)
  last = min(x[-1] + 0.5 * diff[-1], half_pi)
  midpoints = 0.5 * (x[1:] + x[:-1])
  return np.concatenate([
      np.array([first], dtype=x.dtype),
      midpoints,
      np.array([last], dtype=x.dtype),
  ])
''', '''    coordinate = statistic[self.latitude_name]
    latitude = coordinate.data

    assert _is_strictly_monotonic(
        latitude
    ), f'Points must be strictly monotonic: {latitude}'
    step = -1 if latitude[0] > latitude[1] else 1
    weights = cell_area_from_latitude(np.deg2rad(latitude[::step]))[::step]
    if self.return_normalized:
      weights = weights / weights.mean()
    return coordinate.copy(data=weights)
''', '''  sin_bounds = np.sin(latitude_cell_bounds(points))
  return np.diff(sin_bounds)
'''], 0),
    ('weighting-branches', '*', W, ['''    if latitude[0] > latitude[1]:
      needs_reversing = True
      latitude = latitude[::-1]
    else:
      needs_reversing = False

    weights = cell_area_from_latitude(np.deg2rad(latitude))
    if needs_reversing:
      weights = weights[::-1]
    if self.return_normalized:
'''], ['''    if latitude[0] > latitude[1]:
      weights = cell_area_from_latitude(np.deg2rad(latitude[::-1]))[::-1]
    else:
      weights = cell_area_from_latitude(np.deg2rad(latitude))
    if self.return_normalized:
'''], 0),
    ('tree-rewritten', '*', X, ['''  first = structures[0]
  if isinstance(first, xarray.Dataset):
    data = {k: func(*[s[k] for s in structures]) for k in first.keys()}
    if all(
        isinstance(a, (type(None), xarray.DataArray)) for a in data.values()
    ):
      data_arrays = [v.rename(k) for k, v in data.items() if v is not None]
      try:
        return xarray.merge(data_arrays, join='exact')
      except ValueError:  # Exact join not possible.
        pass
    return data
  if isinstance(first, dict):
    return {
        k: map_structure(func, *[s[k] for s in structures])
        for k in first.keys()
    }
'''], ['''  first = structures[0]
  if isinstance(first, xarray.Dataset):
    return _map_dataset(func, structures)
  if isinstance(first, dict):
    result = {}
    for key in first:
      result[key] = map_structure(func, *(s[key] for s in structures))
    return result
''', ], 0),
]
CASES[-1][3].append('''def map_structure(''')
CASES[-1][4].append('''def _map_dataset(func, datasets):
  """Maps over the variables of datasets, as a Dataset where possible."""
  data = {}
  for name in datasets[0].keys():
    data[name] = func(*[ds[name] for ds in datasets])
  mergeable = all(
      value is None or isinstance(value, xarray.DataArray)
      for value in data.values()
  )
  if not mergeable:
    return data
  data_arrays = [v.rename(k) for k, v in data.items() if v is not None]
  try:
    return xarray.merge(data_arrays, join='exact')
  except ValueError:  # Exact join not possible.
    return data


def map_structure(''')
