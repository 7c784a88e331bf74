"""Partial results, reductions and weights."""

import collections
from typing import Mapping

import numpy as np
import xarray as xr
from weatherbenchX import aggregation
from weatherbenchX import xarray_tree
from weatherbenchX.metrics import base as metrics_base

from .prelude import behaves

A = 'weatherbenchX.aggregation.'


# --- adding partial results (C01) -------------------------------------------


@behaves('weatherbenchX.aggregation.combining_sum', 'C01 C10')
def combining_sum(data_arrays):
  """Labels missing from a part count as zero."""
  return sum(xr.align(*data_arrays, join='outer', fill_value=0))


@behaves('AggregationState.zero', 'C01')
def zero():
  return aggregation.AggregationState(None, None)


@behaves('AggregationState.sum', 'C01 C10',
         opaque=['weatherbenchX.aggregation.combining_sum'])
def state_sum(aggregation_states):
  """Sums add to sums and weights to weights; empty parts are neutral."""
  parts = [(a.sum_weighted_statistics, a.sum_weights)
           for a in aggregation_states if a.sum_weighted_statistics is not None]
  if not parts:
    return aggregation.AggregationState(None, None)
  sums, weights = xarray_tree.map_structure(
      lambda *a: aggregation.combining_sum(a), *parts)
  return aggregation.AggregationState(sums, weights)


@behaves('AggregationState.__add__', 'C01 C10',
         opaque=['weatherbenchX.aggregation.AggregationState.sum'])
def add(self, other):
  return self.sum([self, other])


@behaves('AggregationState.mean_statistics', 'C01 C02')
def mean_statistics(self):
  return xarray_tree.map_structure(
      lambda s, w: s / w, self.sum_weighted_statistics, self.sum_weights)


@behaves('AggregationState.metric_values', 'C01 C06 C10',
         opaque=['weatherbenchX.metrics.base.compute_metrics_from_statistics'])
def metric_values(self, metrics):
  v = metrics_base.compute_metrics_from_statistics(
      metrics, self.mean_statistics())
  out = xr.Dataset()
  for m in v:
    for n in v[m]:
      out[f'{m}.{n}'] = v[m][n]
  return out


@behaves('AggregationState.sum_along_dims', 'C01 C03')
def sum_along_dims(self, dims):
  if self.sum_weighted_statistics is None:
    return self
  return aggregation.AggregationState(
      xarray_tree.map_structure(
          lambda x: x.sum(dims, skipna=False), self.sum_weighted_statistics),
      xarray_tree.map_structure(
          lambda x: x.sum(dims, skipna=False), self.sum_weights))


@behaves('AggregationState.dot', 'C01 C21')
def state_dot(self, star_arrays, dim):
  return aggregation.AggregationState(
      xarray_tree.map_structure(lambda x: xr.dot(x, *star_arrays, dim=dim),
                                self.sum_weighted_statistics),
      xarray_tree.map_structure(lambda x: xr.dot(x, *star_arrays, dim=dim),
                                self.sum_weights))


@behaves('AggregationState.map', 'C01 C21 C18', raises=True)
def state_map(self, func):
  if self.sum_weighted_statistics is None:
    raise ValueError()
  return aggregation.AggregationState(
      xarray_tree.map_structure(func, self.sum_weighted_statistics),
      xarray_tree.map_structure(func, self.sum_weights))


@behaves('AggregationState.map_multi', 'C01 C21 C18', raises=True)
def map_multi(func, star_agg_states):
  if any(a.sum_weighted_statistics is None for a in star_agg_states):
    raise ValueError()
  return aggregation.AggregationState(
      xarray_tree.map_structure(
          func, *[a.sum_weighted_statistics for a in star_agg_states]),
      xarray_tree.map_structure(
          func, *[a.sum_weights for a in star_agg_states]))


# --- reading and writing (C19) ------------------------------------------------


TREE = ['weatherbenchX.aggregation.AggregationState.to_data_tree',
        'weatherbenchX.aggregation.AggregationState.from_data_tree']


@behaves('AggregationState.to_data_tree', 'C19 C18', raises=True,
         opaque=['weatherbenchX.aggregation.AggregationState.to_data_tree'])
def to_data_tree(self):
  s, w = self.sum_weighted_statistics, self.sum_weights
  if isinstance(s, xr.DataArray):
    return xr.DataTree(dataset=xr.Dataset(
        {'sum_weighted_statistics': s, 'sum_weights': w}))
  if isinstance(s, Mapping):
    return xr.DataTree(children={
        k: aggregation.AggregationState(s[k], w[k]).to_data_tree()
        for k in s.keys()})
  raise TypeError()


@behaves('AggregationState.from_data_tree', 'C19',
         opaque=['weatherbenchX.aggregation.AggregationState.from_data_tree'])
def from_data_tree(data_tree):
  if data_tree.dataset:
    d = data_tree.dataset
    return aggregation.AggregationState(
        d['sum_weighted_statistics'].rename(data_tree.name),
        d['sum_weights'].rename(data_tree.name))
  parts = {k: aggregation.AggregationState.from_data_tree(v)
           for k, v in data_tree.children.items()}
  return aggregation.AggregationState(
      {k: v.sum_weighted_statistics for k, v in parts.items()},
      {k: v.sum_weights for k, v in parts.items()})


@behaves('AggregationState.to_dataset', 'C19',
         opaque=['weatherbenchX.aggregation.AggregationState.to_data_tree'])
def to_dataset(self, separator):
  out = {}
  for path, dataset in self.to_data_tree().to_dict().items():
    head = str(path).lstrip('/').replace('/', separator)
    for name, x in dataset.items():
      out[f'{head}{separator}{name}'] = x
  return xr.Dataset(out)


@behaves('AggregationState.from_dataset', 'C19',
         opaque=['weatherbenchX.aggregation.AggregationState.from_data_tree'])
def from_dataset(dataset, separator):
  groups = collections.defaultdict(xr.Dataset)
  for key, x in dataset.items():
    path, name = str(key).rsplit(separator, 1)
    groups['/' + path.replace(separator, '/')][name] = x
  return aggregation.AggregationState.from_data_tree(
      xr.DataTree.from_dict(groups))


# --- one weighted, binned reduction (C02) ---------------------------------------


@behaves('Aggregator.aggregation_fn', 'C02 C03 C18', raises=True)
def aggregation_fn(self, stat):
  """sum over reduce_dims of stat x weights x bins; None if not applicable."""
  if not set(self.reduce_dims).issubset(set(stat.dims)):
    return None
  weights = [w.weights(stat) for w in self.weigh_by or []]
  if len({b.bin_dim_name for b in self.bin_by or []}) != len(self.bin_by or []):
    raise ValueError()
  masks = []
  for b in self.bin_by or []:
    m = b.create_bin_mask(stat)
    if not (set(m.dims) - {b.bin_dim_name}).issubset(set(stat.dims)):
      return None
    masks.append(m)
  return xr.dot(stat, *weights, *masks, dim=set(self.reduce_dims))


@behaves('Aggregator.aggregate_stat_var', 'C02 C03',
         opaque=['weatherbenchX.aggregation.Aggregator.aggregation_fn'])
def aggregate_stat_var(self, stat):
  if self.masked and hasattr(stat, 'mask'):
    keep = stat.mask
    if self.skipna:
      keep = keep & ~stat.isnull()
    x = stat.where(keep, 0)
    keep = keep.broadcast_like(x)
  elif self.skipna:
    keep = ~stat.isnull()
    x = stat.where(keep, 0)
  else:
    x = stat
    keep = xr.ones_like(x)
  s = self.aggregation_fn(x)
  w = self.aggregation_fn(keep.astype(x.dtype))
  if s is None or w is None:
    return None
  return aggregation.AggregationState(s, w)


@behaves('Aggregator.aggregate_stat_vars', 'C02 C06',
         opaque=['weatherbenchX.aggregation.Aggregator.aggregate_stat_var'])
def aggregate_stat_vars(self, stats):
  parts = {n: self.aggregate_stat_var(s) for n, s in stats.items()
           if s is not None}
  return aggregation.AggregationState(
      {n: a.sum_weighted_statistics for n, a in parts.items() if a is not None},
      {n: a.sum_weights for n, a in parts.items() if a is not None})


@behaves('Aggregator.aggregate_statistics', 'C02 C06 C10',
         opaque=['weatherbenchX.aggregation.Aggregator.aggregate_stat_vars'])
def aggregate_statistics(self, statistics):
  parts = {n: self.aggregate_stat_vars(s) for n, s in statistics.items()}
  return aggregation.AggregationState(
      {n: a.sum_weighted_statistics for n, a in parts.items()},
      {n: a.sum_weights for n, a in parts.items()})


@behaves('compute_metric_values_for_single_chunk', 'C10 C06',
         opaque=['weatherbenchX.metrics.base.compute_unique_statistics_for_all_metrics',
                 'weatherbenchX.metrics.base.compute_metrics_from_statistics',
                 'weatherbenchX.aggregation.Aggregator.aggregate_statistics'])
def single_chunk(metrics, aggregator, predictions, targets):
  s = metrics_base.compute_unique_statistics_for_all_metrics(
      metrics, predictions, targets)
  return aggregator.aggregate_statistics(s).metric_values(metrics)


# --- area weights (C22) ----------------------------------------------------------


@behaves('weatherbenchX.weighting.latitude_cell_bounds', 'C22')
def latitude_cell_bounds(x):
  step = np.diff(x)
  south = np.max([x[0] - step[0] / 2, -np.pi / 2])
  north = np.min([x[-1] + step[-1] / 2, np.pi / 2])
  return np.concatenate([np.array([south], dtype=x.dtype),
                         (x[:-1] + x[1:]) / 2,
                         np.array([north], dtype=x.dtype)])


@behaves('weatherbenchX.weighting.cell_area_from_latitude', 'C22',
         opaque=['weatherbenchX.weighting.latitude_cell_bounds'])
def cell_area(points):
  from weatherbenchX import weighting
  b = weighting.latitude_cell_bounds(points)
  return np.sin(b[1:]) - np.sin(b[:-1])


@behaves('GridAreaWeighting.weights', 'C22 C23',
         opaque=['weatherbenchX.weighting.cell_area_from_latitude'])
def grid_area_weights(self, statistic):
  from weatherbenchX import weighting
  if self.latitude_name not in statistic.dims:
    return xr.DataArray(1)
  x = statistic[self.latitude_name].data
  down = x[0] > x[1]
  if down:
    x = x[::-1]
  w = weighting.cell_area_from_latitude(np.deg2rad(x))
  if down:
    w = w[::-1]
  if self.return_normalized:
    w = w / np.mean(w)
  return statistic[self.latitude_name].copy(data=w)


# --- trees of arrays (C01) -----------------------------------------------------------


@behaves('weatherbenchX.xarray_tree.map_structure', 'C01', value=True,
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def map_structure(func, star_structures):
  first = star_structures[0]
  if isinstance(first, xr.Dataset):
    data = {k: func(*[s[k] for s in star_structures]) for k in first.keys()}
    if all(isinstance(a, (type(None), xr.DataArray)) for a in data.values()):
      arrays = [v.rename(k) for k, v in data.items() if v is not None]
      try:
        return xr.merge(arrays, join='exact')
      except ValueError:
        pass
    return data
  if isinstance(first, dict):
    return {k: xarray_tree.map_structure(func, *[s[k] for s in star_structures])
            for k in first.keys()}
  if isinstance(first, (list, tuple, set)):
    return type(first)(xarray_tree.map_structure(func, *s)
                       for s in zip(*star_structures))
  return func(*star_structures)
