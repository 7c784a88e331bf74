"""Ensemble scores."""

from typing import Mapping

import numpy as np
import scipy.stats
import xarray as xr

from .categorical import tp as _tp, fp as _fp, fn as _fn, tn as _tn
from .prelude import behaves, metric, mean
from .wrappers import cdf, binarized, ensemble_mean


def skill(p, f, o):
  """E|X - Y| over all members (and all target members, if there are any)."""
  d = p.ensemble_dim
  if d in o.dims:
    e = f'{d}_PSEUDO_FOR_TARGETS'
    return np.abs(f - o.rename({d: e})).mean([d, e], skipna=p.skipna_ensemble)
  return np.abs(f - o).mean([d], skipna=p.skipna_ensemble)


def spread(p, x):
  """E|X - X'| over distinct pairs (fair) or all pairs."""
  d = p.ensemble_dim
  if p.skipna_ensemble:
    n = x.count(d)
  else:
    n = x.sizes[d]
    if n < 2:
      raise ValueError()
  m = n - 1 if p.fair else n
  if p.use_sort:
    if p.skipna_ensemble:
      raise ValueError()
    r = sorted_rank(x, d)
    return 2 * ((2 * r - n - 1) * x).mean(d, skipna=False) / m
  y = x.rename({d: 'ensemble_dim_2'})
  return abs(x - y).sum(dim=(d, 'ensemble_dim_2'),
                        skipna=p.skipna_ensemble) / (n * m)


def sorted_rank(x, d):
  from weatherbenchX.metrics import probabilistic
  return probabilistic._rank_da(x, d)


@behaves('weatherbenchX.metrics.probabilistic._rank_da', 'C17',
         opaque=['weatherbenchX.metrics.probabilistic._rankdata'])
def rank_da(da, dim):
  from weatherbenchX.metrics import probabilistic
  return da.copy(data=probabilistic._rankdata(
      da.values, axis=da.dims.index(dim)))


@behaves('weatherbenchX.metrics.probabilistic._rankdata', 'C17')
def rankdata(x, axis):
  """1-based position of each element in the sorted order along axis."""
  y = np.swapaxes(np.asarray(x), axis, -1)
  order = np.argsort(y, axis=-1)
  positions = np.broadcast_to(
      np.arange(1, y.shape[-1] + 1, dtype=int), y.shape)
  ranks = np.empty(order.shape, dtype=positions.dtype)
  np.put_along_axis(ranks, order, positions, axis=-1)
  return np.swapaxes(ranks, axis, -1)


@metric('CRPSSkill', 'C17')
def crps_skill(p, f, o):
  return mean(skill(p, f, o))


@metric('CRPSSpread', 'C17',
        each=[{'which': 'predictions', 'use_sort': False},
              {'which': 'predictions', 'use_sort': True,
               'skipna_ensemble': False},
              {'which': 'targets', 'use_sort': False},
              {'which': 'targets', 'use_sort': True,
               'skipna_ensemble': False}],
        opaque=['weatherbenchX.metrics.probabilistic._rank_da'])
def crps_spread(p, f, o):
  return mean(spread(p, f if p.which == 'predictions' else o))


@behaves('CRPSSpread._compute_per_variable', 'C17 C18', raises=True,
         value=False, opaque=['weatherbenchX.metrics.probabilistic._rank_da'])
def spread_undefined(p, predictions, targets):
  if p.which == 'predictions':
    n = predictions.sizes[p.ensemble_dim]
  elif p.which == 'targets':
    n = targets.sizes[p.ensemble_dim]
  else:
    raise ValueError()
  if p.skipna_ensemble:
    if p.use_sort:
      raise ValueError()
  elif n < 2:
    raise ValueError()


_SORTED = [{'use_sort': False}, {'use_sort': True, 'skipna_ensemble': False}]


@metric('CRPSEnsemble', 'C17',
        each=[{'use_sort': False, 'fair': True},
              {'use_sort': False, 'fair': False},
              {'use_sort': True, 'skipna_ensemble': False}],
        opaque=['weatherbenchX.metrics.probabilistic._rank_da'])
def crps(p, f, o):
  return mean(skill(p, f, o)) - mean(spread(p, f)) / 2


@metric('CRPSEnsembleDistance', 'C17',
        each=[{'use_sort': False, 'fair': True},
              {'use_sort': False, 'fair': False},
              {'use_sort': True, 'skipna_ensemble': False}],
        opaque=['weatherbenchX.metrics.probabilistic._rank_da'])
def crps_distance(p, f, o):
  return mean(skill(p, f, o)) - mean(spread(p, f)) / 2 - mean(
      spread(p, o)) / 2


def variance(p, x):
  return x.var(dim=p.ensemble_dim, ddof=1, skipna=p.skipna_ensemble)


def size(p, x):
  return x.count(p.ensemble_dim) if p.skipna_ensemble else x.sizes[
      p.ensemble_dim]


def unbiased_mse(p, f, o):
  """(mean X - mean Y)^2 - var X / n - var Y / m."""
  d = p.ensemble_dim
  if d not in f.dims:
    raise ValueError()
  x = f.mean(dim=d, skipna=p.skipna_ensemble)
  if d in o.dims:
    y = o.mean(dim=d, skipna=p.skipna_ensemble)
    return (x - y) ** 2 - variance(p, f) / size(p, f) - variance(
        p, o) / size(p, o)
  return (x - o) ** 2 - variance(p, f) / size(p, f)


@metric('EnsembleVariance', 'C17')
def ensemble_variance(p, f, o):
  return mean(variance(p, f))


@metric('EnsembleRootMeanVariance', 'C17')
def ensemble_root_mean_variance(p, f, o):
  return np.sqrt(mean(variance(p, f)))


@metric('UnbiasedEnsembleMeanSquaredError', 'C17')
def unbiased_ensemble_mean_mse(p, f, o):
  return mean(unbiased_mse(p, f, o))


@metric('UnbiasedEnsembleMeanRMSE', 'C17')
def unbiased_ensemble_mean_rmse(p, f, o):
  return np.sqrt(mean(unbiased_mse(p, f, o)))


@metric('UnbiasedSpreadSkillRatio', 'C17')
def spread_skill(p, f, o):
  return np.sqrt(mean(variance(p, f)) / mean(unbiased_mse(p, f, o)))


@metric('WassersteinDistance', 'C17')
def wasserstein(p, f, o):
  d = p.ensemble_dim
  if d not in f.dims:
    raise ValueError()
  if d not in o.dims:
    raise ValueError()
  return mean(xr.apply_ufunc(
      scipy.stats.wasserstein_distance, f, o, input_core_dims=[[d], [d]],
      exclude_dims={d}, vectorize=True, dask='parallelized',
      output_dtypes=[f.dtype]))


@metric('EnsembleRankedProbabilityScore', 'C17', each=[{'fair': True}],
        opaque=['weatherbenchX.metrics.wrappers.'
                'select_bin_thresholds_by_time_from_chunk'])
def fair_rps(p, f, o):
  x = cdf(f, p.prediction_bin_thresholds, p.bin_dim, p.right_inclusive,
          p.enforce_monotonicity)
  y = cdf(o, p.target_bin_thresholds, p.bin_dim, p.right_inclusive,
          p.enforce_monotonicity)
  return mean(unbiased_mse(p, x, y).sum(p.bin_dim, skipna=False))


@metric('EnsembleRankedProbabilityScore', 'C17', each=[{'fair': False}],
        opaque=['weatherbenchX.metrics.wrappers.'
                'select_bin_thresholds_by_time_from_chunk'])
def unfair_rps(p, f, o):
  x = cdf(f, p.prediction_bin_thresholds, p.bin_dim, p.right_inclusive,
          p.enforce_monotonicity)
  y = cdf(o, p.target_bin_thresholds, p.bin_dim, p.right_inclusive,
          p.enforce_monotonicity)
  x = ensemble_mean(x, p.ensemble_dim, p.skipna_ensemble, True)
  y = ensemble_mean(y, p.ensemble_dim, p.skipna_ensemble, True)
  return mean(((x - y) ** 2).sum(p.bin_dim, skipna=False))


@metric('RankHistogram', 'C17 C03 C04')
def rank_histogram(p, f, o):
  """Number of members below the target, as indicators of each rank."""
  d = p.ensemble_dim
  k = xr.DataArray(np.arange(f.sizes[d] + 1), dims=['rank'])
  k.coords['rank'] = k
  r = (f < o).astype(int).sum(d, skipna=False)
  lost = np.isnan(o) | np.isnan(f).any(d)
  return mean((r == k).where(~lost).astype(np.float32))


def rev_table(p, f, o):
  t = p.probability_thresholds
  if t is None:
    t = (np.arange(p.ensemble_size) + 0.5) / p.ensemble_size
  b = binarized(f, t, 'threshold')
  return mean(_tp(b, o)), mean(_fp(b, o)), mean(_fn(b, o))


def rev(p, table, pick):
  tp, fp, fn = table
  c = p.cost_loss_ratios
  if c is None:
    c = np.geomspace(0.005, 1, 51)[:-1]
  c = xr.DataArray(c, dims=['cost_loss_ratio'], coords={'cost_loss_ratio': c})
  event = tp.isel(threshold=0, drop=True) + fn.isel(threshold=0, drop=True)
  none = xr.full_like(event, 0.0)

  def framed(always, x, never):
    return xr.concat([always.expand_dims(threshold=[0.0]), x,
                      never.expand_dims(threshold=[1.0])], dim='threshold')

  tp = pick(framed(event, tp, none))
  fp = pick(framed(1.0 - event, fp, none))
  fn = pick(framed(none, fn, event))
  forecast = c * (tp + fp) + fn
  perfect = c * (tp + fn)
  climatology = np.minimum(c, tp + fn)
  return (climatology - forecast) / (climatology - perfect)


@metric('RelativeEconomicValue', 'C17',
        each=[{'probability_thresholds': None, 'optimal_thresholds': None,
               'cost_loss_ratios': None, 'statistic_suffix': None},
              {'probability_thresholds': [0.25, 0.5], 'ensemble_size': None,
               'optimal_thresholds': None, 'statistic_suffix': 's'}])
def rev_all_thresholds(p, f, o):
  return rev(p, rev_table(p, f, o), lambda x: x)


@metric('RelativeEconomicValue', 'C17',
        each=[{'probability_thresholds': None, 'statistic_suffix': None,
               'cost_loss_ratios': None,
               'optimal_thresholds_select_nearest': True},
              {'probability_thresholds': None, 'statistic_suffix': None,
               'cost_loss_ratios': None,
               'optimal_thresholds_select_nearest': False}],
        opaque=['weatherbenchX.metrics.probabilistic._select_optimal_thresholds'])
def rev_optimal_thresholds(p, f, o):
  from weatherbenchX.metrics import probabilistic
  t = p.optimal_thresholds
  if t is None:
    return rev(p, rev_table(p, f, o), lambda x: x)
  best = t['v'] if isinstance(t, Mapping) else t
  how = 'nearest' if p.optimal_thresholds_select_nearest else None
  return rev(p, rev_table(p, f, o),
             lambda x: probabilistic._select_optimal_thresholds(x, best, how))


@behaves('weatherbenchX.metrics.probabilistic._select_optimal_thresholds',
         'C17')
def at_thresholds(values, optimal_thresholds, method):
  """The value at its own threshold for every cost/loss ratio."""
  at = xr.core.indexing.map_index_queries(
      values, dict(threshold=optimal_thresholds),
      method=method).dim_indexers['threshold']
  try:
    import jax
  except ImportError:
    jax = None
  if jax and isinstance(values.data, jax.Array):
    x, i = xr.broadcast(values, at, exclude=['threshold', 'cost_loss_ratio'])
    pick = lambda row, k: row[k]
    for _ in range(i.ndim - 1):
      pick = jax.vmap(pick, in_axes=0, out_axes=0)
    return xr.apply_ufunc(
        pick, x, i, input_core_dims=[['threshold'], ['cost_loss_ratio']],
        output_core_dims=[['cost_loss_ratio']])
  return values.isel(threshold=at).drop_vars('threshold')
