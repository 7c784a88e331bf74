"""Input transforms and wrappers."""

from typing import Iterable

import numpy as np
import xarray as xr

from .prelude import behaves


# --- transforms ------------------------------------------------------------


def binarized(x, thresholds, dim):
  """1.0 where x exceeds the threshold, 0.0 elsewhere, missing where x is."""
  if isinstance(thresholds, xr.Dataset):
    t = thresholds[x.name]
  elif isinstance(thresholds, xr.DataArray):
    t = thresholds
  else:
    t = xr.DataArray(thresholds, dims=[dim], coords={dim: thresholds})
  return (x > t).where(~np.isnan(x)).astype(np.float32)


@behaves('binarize_thresholds', 'C26 C15 C03 C04')
def binarize_thresholds(x, thresholds, threshold_dim):
  return binarized(x, thresholds, threshold_dim)


@behaves('ContinuousToBinary.transform_fn', 'C26')
def continuous_to_binary(p, da):
  t = p.threshold_value
  if not isinstance(t, (Iterable, xr.DataArray, xr.Dataset)):
    t = [t]
  return binarized(da, t, p.threshold_dim)


def thresholds_at(t, x):
  """Thresholds valid at the times of x."""
  if {'init_time', 'lead_time'}.issubset(x.dims):
    if 'valid_time' in t.dims:
      return t.sel(valid_time=x.init_time + x.lead_time).compute()
    if {'init_time', 'lead_time'}.issubset(t.dims):
      return t.sel(init_time=x.init_time, lead_time=x.lead_time).compute()
    if {'dayofyear', 'lead_time'}.issubset(t.dims):
      return t.sel(dayofyear=x.init_time.dt.dayofyear,
                   lead_time=x.lead_time).compute()
    return t
  if 'valid_time' in x.dims:
    if 'valid_time' in t.dims:
      return t.sel(valid_time=x.valid_time).compute()
    if 'dayofyear' in t.dims:
      return t.sel(dayofyear=x.valid_time.dt.dayofyear).compute()
  return t


@behaves('select_bin_thresholds_by_time_from_chunk', 'C26 C13')
def bin_thresholds(bin_thresholds, chunk):
  return thresholds_at(bin_thresholds, chunk)


SEL = 'weatherbenchX.metrics.wrappers.select_bin_thresholds_by_time_from_chunk'


def cdf(x, thresholds, dim, right_inclusive, enforce_monotonicity):
  """1.0 where x is at most (below) each threshold, missing where either is."""
  from weatherbenchX.metrics import wrappers
  if isinstance(thresholds, xr.Dataset):
    t = wrappers.select_bin_thresholds_by_time_from_chunk(
        thresholds[x.name], x)
  elif isinstance(thresholds, xr.DataArray):
    t = wrappers.select_bin_thresholds_by_time_from_chunk(thresholds, x)
  elif isinstance(thresholds, Iterable):
    v = np.array(thresholds)
    t = xr.DataArray(v, dims=[dim], coords={dim: v})
  else:
    raise ValueError()
  if enforce_monotonicity and not np.all(t.diff(dim) > 0):
    raise ValueError()
  below = x <= t if right_inclusive else x < t
  return below.astype('float').where(~np.isnan(x)).where(~np.isnan(t))


@behaves('compute_cdf', 'C26 C15 C03 C04 C18', raises=True,
         opaque=['weatherbenchX.metrics.wrappers.select_bin_thresholds_by_time_from_chunk'])
def compute_cdf(threshold_values, da, threshold_dim, enforce_monotonicity,
                right_inclusive):
  return cdf(da, threshold_values, threshold_dim, right_inclusive,
             enforce_monotonicity)


@behaves('ContinuousToCDF.transform_fn', 'C26',
         opaque=['weatherbenchX.metrics.wrappers.select_bin_thresholds_by_time_from_chunk'])
def continuous_to_cdf(p, da):
  return cdf(da, p.threshold_values, p.threshold_dim, p.right_inclusive,
             p.enforce_monotonicity)


def bins(x, values, dim, enforce_monotonicity):
  c = cdf(x, values, dim, True, enforce_monotonicity)
  edges = c[dim].values
  left, right = edges[:-1], edges[1:]
  return c.diff(dim).assign_coords(
      {dim: [f'{a:.2f} < p <= {b:.2f}' for a, b in zip(left, right)]}
  ).assign_coords({f'{dim}_left': (dim, left)}).assign_coords(
      {f'{dim}_right': (dim, right)})


@behaves('ContinuousToBins.transform_fn', 'C26 C15',
         opaque=['weatherbenchX.metrics.wrappers.select_bin_thresholds_by_time_from_chunk'])
def continuous_to_bins(p, da):
  return bins(da, p.bin_values, p.bin_dim, p.enforce_monotonicity)


def ensemble_mean(x, dim, skipna, optional):
  if optional and dim not in x.dims:
    return x
  return x.mean(dim, skipna=skipna)


@behaves('EnsembleMean.transform_fn', 'C26 C17')
def ensemble_mean_transform(p, da):
  return ensemble_mean(da, p.ensemble_dim, p.skipna,
                       p.skip_if_ensemble_dim_missing)


@behaves('WeibullEnsembleToProbabilistic.transform_fn', 'C26 C17',
         fix={'which': 'predictions'})
def weibull(p, da):
  return da.sum(p.ensemble_dim, skipna=p.skipna) / (
      da.sizes[p.ensemble_dim] + 1)


@behaves('Inline.transform_fn', 'C26')
def inline(p, da):
  return p.transform_fn(da)


@behaves('ReLU.transform_fn', 'C26 C03')
def relu(p, da):
  return xr.where(da > 0, da, 0).where(~np.isnan(da))


@behaves('ShiftAlongNewDim.transform_fn', 'C26 C18', raises=True)
def shift(p, da):
  s = p.shift_value
  if isinstance(s, xr.Dataset):
    s = s[da.name]
    if p.shift_dim not in s.dims:
      raise RuntimeError()
    return da + s
  if not isinstance(s, Iterable):
    s = [s]
  return da + xr.DataArray(s, dims=[p.shift_dim], coords={p.shift_dim: s})


@behaves('Rename.transform_fn', 'C26')
def rename(p, da):
  return da.rename(p.renames)


@behaves('Select.transform_fn', 'C26')
def select(p, da):
  x = da.copy()
  if p.sel is not None:
    x = x.sel(p.sel, **(p.sel_kwargs or {}))
  if p.isel is not None:
    x = x.isel(p.isel, **(p.isel_kwargs or {}))
  return x


@behaves('StackToNewDimension.transform_fn', 'C26')
def stack(p, da):
  tmp = 'STACK_OF_' + '_AND_'.join([str(d) for d in p.dims_to_stack])
  return da.stack({tmp: p.dims_to_stack}).drop_vars(
      p.dims_to_stack).rename({tmp: p.new_dim_name})


@behaves('InputTransform.__init__', 'C26 C18', value=False, raises=True)
def which_valid(which):
  if which not in ('predictions', 'targets', 'both'):
    raise ValueError()


@behaves('ContinuousToBinary.__init__', 'C18', value=False, raises=True)
def binary_suffix(which, threshold_value, threshold_dim, unique_name_suffix):
  if which not in ('predictions', 'targets', 'both'):
    raise ValueError()
  t = threshold_value
  if not isinstance(t, (Iterable, xr.DataArray, xr.Dataset)):
    t = [t]
  if isinstance(t, (xr.DataArray, xr.Dataset)) and unique_name_suffix is None:
    raise ValueError()


@behaves('ContinuousToBins.__init__', 'C18', value=False, raises=True)
def bins_suffix(which, bin_values, bin_dim, unique_name_suffix):
  if which not in ('predictions', 'targets', 'both'):
    raise ValueError()
  if isinstance(bin_values, (xr.DataArray, xr.Dataset)) and (
      unique_name_suffix is None):
    raise ValueError()


@behaves('ContinuousToCDF.__init__', 'C18', value=False, raises=True)
def cdf_suffix(which, threshold_values, threshold_dim, unique_name_suffix):
  if which not in ('predictions', 'targets', 'both'):
    raise ValueError()
  if isinstance(threshold_values, (xr.DataArray, xr.Dataset)) and (
      unique_name_suffix is None):
    raise ValueError()


# --- wrapped statistics and metrics ----------------------------------------


def mapped(fn, x):
  from weatherbenchX import xarray_tree
  return xarray_tree.map_structure(fn, x)


@behaves('WrappedStatistic.compute', 'C26 C06',
         each=[{}])
def wrapped_compute(p, predictions, targets):
  t = p.transform
  if t.which in ('predictions', 'both'):
    predictions = mapped(t.transform_fn, predictions)
  if t.which in ('targets', 'both'):
    targets = mapped(t.transform_fn, targets)
  return p.statistic.compute(predictions, targets)


@behaves('RenamedStatistic.compute', 'C26')
def renamed_compute(p, predictions, targets):
  return p.statistic.compute(predictions, targets)


@behaves('RenamedStatistic.unique_name', 'C26 C05')
def renamed_name(p):
  return p.unique_name


@behaves('WrappedMetric.statistics', 'C26 C06 C05')
def wrapped_statistics(p):
  """The last transform is innermost, so that transforms apply in order."""
  from weatherbenchX.metrics import wrappers
  out = {}
  for k, s in p.metric.statistics.items():
    w = s
    for t in reversed(p.transforms):
      w = wrappers.WrappedStatistic(w, t)
    if p.unique_name_suffix is not None:
      w = wrappers.RenamedStatistic(
          w, f'{s.unique_name}_{p.unique_name_suffix}')
    out[k] = w
  return out


@behaves('WrappedMetric.values_from_mean_statistics '
         'SubselectVariables.values_from_mean_statistics', 'C26 C06 C05')
def wrapped_values(p, statistic_values):
  return p.metric.values_from_mean_statistics(statistic_values)


@behaves('SubselectVariablesForStatistic.compute', 'C26 C06 C05')
def subselect_compute(p, predictions, targets):
  return p.statistic.compute(
      {k: v for k, v in predictions.items() if k in p.variables},
      {k: v for k, v in targets.items() if k in p.variables})


@behaves('SubselectVariables.statistics', 'C26 C06 C05')
def subselect_statistics(p):
  from weatherbenchX.metrics import wrappers
  return {k: wrappers.SubselectVariablesForStatistic(s, p.variables)
          for k, s in p.metric.statistics.items()}


@behaves('EnsembleAveragedStatistic.compute', 'C26 C17 C18', raises=True)
def ensemble_averaged_compute(p, predictions, targets):
  def average(x):
    if p.ensemble_dim not in x.dims:
      raise ValueError()
    return x.mean(dim=p.ensemble_dim, skipna=p.skipna_ensemble)

  return mapped(average, p.wrapped_statistic.compute(predictions, targets))


@behaves('EnsembleAveragedMetric.statistics', 'C05 C26 C06 C17')
def ensemble_averaged_statistics(p):
  from weatherbenchX.metrics import probabilistic
  return {k: probabilistic.EnsembleAveragedStatistic(
      wrapped_statistic=s, ensemble_dim=p.ensemble_dim,
      skipna_ensemble=p.skipna_ensemble)
          for k, s in p.wrapped_metric.statistics.items()}


@behaves('EnsembleAveragedMetric.values_from_mean_statistics', 'C26 C06 C17')
def ensemble_averaged_values(p, statistic_values):
  return p.wrapped_metric.values_from_mean_statistics(statistic_values)
