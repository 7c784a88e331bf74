"""Inputs and configurations that have to be refused (C18)."""

import numpy as np
import pandas as pd
import pyarrow
import xarray as xr
from collections.abc import Iterable, Mapping, Sequence

from .prelude import behaves, climatology_at


@behaves('SparseObservationsFromParquet.__init__', 'C18', value=False,
         raises=True)
def sparse_configuration(partitioned_by, tolerance, remove_duplicates,
                         observation_dim, file_tolerance):
  if partitioned_by not in ('hour', 'day', 'month'):
    raise ValueError()
  if tolerance is not None and not isinstance(tolerance, np.timedelta64):
    if len(tolerance) != 2:
      raise ValueError()
  if tolerance is not None:
    if isinstance(tolerance, np.timedelta64):
      width = tolerance - (-tolerance)
    else:
      width = tolerance[1] - tolerance[0]
    if width <= np.timedelta64(0, 'h'):
      raise ValueError()
  if remove_duplicates and observation_dim is None:
    raise ValueError()


@behaves('SparseObservationsFromParquet._load_chunk_from_source', 'C18',
         value=False, raises=True, opaque=[
             'weatherbenchX.data_loaders.sparse_parquet.'
             'SparseObservationsFromParquet._load_data_for_single_time'])
def no_tolerance_with_slices(self, init_times, lead_times):
  if isinstance(lead_times, slice) and self._tolerance is not None:
    raise ValueError()


@behaves('PerVariableStatisticWithClimatology._compute_per_variable', 'C18',
         value=False, raises=True)
def needs_times(predictions, targets, climatology):
  if hasattr(predictions, 'valid_time'):
    return
  if not hasattr(predictions, 'init_time') or not hasattr(
      predictions, 'lead_time'):
    raise ValueError()


@behaves('SEEPS.__init__', 'C18', value=False,
         raises=True)
def seeps_lengths(variables, climatology, dry_threshold_mm, min_p1, max_p1):
  n = len(variables)
  for x in (dry_threshold_mm, min_p1, max_p1):
    if isinstance(x, Sequence) and len(x) != n:
      raise ValueError()


@behaves('UnbiasedEnsembleMeanSquaredError._compute_per_variable', 'C18',
         value=False, raises=True)
def members_in_predictions(p, predictions, targets):
  if p.ensemble_dim not in predictions.dims:
    raise ValueError()


@behaves('WassersteinDistance._compute_per_variable', 'C18', value=False,
         raises=True)
def members_in_both(p, predictions, targets):
  if (p.ensemble_dim not in predictions.dims
      or p.ensemble_dim not in targets.dims):
    raise ValueError()


@behaves('weatherbenchX.metrics.probabilistic.SpreadSkillRatio', 'C18',
         value=False, raises=True)
def withdrawn():
  raise ValueError()


@behaves('weatherbenchX.metrics.wrappers.binarize_thresholds', 'C18',
         value=False, raises=True)
def thresholds_fit(x, thresholds, threshold_dim):
  if isinstance(thresholds, xr.Dataset):
    if threshold_dim not in thresholds.dims:
      raise ValueError()
    if x.name not in thresholds.data_vars:
      raise ValueError()
  elif isinstance(thresholds, xr.DataArray):
    if threshold_dim not in thresholds.dims:
      raise ValueError()


@behaves('WeibullEnsembleToProbabilistic.__init__', 'C18', value=False,
         raises=True)
def only_predictions(which):
  if which != 'predictions':
    raise ValueError()


@behaves('weatherbenchX.weighting.latitude_cell_bounds', 'C18', value=False,
         raises=True)
def increasing(x):
  if not np.all(np.diff(x) > 0):
    raise ValueError()


@behaves('GridAreaWeighting.weights', 'C18', value=False, raises=True,
         opaque=['weatherbenchX.weighting.cell_area_from_latitude'])
def monotonic(p, statistic):
  if p.latitude_name in statistic.dims:
    d = np.diff(statistic[p.latitude_name].data)
    if not (np.all(d > 0) or np.all(d < 0)):
      raise ValueError()


@behaves('weatherbenchX.xarray_tree.map_structure', 'C18', value=False,
         raises=True, opaque=['weatherbenchX.xarray_tree.map_structure'])
def structures_given(func, star_structures):
  if not callable(func):
    raise TypeError()
  if not star_structures:
    raise ValueError()


@behaves('Regions.create_bin_mask', 'C18', value=False, raises=True,
         opaque=['weatherbenchX.binning._region_to_mask'])
def same_grid(self, statistic):
  masks = self._regions_to_masks(statistic.latitude, statistic.longitude)
  sea = self._land_sea_mask
  if sea is not None:
    if not np.array_equal(np.sort(masks.latitude), np.sort(sea.latitude)):
      raise ValueError()
    if not np.array_equal(masks.longitude, sea.longitude):
      raise ValueError()


@behaves('ByExactCoord.create_bin_mask', 'C18', value=False, raises=True,
         opaque=['weatherbenchX.binning.vectorized_coord_mask'])
def not_a_dimension(p, statistic):
  if p.coord in statistic.dims:
    raise ValueError()


@behaves('RelativeEconomicValue.__init__', 'C18', value=False, raises=True)
def decision_thresholds(self, ensemble_size, cost_loss_ratios,
                        probability_thresholds, optimal_thresholds,
                        statistic_suffix):
  if (ensemble_size is None) == (probability_thresholds is None):
    raise ValueError()
  if probability_thresholds is not None and statistic_suffix is None:
    raise ValueError()
  t = probability_thresholds
  if t is None:
    t = (np.arange(ensemble_size) + 0.5) / ensemble_size
  if not np.all(t >= 0.0) or not np.all(t <= 1.0):
    raise ValueError()
  if optimal_thresholds is not None:
    r = cost_loss_ratios
    if r is None:
      r = np.geomspace(0.005, 1, 51)[:-1]
    expected = xr.DataArray(r, dims=['cost_loss_ratio'],
                            coords={'cost_loss_ratio': r})
    if isinstance(optimal_thresholds, Mapping):
      arrays = optimal_thresholds.values()
    else:
      arrays = [optimal_thresholds]
    for a in arrays:
      if 'cost_loss_ratio' not in a.dims:
        raise ValueError()
      if not a.coords['cost_loss_ratio'].equals(expected):
        raise ValueError()


INFERENCE = 'weatherbenchX.statistical_inference.'


@behaves(INFERENCE + 'utils.get_and_check_experimental_unit_coord', 'C18',
         value=False, raises=True)
def consistent_units(aggregated_statistics, name, check_is_dim):
  coord = None
  for variables in aggregated_statistics.sum_weighted_statistics.values():
    for var in variables.values():
      try:
        c = var.coords[name]
      except KeyError as e:
        raise ValueError() from e
      if c.ndim != 1:
        raise ValueError()
      if check_is_dim and c.dims[0] != name:
        raise ValueError()
      if coord is None:
        coord = c
      elif c.size != coord.size or not np.all(c.data == coord.data):
        raise ValueError()
  if coord is None:
    raise ValueError()


@behaves(INFERENCE + 't_test._check_constant', 'C18', value=False, raises=True)
def constant(data_array, dim, error_suffix):
  first = data_array.isel({dim: [0]}).data
  if data_array.dtype.kind == 'f':
    same = np.allclose(first, data_array.data)
  else:
    same = np.all(first == data_array.data)
  if not same:
    raise ValueError()


@behaves('StationaryBootstrap._optimal_block_length', 'C18', value=False,
         raises=True)
def enough_units(p, data_array):
  if p.mean_block_length is None:
    if p.experimental_unit_dim not in data_array.dims:
      raise ValueError()
    if data_array.sizes[p.experimental_unit_dim] < 8:
      raise ValueError()
    if data_array.squeeze().ndim != 1:
      raise ValueError()


@behaves(INFERENCE + 't_test._check_uniform_step', 'C18', value=False,
         raises=True, at_least=True)
def uniform_steps(data_array, dim):
  """Coordinates of numeric type."""
  coord = data_array.coords.get(dim)
  if coord is not None and np.issubdtype(coord.dtype, np.number):
    d = coord.diff(dim)
    first = d.isel({dim: [0]}).data
    if d.dtype.kind == 'f':
      if not np.allclose(first, d.data):
        raise ValueError()
    elif not np.all(first == d.data):
      raise ValueError()


@behaves(INFERENCE + 't_test._check_uniform_step', 'C18', value=False,
         raises=True, at_least=True, name='dates')
def uniform_dates(data_array, dim):
  """Dates are not numbers to numpy: a time axis has to be checked too."""
  coord = data_array.coords.get(dim)
  if coord is not None and np.issubdtype(coord.dtype, np.datetime64):
    d = coord.diff(dim)
    first = d.isel({dim: [0]}).data
    if d.dtype.kind != 'f' and not np.all(first == d.data):
      raise ValueError()


@behaves('SEEPS._compute_seeps_per_variable', 'C18', value=False, raises=True)
def two_masks(predictions, targets):
  if hasattr(predictions, 'mask') and hasattr(targets, 'mask'):
    raise ValueError()


@behaves('public_configs.select_first_member', 'C18', value=False, raises=True)
def has_members(ds):
  if not any(d in ds.dims for d in (
      'number', 'sample', 'member', 'realization')):
    raise ValueError()
