"""Interpolation (C27)."""

import numpy as np
import xarray as xr
from weatherbenchX import interpolations
from weatherbenchX import xarray_tree
from weatherbenchX.metrics import spatial
from weatherbenchX.metrics import wrappers

from .prelude import behaves


@behaves('Interpolation.interpolate', 'C27 C11',
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def interpolate(self, ds, reference):
  if reference is None:
    return xarray_tree.map_structure(self.interpolate_data_array, ds)
  return xarray_tree.map_structure(self.interpolate_data_array, ds, reference)


@behaves('MultipleInterpolation.interpolate_data_array', 'C27 C23')
def multiple(p, da, reference):
  for i in p.interpolations:
    da = i.interpolate_data_array(da, reference)
  return da


@behaves('weatherbenchX.interpolations.pad_longitude', 'C27')
def pad_longitude(da):
  """One column on each side, a full turn away."""
  west = da.isel(longitude=[-1])
  east = da.isel(longitude=[0])
  return xr.concat(
      [west.assign_coords(longitude=west.longitude.values - 360), da,
       east.assign_coords(longitude=east.longitude.values + 360)],
      'longitude')


@behaves('weatherbenchX.interpolations.interpolate_to_coords', 'C27 C23')
def interpolate_to_coords(da, dim_args, method, extrapolate_out_of_bounds):
  kw = None
  if extrapolate_out_of_bounds:
    kw = ({'fill_value': None} if len(dim_args) > 1
          else {'fill_value': 'extrapolate'})
  return da.interp(**dim_args, method=method, kwargs=kw)


@behaves('CropToBox.__init__', 'C27 C18', raises=True, value=False)
def crop_init(lat_min, lat_max, lon_min, lon_max):
  if lat_min > lat_max:
    raise ValueError()
  if lon_min > lon_max:
    raise ValueError()


@behaves('CropToBox.interpolate_data_array', 'C27 C23')
def crop(p, da, reference):
  return da.sortby('longitude', ascending=True).sortby(
      'latitude', ascending=True).sel(latitude=slice(p.lat_min, p.lat_max),
                                      longitude=slice(p.lon_min, p.lon_max))


@behaves('InterpolateToFixedCoords.interpolate_data_array', 'C27 C23',
         opaque=['weatherbenchX.interpolations.pad_longitude',
                 'weatherbenchX.interpolations.interpolate_to_coords'])
def fixed(p, da, reference):
  if p.wrap_longitude:
    da = interpolations.pad_longitude(da)
  return interpolations.interpolate_to_coords(
      da, p.coords, p.method, p.extrapolate_out_of_bounds)


@behaves('InterpolateToReferenceCoords.interpolate_data_array', 'C27 C23',
         each=[{'clip_reference_coords': None}, {'dims': None}, {}],
         opaque=['weatherbenchX.interpolations.pad_longitude',
                 'weatherbenchX.interpolations.interpolate_to_coords'])
def to_reference(p, da, reference):
  if p.wrap_longitude:
    da = interpolations.pad_longitude(da)
  if p.clip_reference_coords is not None:
    for c in p.clip_reference_coords:
      x, y = reference[c].values, da[c].values
      reference = reference.isel({c: (x >= y.min()) & (x <= y.max())})
  if p.dims is None:
    dims = [d for d in da.dims if d in reference.coords]
  else:
    dims = p.dims
  if reference.size == 0:
    return reference.copy().expand_dims(
        {d: da[d] for d in set(da.dims) - set(dims)})
  return interpolations.interpolate_to_coords(
      da, {d: reference[d] for d in dims}, p.method,
      p.extrapolate_out_of_bounds)


@behaves('GridToSparseWithAltitudeAdjustment.interpolate_data_array',
         'C27 C23', opaque=['weatherbenchX.interpolations.pad_longitude',
                 'weatherbenchX.interpolations.interpolate_to_coords'])
def altitude(p, da, reference):
  i = interpolations.InterpolateToReferenceCoords(
      method=p.method, dims=p.dims, wrap_longitude=p.wrap_longitude,
      extrapolate_out_of_bounds=p.extrapolate_out_of_bounds)
  if da.name not in ['2m_temperature', '10m_wind_speed']:
    return i.interpolate_data_array(da, reference)
  x = i.interpolate_data_array(
      da.assign_coords(grid_elevation=p.grid_elevation), reference)
  dz = x['elevation'] - x['grid_elevation']
  dz = dz.where(np.abs(dz) < p.max_alititude_diff_in_m, 0)
  if da.name == '2m_temperature':
    return x - 0.0065 * dz
  f = xr.ones_like(dz).where(dz < 100, 1 + 0.002 * (dz - 100))
  return x * f.where(dz < 1100, 3)


@behaves('NeighborhoodThresholdProbabilities.interpolate_data_array',
         'C27 C23',
         opaque=['weatherbenchX.metrics.wrappers.binarize_thresholds',
                 'weatherbenchX.metrics.spatial.neighborhood_averaging_for_single_size'])
def neighborhood_probabilities(p, da, reference):
  events = wrappers.binarize_thresholds(da, thresholds=p.thresholds,
                                        threshold_dim=p.threshold_dim)
  return xr.concat(
      [spatial.neighborhood_averaging_for_single_size(
          events, n, wrap_longitude=p.wrap_longitude)
       for n in p.neighborhood_sizes],
      dim=xr.DataArray(p.neighborhood_sizes, dims=['smoothing_neighborhood']))


@behaves('Subsample.__init__', 'C27 C18', raises=True, value=False)
def subsample_init(dims, stride):
  if stride < 1:
    raise ValueError()


@behaves('Subsample.interpolate_data_array', 'C27 C23')
def subsample(p, da, reference):
  return da.isel(**{d: slice(None, None, p.stride) for d in p.dims
                    if d in da.dims})
