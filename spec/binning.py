"""Bins contain the points their labels describe (C14)."""

from typing import Sequence

import numpy as np
import xarray as xr
from weatherbenchX import binning

from .prelude import behaves

B = 'weatherbenchX.binning.'


@behaves('weatherbenchX.binning._create_lat_mask', 'C14 C18', raises=True)
def lat_mask(lat, lat_lims):
  """Both ends belong to a band."""
  lo, hi = lat_lims[0], lat_lims[1]
  if lo >= hi:
    raise ValueError()
  return (lat >= lo) & (lat <= hi)


@behaves('weatherbenchX.binning._create_lon_mask', 'C14')
def lon_mask(lon, lon_lims):
  """Longitudes are cyclic: a range whose end is not above its start wraps."""
  x = lon % 360
  lo, hi = lon_lims[0] % 360, lon_lims[1] % 360
  if hi > lo:
    return (x >= lo) & (x <= hi)
  return (x >= lo) | (x <= hi)


@behaves('weatherbenchX.binning._region_to_mask', 'C14',
         opaque=['weatherbenchX.binning._create_lat_mask',
                 'weatherbenchX.binning._create_lon_mask'])
def region_mask(lat, lon, lat_lims, lon_lims):
  return binning._create_lat_mask(lat, lat_lims) & binning._create_lon_mask(
      lon, lon_lims)


def labelled(mask, dim, label):
  return mask.expand_dims(dim, axis=0).assign_coords({dim: [label]})


@behaves('LandSea.create_bin_mask', 'C14 C23')
def land_sea(p, statistic):
  land = p.land_sea_fraction >= p.land_sea_threshold
  masks, labels = [land, 1 - land], ['land', 'sea']
  if p.include_global_mask:
    masks = masks + [xr.ones_like(land)]
    labels = labels + ['global']
  return xr.concat(masks, dim=p.bin_dim_name).assign_coords(
      {p.bin_dim_name: labels})


@behaves('Regions.create_bin_mask', 'C14 C23',
         opaque=['weatherbenchX.binning._region_to_mask'])
def regions(p, statistic):
  masks = xr.concat(
      [labelled(binning._region_to_mask(statistic.latitude,
                                        statistic.longitude, lat, lon),
                p.bin_dim_name, name)
       for name, (lat, lon) in p.regions.items()], dim=p.bin_dim_name)
  if p.land_sea_mask is None:
    return masks
  land = (masks * p.land_sea_mask.astype(bool)).assign_coords(
      {p.bin_dim_name: [f'{r}_land'
                        for r in masks.coords[p.bin_dim_name].data]})
  return xr.concat([masks, land], dim=p.bin_dim_name)


@behaves('LatitudeBins.create_bin_mask', 'C14 C23',
         opaque=['weatherbenchX.binning._create_lat_mask'])
def latitude_bins(p, statistic):
  d = p.degrees
  starts = np.arange(p.lat_range[0], p.lat_range[1] + d, d)[:-1]
  return xr.concat(
      [labelled(binning._create_lat_mask(statistic.latitude, (s, s + d))
                .broadcast_like(statistic), p.bin_dim_name, s)
       for s in starts], dim=p.bin_dim_name)


@behaves('LongitudeBins.create_bin_mask', 'C14 C23',
         opaque=['weatherbenchX.binning._create_lon_mask'])
def longitude_bins(p, statistic):
  d = p.degrees
  lo, hi = p.lon_range[0], p.lon_range[1]
  if lo >= hi:
    hi = hi + 360
  starts = np.arange(lo, hi + d, d)[:-1]
  return xr.concat(
      [labelled(binning._create_lon_mask(statistic.longitude, (s, s + d))
                .broadcast_like(statistic), p.bin_dim_name, s % 360)
       for s in starts], dim=p.bin_dim_name)


@behaves('weatherbenchX.binning.vectorized_coord_mask', 'C14')
def vectorized(coord, coord_name, bin_dim_name, add_global_bin):
  values = np.unique(coord)
  masks = xr.DataArray(
      coord.values == values.reshape((-1,) + (1,) * len(coord.dims)),
      coords={bin_dim_name: values} | {d: coord[d] for d in coord.dims},
      dims=[bin_dim_name] + list(coord.dims))
  if not add_global_bin:
    return masks
  everything = xr.ones_like(coord.astype(bool)).drop(coord_name).expand_dims(
      bin_dim_name).assign_coords({bin_dim_name: ['global']})
  if everything[bin_dim_name].dtype != masks[bin_dim_name].dtype:
    masks = masks.assign_coords(
        {bin_dim_name: masks[bin_dim_name].astype('str')})
    everything = everything.assign_coords(
        {bin_dim_name: everything[bin_dim_name].astype('str')})
  return xr.concat([everything, masks], dim=bin_dim_name)


@behaves('ByExactCoord.create_bin_mask', 'C14 C23',
         opaque=['weatherbenchX.binning.vectorized_coord_mask'])
def by_exact_coord(p, statistic):
  return binning.vectorized_coord_mask(statistic[p.coord], p.coord, p.coord,
                                       p.add_global_bin)


@behaves('weatherbenchX.binning._extract_time_unit', 'C14 C18', raises=True)
def extract_time_unit(time_coord, unit):
  if isinstance(time_coord.dt, xr.core.accessor_dt.TimedeltaAccessor):
    seconds = time_coord.dt.total_seconds()
    if unit == 'second':
      return seconds
    if unit == 'minute':
      return seconds // 60
    if unit == 'hour':
      return seconds // 3600
    if unit == 'day':
      return seconds // 86400
    if unit == 'week':
      return seconds // (7 * 86400)
    if unit == 'year':
      return seconds // (365 * 86400)
    raise ValueError()
  return getattr(time_coord.dt, unit)


@behaves('ByTimeUnit.create_bin_mask', 'C14 C23',
         opaque=['weatherbenchX.binning._extract_time_unit',
                 'weatherbenchX.binning.vectorized_coord_mask'])
def by_time_unit(p, statistic):
  return binning.vectorized_coord_mask(
      binning._extract_time_unit(statistic[p.time_dim], p.unit), p.time_dim,
      f'{p.time_dim}_{p.unit}', p.add_global_bin)


def members(s):
  return np.array(list(s) if isinstance(s, Sequence) and not isinstance(s, str)
                  else [s])


@behaves('ByTimeUnitSets.create_bin_mask', 'C14 C23',
         opaque=['weatherbenchX.binning._extract_time_unit'])
def by_time_unit_sets(p, statistic):
  dim = p.bin_dim_name
  if dim is None:
    dim = f'{p.dim}_{p.unit}_sets'
  x = binning._extract_time_unit(statistic[p.dim], p.unit)
  masks = [labelled(x.isin(members(s)), dim, name)
           for name, s in p.sets.items()]
  if p.add_global_bin:
    masks = masks + [labelled(xr.full_like(x, True, dtype=bool), dim,
                              'global')]
  return xr.concat(masks, dim)


@behaves('ByTimeUnitFromSeconds.create_bin_mask', 'C14 C23 C18', raises=True)
def by_time_unit_from_seconds(p, statistic):
  x = statistic[p.time_dim]
  if p.unit == 'second':
    default = np.arange(0, 60)
  elif p.unit == 'minute':
    x = x // 60
    default = np.arange(0, 60)
  elif p.unit == 'hour':
    x = x // 3600
    default = np.arange(0, 24)
  else:
    raise ValueError()
  bins = p.bins if p.bins is not None else default
  dim = f'{p.time_dim}_{p.unit}'
  return (x == xr.DataArray(bins, dims=[dim]).broadcast_like(x)).assign_coords(
      {dim: bins})


@behaves('ByCoordBins.create_bin_mask', 'C14 C23')
def by_coord_bins(p, statistic):
  """Half-open ranges: the start belongs to the bin, the end does not."""
  c = statistic.coords[p.dim_name]
  masks = [
      labelled(((c >= lo) & (c < hi)).drop([p.dim_name]), p.dim_name,
               str(lo) if p.add_global_bin else lo)
      for lo, hi in zip(p.bin_edges[:-1], p.bin_edges[1:])]
  if p.add_global_bin:
    masks = masks + [labelled(
        xr.full_like(c, True, dtype=bool).drop([p.dim_name]), p.dim_name,
        'global')]
  if not masks:
    return xr.ones_like(statistic).drop(p.dim_name).expand_dims(
        {p.dim_name: xr.DataArray([], dims=[p.dim_name]).astype(
            statistic[p.dim_name].dtype)}, axis=0)
  return xr.concat(masks, p.dim_name)


@behaves('BySets.create_bin_mask', 'C14 C23',
         each=[{'add_set_complements': False}, {'add_set_complements': True}])
def by_sets(p, statistic):
  x = statistic[p.coord_name]
  masks = []
  for name, s in p.sets.items():
    m = x.isin(members(s))
    masks.append(labelled(m, p.bin_dim_name, name))
    if p.add_set_complements:
      masks.append(labelled(~m, p.bin_dim_name, f'not_in_{name}'))
  if p.add_global_bin:
    masks.append(labelled(xr.full_like(x, True, dtype=bool), p.bin_dim_name,
                          'global'))
  return xr.concat(masks, p.bin_dim_name)


@behaves('BySets.__init__', 'C14 C18', raises=True, value=False)
def by_sets_init(sets, coord_name, bin_dim_name, add_set_complements,
                 add_global_bin):
  if bin_dim_name is None or bin_dim_name == coord_name:
    raise ValueError()


