"""Loading chunks (C11), latency (C12), valid times (C13)."""

from typing import Iterable, Mapping

import numpy as np
import xarray as xr
from weatherbenchX import xarray_tree
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import xarray_loaders

from .prelude import behaves


# --- processing steps (C11) -----------------------------------------------------


@behaves('weatherbenchX.data_loaders.base.add_nan_mask_to_data', 'C11 C03')
def nan_mask(data, variable_subset):
  return {k: (v.assign_coords(mask=~v.isnull())
              if variable_subset is None or k in variable_subset else v)
          for k, v in data.items()}


MASK = ['weatherbenchX.data_loaders.base.add_nan_mask_to_data']


@behaves('weatherbenchX.data_loaders.base.DataLoader.load_chunk', 'C11 C23',
         opaque=['weatherbenchX.data_loaders.base.add_nan_mask_to_data',
                 'weatherbenchX.data_loaders.base.DataLoader._load_chunk_from_source'])
def load_chunk(self, p, init_times, lead_times, reference):
  chunk = self._load_chunk_from_source(init_times, lead_times)
  if p.process_chunk_fn is not None:
    chunk = p.process_chunk_fn(chunk)
  if p.interpolation is not None:
    chunk = p.interpolation.interpolate(chunk, reference)
  if p.compute:
    chunk = xarray_tree.map_structure(
        lambda x: x.compute().astype(x.dtype), chunk)
  if p.add_nan_mask:
    chunk = base.add_nan_mask_to_data(chunk)
  if p.add_values_to_coords:
    chunk = xarray_tree.map_structure(
        lambda x: x.assign_coords(values_as_coord=x), chunk)
  return chunk


# --- dataset preparation (C11) --------------------------------------------------


@behaves('weatherbenchX.data_loaders.xarray_loaders._rename_dataset',
         'C11 C13 C18', raises=True)
def rename_dataset(ds, rename_dimensions, rename_variables,
                   convert_lat_lon_to_latitude_longitude):
  if convert_lat_lon_to_latitude_longitude and (
      'lat' in ds.coords and 'lon' in ds.coords):
    ds = ds.rename({'lat': 'latitude', 'lon': 'longitude'})
  if rename_dimensions == 'ecmwf':
    if 'prediction_timedelta' in ds.coords:
      ds = ds.rename({'time': 'init_time',
                      'prediction_timedelta': 'lead_time'})
    else:
      ds = ds.rename({'time': 'valid_time'})
  elif isinstance(rename_dimensions, Mapping):
    ds = ds.rename(rename_dimensions)
  elif rename_dimensions is not None:
    raise ValueError()
  if rename_variables is not None:
    ds = ds.rename(rename_variables)
  return ds


def prepared(p):
  """Read, preprocess, rename, select variables, select labels: in this order."""
  ds = p.ds
  if ds is None:
    if p.path.rstrip('/').endswith('.zarr'):
      ds = xr.open_zarr(p.path)
    else:
      ds = xr.open_dataset(p.path)
  if p.preprocessing_fn is not None:
    ds = p.preprocessing_fn(ds)
  ds = xarray_loaders._rename_dataset(
      ds, p.rename_dimensions, p.rename_variables,
      p.automatically_convert_lat_lon_to_latitude_longitude)
  if p.variables is not None:
    ds = ds[list(p.variables)]
  if p.sel_kwargs is not None:
    ds = ds.sel(**p.sel_kwargs)
  return ds


@behaves('XarrayDataLoader.__init__', 'C11 C18', raises=True, value=False)
def xarray_loader_init(path, ds):
  if path is not None and ds is not None:
    raise ValueError()
  if path is None and ds is None:
    raise ValueError()


# --- what is read for a chunk (C13) ----------------------------------------------


@behaves('PredictionsFromXarray._load_chunk_from_source', 'C11 C13')
def predictions(self, init_times, lead_times):
  if lead_times is None:
    return self._ds.sel(init_time=init_times)
  return self._ds.sel(init_time=init_times, lead_time=lead_times)


def valid_times(init_times, lead_times):
  return xr.DataArray(init_times, coords={'init_time': init_times}) + (
      xr.DataArray(lead_times, coords={'lead_time': lead_times}))


@behaves('TargetsFromXarray._load_chunk_from_source', 'C11 C13 C18',
         raises=True)
def targets(self, init_times, lead_times):
  if isinstance(lead_times, Iterable):
    return self._ds.sel(valid_time=valid_times(init_times, lead_times))
  if isinstance(lead_times, slice):
    raise ValueError()
  return self._ds.sel(valid_time=init_times)


@behaves('ClimatologyFromXarray._load_chunk_from_source', 'C13 C18 C23',
         raises=True)
def climatology(self, p, init_times, lead_times):
  if isinstance(lead_times, Iterable):
    t = valid_times(init_times, lead_times)
  elif isinstance(lead_times, slice):
    raise ValueError()
  else:
    t = xr.DataArray(init_times, coords={'init_time': init_times})
  return self._ds.sel({c: getattr(t.dt, c)
                       for c in p.climatology_time_coords})


@behaves('PersistenceFromXarray._load_chunk_from_source', 'C13 C18',
         raises=True)
def persistence(self, init_times, lead_times):
  if lead_times is None or isinstance(lead_times, slice):
    raise ValueError()
  return self._ds.sel(valid_time=init_times).expand_dims(
      {'lead_time': lead_times}).rename({'valid_time': 'init_time'})


@behaves('ProbabilisticClimatologyFromXarray._load_chunk_from_source',
         'C13 C18 C23', raises=True)
def probabilistic_climatology(self, p, init_times, lead_times):
  if lead_times is None or isinstance(lead_times, slice):
    raise ValueError()
  t = xr.DataArray(init_times, dims=['init_time'],
                   coords={'init_time': init_times}) + xr.DataArray(
                       lead_times, dims=['lead_time'],
                       coords={'lead_time': lead_times})
  hours = (t.dt.dayofyear - 1) * 24 + t.dt.hour
  step = np.timedelta64(1, 'h').astype('timedelta64[ns]')
  times = [np.datetime64(str(y)) + hours * step
           for y in range(p.start_year, p.end_year + 1)]
  member = xr.DataArray(range(len(times)), dims=[p.ensemble_dim],
                        coords={p.ensemble_dim: range(len(times))})
  return self._ds.sel(valid_time=xr.concat(times, dim=member))


# --- latency (C12) ------------------------------------------------------------------


@behaves('ConstantLatencyWrapper.get_available_init_time', 'C12')
def available(p, init_time):
  age = (p.nominal_init_times + p.latency - init_time).astype(int)
  return p.nominal_init_times[np.nanargmax(np.where(age <= 0, age, np.nan))]


@behaves('ConstantLatencyWrapper._load_chunk_from_source', 'C12 C18',
         raises=True,
         opaque=['weatherbenchX.data_loaders.latency_wrappers.ConstantLatencyWrapper.get_available_init_time',
                 'weatherbenchX.data_loaders.xarray_loaders.XarrayDataLoader.maybe_prepare_dataset'])
def latency_load(self, p, init_times, lead_times):
  if lead_times is None:
    raise ValueError()
  parts = []
  for t in init_times:
    nominal = self.get_available_init_time(t)
    offset = t - nominal
    raw = p.data_loader._load_chunk_from_source(np.array([nominal]),
                                                lead_times + offset)
    parts.append(xarray_tree.map_structure(
        lambda x: x.assign_coords(init_time=x.init_time + offset,
                                  lead_time=x.lead_time - offset), raw))
  return xarray_tree.map_structure(
      lambda *x: xr.concat([*x], dim=p.concat_dim), *parts)


@behaves('MultipleConstantLatencyWrapper._get_data_loader', 'C12')
def freshest(p, init_time):
  """Smallest age; among equals the loader with the largest latency."""
  keys = np.array(
      [(init_time - d.get_available_init_time(init_time), -d.latency)
       for d in p.data_loaders],
      dtype=[('lead_time_offset', 'timedelta64[s]'),
             ('neg_latency', 'timedelta64[s]')])
  return p.data_loaders[np.argsort(keys, order=('lead_time_offset',
                                                'neg_latency'))[0]]


@behaves('MultipleConstantLatencyWrapper.load_chunk', 'C12',
         opaque=['weatherbenchX.data_loaders.latency_wrappers.MultipleConstantLatencyWrapper._get_data_loader',
                 'weatherbenchX.data_loaders.base.DataLoader.load_chunk'])
def multiple_load(self, p, init_times, lead_times, reference):
  parts = [self._get_data_loader(t).load_chunk([t], lead_times, reference)
           for t in init_times]
  return xarray_tree.map_structure(
      lambda *x: xr.concat([*x], dim=p.concat_dim), *parts)


# --- whole loaders -------------------------------------------------------------------


from weatherbenchX.data_loaders import latency_wrappers

from .prelude import law


def finished(chunk, reference, interpolation, compute, add_nan_mask,
             process_chunk_fn, add_values_to_coords):
  if process_chunk_fn is not None:
    chunk = process_chunk_fn(chunk)
  if interpolation is not None:
    chunk = interpolation.interpolate(chunk, reference)
  if compute:
    chunk = xarray_tree.map_structure(
        lambda x: x.compute().astype(x.dtype), chunk)
  if add_nan_mask:
    chunk = base.add_nan_mask_to_data(chunk)
  if add_values_to_coords:
    chunk = xarray_tree.map_structure(
        lambda x: x.assign_coords(values_as_coord=x), chunk)
  return chunk


def opened(path, ds):
  if ds is not None:
    return ds
  return (xr.open_zarr(path) if path.rstrip('/').endswith('.zarr')
          else xr.open_dataset(path))


def prepare(ds, variables, sel_kwargs, rename_dimensions, convert,
            rename_variables, preprocessing_fn):
  if preprocessing_fn is not None:
    ds = preprocessing_fn(ds)
  ds = xarray_loaders._rename_dataset(ds, rename_dimensions, rename_variables,
                                      convert)
  if variables is not None:
    ds = ds[list(variables)]
  if sel_kwargs is not None:
    ds = ds.sel(**sel_kwargs)
  return ds


@law('C11 C23 C24', opaque=[
    'weatherbenchX.data_loaders.base.add_nan_mask_to_data',
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.data_loaders.xarray_loaders._rename_dataset'],
     each=[{'preprocessing_fn': None, 'variables': None},
           {'sel_kwargs': None, 'interpolation': None}],
     anchor='weatherbenchX/data_loaders/xarray_loaders.py')
def second_load_sees_the_dataset_prepared_once(
    path, ds, variables, sel_kwargs, rename_dimensions, convert,
    rename_variables, preprocessing_fn, interpolation, add_nan_mask,
    process_chunk_fn, add_values_to_coords, times1, leads1, init_times,
    lead_times, reference):
  loader = xarray_loaders.PredictionsFromXarray(
      path=path, ds=ds, variables=variables, sel_kwargs=sel_kwargs,
      rename_dimensions=rename_dimensions,
      automatically_convert_lat_lon_to_latitude_longitude=convert,
      rename_variables=rename_variables, preprocessing_fn=preprocessing_fn,
      interpolation=interpolation, add_nan_mask=add_nan_mask,
      process_chunk_fn=process_chunk_fn,
      add_values_to_coords=add_values_to_coords)
  loader.load_chunk(times1, leads1)
  got = loader.load_chunk(init_times, lead_times, reference)
  d = prepare(opened(path, ds), variables, sel_kwargs, rename_dimensions,
              convert, rename_variables, preprocessing_fn)
  if lead_times is None:
    d = d.sel(init_time=init_times)
  else:
    d = d.sel(init_time=init_times, lead_time=lead_times)
  return got, finished(d, reference, interpolation, True, add_nan_mask,
                       process_chunk_fn, add_values_to_coords)


@law('C12 C11 C23', opaque=[
    'weatherbenchX.data_loaders.base.add_nan_mask_to_data',
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.data_loaders.xarray_loaders._rename_dataset'],
     anchor='weatherbenchX/data_loaders/latency_wrappers.py')
def latency_wrapped_loader(ds: xr.Dataset, latency, dim, concat_dim, compute,
                           interpolation, add_nan_mask, process_chunk_fn,
                           add_values_to_coords, init_times, lead_times,
                           reference):
  """Nominal times come from the prepared data; options keep their meaning."""
  loader = latency_wrappers.XarrayConstantLatencyWrapper(
      xarray_loaders.PredictionsFromXarray(
          ds=ds, interpolation=interpolation, compute=compute,
          add_nan_mask=add_nan_mask, process_chunk_fn=process_chunk_fn,
          add_values_to_coords=add_values_to_coords),
      latency, init_time_dim=dim, concat_dim=concat_dim)
  got = loader.load_chunk(init_times, lead_times, reference)
  if lead_times is None:
    raise ValueError()
  d = xarray_loaders._rename_dataset(ds, 'ecmwf', None, True)
  nominal = d[dim].values
  parts = []
  for t in init_times:
    age = (nominal + latency - t).astype(int)
    issued = nominal[np.nanargmax(np.where(age <= 0, age, np.nan))]
    offset = t - issued
    raw = d.sel(init_time=np.array([issued]), lead_time=lead_times + offset)
    parts.append(xarray_tree.map_structure(
        lambda x: x.assign_coords(init_time=x.init_time + offset,
                                  lead_time=x.lead_time - offset), raw))
  chunk = xarray_tree.map_structure(
      lambda *x: xr.concat([*x], dim=concat_dim), *parts)
  if process_chunk_fn is not None:
    chunk = process_chunk_fn(chunk)
  if interpolation is not None:
    chunk = interpolation.interpolate(chunk, reference)
  if compute:
    chunk = xarray_tree.map_structure(
        lambda x: x.compute().astype(x.dtype), chunk)
  if add_nan_mask:
    chunk = base.add_nan_mask_to_data(chunk)
  if add_values_to_coords:
    chunk = xarray_tree.map_structure(
        lambda x: x.assign_coords(values_as_coord=x), chunk)
  return got, chunk


@law('C12 C24', opaque=[
    'weatherbenchX.data_loaders.xarray_loaders._rename_dataset'],
     anchor='weatherbenchX/data_loaders/latency_wrappers.py')
def nominal_times_are_known_before_the_first_load(
    ds: xr.Dataset, latency, dim, init_time, earlier):
  wrapper = latency_wrappers.XarrayConstantLatencyWrapper(
      xarray_loaders.PredictionsFromXarray(ds=ds), latency, init_time_dim=dim)
  wrapper.get_available_init_time(earlier)
  nominal = xarray_loaders._rename_dataset(ds, 'ecmwf', None, True)[dim].values
  age = (nominal + latency - init_time).astype(int)
  return (wrapper.get_available_init_time(init_time),
          nominal[np.nanargmax(np.where(age <= 0, age, np.nan))])


@law('C13 C11 C23', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.data_loaders.base.add_nan_mask_to_data',
    'weatherbenchX.data_loaders.xarray_loaders._rename_dataset'],
     anchor='weatherbenchX/data_loaders/xarray_loaders.py')
def targets_at_valid_time(ds: xr.Dataset, variables, sel_kwargs, add_nan_mask,
                          interpolation, process_chunk_fn,
                          init_times, leads, reference):
  lead_times = np.array(leads)
  loader = xarray_loaders.TargetsFromXarray(
      ds=ds, variables=variables, sel_kwargs=sel_kwargs,
      add_nan_mask=add_nan_mask, interpolation=interpolation,
      process_chunk_fn=process_chunk_fn)
  got = loader.load_chunk(init_times, lead_times, reference)
  d = prepare(ds, variables, sel_kwargs, 'ecmwf', True, None, None)
  d = d.sel(valid_time=valid_times(init_times, lead_times))
  return got, finished(d, reference, interpolation, True, add_nan_mask,
                       process_chunk_fn, False)


@law('C13 C11 C23', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.data_loaders.base.add_nan_mask_to_data',
    'weatherbenchX.data_loaders.xarray_loaders._rename_dataset'],
     anchor='weatherbenchX/data_loaders/xarray_loaders.py')
def climatology_at_valid_time(ds: xr.Dataset, variables, rename,
                              rename_variables, interpolation, compute,
                              init_times, leads, reference):
  lead_times = np.array(leads)
  loader = xarray_loaders.ClimatologyFromXarray(
      ds=ds, variables=variables, rename_dimensions=rename,
      rename_variables=rename_variables, interpolation=interpolation,
      compute=compute)
  got = loader.load_chunk(init_times, lead_times, reference)
  d = prepare(ds, variables, None, rename, True, rename_variables, None)
  t = valid_times(init_times, lead_times)
  d = d.sel(dayofyear=t.dt.dayofyear, hour=t.dt.hour)
  return got, finished(d, reference, interpolation, compute, False, None, False)


@law('C13 C11 C23', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.data_loaders.base.add_nan_mask_to_data',
    'weatherbenchX.data_loaders.xarray_loaders._rename_dataset'],
     anchor='weatherbenchX/data_loaders/xarray_loaders.py')
def persistence_at_init_time(ds: xr.Dataset, variables, interpolation,
                             init_times, leads, reference):
  lead_times = np.array(leads)
  loader = xarray_loaders.PersistenceFromXarray(
      ds=ds, variables=variables, interpolation=interpolation)
  got = loader.load_chunk(init_times, lead_times, reference)
  d = prepare(ds, variables, None, 'ecmwf', True, None, None)
  d = d.sel(valid_time=init_times).expand_dims(
      {'lead_time': lead_times}).rename({'valid_time': 'init_time'})
  return got, finished(d, reference, interpolation, True, False, None, False)
