"""Sparse observations (C25)."""

import functools
import os

import numpy as np
import pandas as pd
import pyarrow

from weatherbenchX.data_loaders import sparse_parquet

from .prelude import behaves

FILES = 'weatherbenchX.data_loaders.sparse_parquet.get_parquet_files_subset'
NAME = 'weatherbenchX.data_loaders.sparse_parquet.parquet_filename_for_time'


@behaves(NAME, 'C25', raises=True,
         args=[{'unit': 'M'}, {'unit': 'D'}, {'unit': 'h'}, {'unit': 's'}])
def filename(path, time, unit):
  """The documented directory layout."""
  d = time.item()
  year, month = d.year, d.month
  if unit == 'M':
    return os.path.join(path, f'year={year}/month={month}/'
                        f'{year}-{str(month).zfill(2)}.parquet')
  day = d.day
  if unit == 'D':
    return os.path.join(
        path, f'year={year}/month={month}/day={day}/'
        f'{year}-{str(month).zfill(2)}-{str(day).zfill(2)}.parquet')
  hour = d.hour
  if unit == 'h':
    return os.path.join(
        path, f'year={year}/month={month}/day={day}/hour={hour}/'
        f'{year}-{str(month).zfill(2)}-{str(day).zfill(2)}'
        f'T{str(hour).zfill(2)}.parquet')
  raise NotImplementedError


UNITS = {'month': 'M', 'day': 'D', 'hour': 'h'}


@behaves(FILES, 'C25', raises=True, opaque=[NAME],
         args=[{'partition_by': 'month'}, {'partition_by': 'day'},
               {'partition_by': 'hour'}, {'partition_by': 'year'}])
def files(path, time_start, time_end, partition_by):
  """Every partition from the one of the start to that of the end, inclusive."""
  if partition_by not in UNITS:
    raise NotImplementedError
  unit = UNITS[partition_by]
  step = np.timedelta64(1, unit)
  return [sparse_parquet.parquet_filename_for_time(path, t, unit)
          for t in np.arange(np.datetime64(time_start, unit),
                             np.datetime64(time_end, unit) + step, step)]


def rows(p, start, stop):
  """Observations with start <= time < stop (or time == start)."""
  if stop is None:
    last = start
    filters = [(p.time_dim, '=', pd.Timestamp(start))]
  else:
    last = stop
    filters = [(p.time_dim, '>=', pd.Timestamp(start)),
               (p.time_dim, '<=' if p.include_slice_end_time else '<',
                pd.Timestamp(stop))]

  def read(f):
    try:
      return pd.read_parquet(f, filters=filters)
    except pyarrow.lib.ArrowTypeError:
      return pd.read_parquet(f)

  return pd.concat([read(f) for f in sparse_parquet.get_parquet_files_subset(
      p.path, start - p.file_tolerance, last + p.file_tolerance,
      p.partitioned_by)], ignore_index=True)


def cleaned(p, df, valid_time):
  """Preprocessing, one row per station (nearest first), names, columns."""
  if p.preprocessing_fn is not None:
    df = p.preprocessing_fn(df)
  if p.remove_duplicates:
    if p.pick_closest_duplicate_by is not None:
      df['time_diff'] = np.abs(df[p.pick_closest_duplicate_by] - valid_time)
      df = df.sort_values('time_diff', ascending=True)
    df = df[~df[p.observation_dim].duplicated(keep='first')]
  if p.rename_variables is not None:
    df = df.rename(columns=p.rename_variables)
  df = df.rename(columns={p.time_dim: 'valid_time'})
  return df.loc[:, p.variables + list(p.coordinate_variables) + ['valid_time']]


def around(p, valid_time):
  if p.tolerance is None:
    return cleaned(p, rows(p, valid_time, None), valid_time)
  before, after = ((-p.tolerance, p.tolerance) if isinstance(
      p.tolerance, np.timedelta64) else p.tolerance)
  return cleaned(p, rows(p, valid_time + before, valid_time + after),
                 valid_time)


def finish(p, dfs, extra):
  df = pd.concat(dfs)
  df.index = range(len(df))
  ds = df.to_xarray().set_coords(
      list(p.coordinate_variables) + ['valid_time'] + extra)
  if p.split_variables:
    if p.dropna:
      return {k: v.dropna('index') for k, v in dict(ds).items()}
    return dict(ds)
  return ds.dropna('index') if p.dropna else ds


OPTIONS = [
    {'tolerance': None, 'remove_duplicates': False, 'split_variables': False},
    {'tolerance': None, 'remove_duplicates': True, 'rename_variables': None,
     'dropna': False, 'split_variables': True},
    {'remove_duplicates': False, 'split_variables': True,
     'preprocessing_fn': None},
    {'remove_duplicates': True, 'split_variables': False, 'dropna': True,
     'rename_variables': None, 'preprocessing_fn': None},
]


@behaves('SparseObservationsFromParquet._load_chunk_from_source', 'C25 C23',
         opaque=[FILES], each=OPTIONS, args=[{'lead_times': None}])
def without_lead(p, init_times, lead_times):
  """Observations at (around) each init time."""
  return finish(p, [around(p, t) for t in init_times], [])


def labelled(df, init, lead):
  df['init_time'] = init
  df['lead_time'] = lead
  return df


@behaves('SparseObservationsFromParquet._load_chunk_from_source', 'C25 C23',
         opaque=[FILES], each=OPTIONS)
def load(p, init_times, lead_times):
  """Each init and lead time (or interval of lead times) in turn."""
  dfs = []
  if isinstance(lead_times, slice):
    for init in init_times:
      df = cleaned(p, rows(p, init + lead_times.start,
                           init + lead_times.stop), init)
      df['init_time'] = init
      df['lead_time'] = df.valid_time - df.init_time
      dfs.append(df)
  elif lead_times is None:
    return finish(p, [around(p, t) for t in init_times], [])
  else:
    for init in init_times:
      for lead in lead_times:
        dfs.append(labelled(around(p, init + lead), init, lead))
  return finish(p, dfs, ['init_time', 'lead_time'])


COLUMNS = {
    'seaLevelPress': 'mean_sea_level_pressure',
    'temperature': '2m_temperature',
    'dewpoint': '2m_dewpoint_temperature',
    'windSpeed': '10m_wind_speed',
    'windGust': '10m_wind_gust',
    'windDir': '10m_wind_direction',
    'minTemp24Hour': 'min_2m_temperature_24hr',
    'maxTemp24Hour': 'max_2m_temperature_24hr',
    'precip1Hour': 'total_precipitation_1hr',
    'precip3Hour': 'total_precipitation_3hr',
    'precip6Hour': 'total_precipitation_6hr',
    'precip24Hour': 'total_precipitation_24hr',
    'precipRate': 'precipitation_rate',
}


@behaves('METARFromParquet._load_chunk_from_source', 'C25',
         opaque=[FILES], each=[
             {'rename_variables': None, 'preprocessing_fn': None,
              'tolerance': None, 'remove_duplicates': False,
              'split_variables': True, 'dropna': False},
             {'preprocessing_fn': None, 'tolerance': None,
              'remove_duplicates': False, 'split_variables': False,
              'dropna': False},
             {'rename_variables': None, 'remove_duplicates': False,
              'split_variables': False, 'tolerance': None, 'dropna': True},
         ], args=[{'lead_times': None}])
def metar(p, init_times, lead_times):
  """The general loader, after METAR quality control."""
  names = COLUMNS if p.rename_variables is None else p.rename_variables
  back = {new: raw for raw, new in names.items()}
  user_fn = p.preprocessing_fn

  def clean(df):
    if user_fn is not None:
      df = user_fn(df)
    for v in p.variables:
      raw = back.get(v, v)
      bad = np.isin(df[raw + 'DD'], ('Z', 'B', 'X', 'Q', 'k'))
      df[raw] = df[raw].where(~bad, np.nan)
    df['longitude'] = np.mod(df['longitude'], 360)
    df['elevation'] = df['elevation'].where(df['elevation'] < 9999, np.nan)
    return df

  general = sparse_parquet.SparseObservationsFromParquet(
      path=p.path, variables=p.variables, time_dim=p.time_dim,
      coordinate_variables=('latitude', 'longitude', 'elevation',
                            'stationName'),
      observation_dim='stationName', split_variables=p.split_variables,
      dropna=p.dropna, tolerance=p.tolerance, partitioned_by=p.partitioned_by,
      rename_variables=names, include_slice_end_time=p.include_slice_end_time,
      remove_duplicates=p.remove_duplicates,
      pick_closest_duplicate_by=p.pick_closest_duplicate_by,
      file_tolerance=p.file_tolerance, preprocessing_fn=clean)
  return general._load_chunk_from_source(init_times, lead_times)
