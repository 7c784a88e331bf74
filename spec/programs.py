"""The runnable programs: from flags to the experiment (C32)."""

import apache_beam as beam
import copy
import importlib
import os
import numpy as np
from evaluation_scripts import run_example_evaluation as example
from public_benchmark import combine_results as combine
from public_benchmark import run_benchmark_evaluation as bench
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import binning
from weatherbenchX import time_chunks
from weatherbenchX import weighting
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import categorical
from weatherbenchX.metrics import deterministic
from weatherbenchX.metrics import probabilistic
from weatherbenchX.metrics import wrappers
import xarray as xr

from .prelude import behaves

PIPELINE = 'weatherbenchX.beam_pipeline.define_pipeline'


@behaves('evaluation_scripts.run_example_evaluation.main', 'C32',
         opaque=[PIPELINE], effects=[PIPELINE])
def example_main(argv):
  inits = np.arange(example.TIME_START.value, example.TIME_STOP.value,
                    np.timedelta64(example.TIME_FREQUENCY.value, 'h'),
                    dtype='datetime64[ns]')
  leads = np.arange(
      example.LEAD_TIME_START.value, example.LEAD_TIME_STOP.value,
      example.LEAD_TIME_FREQUENCY.value, dtype='timedelta64[h]').astype(
          'timedelta64[ns]')
  levels = {}
  if example.LEVELS.value is not None:
    levels = {'level': [int(x) for x in example.LEVELS.value]}
  with beam.Pipeline(runner=example.RUNNER.value, argv=argv) as root:
    beam_pipeline.define_pipeline(
        root,
        time_chunks.TimeChunks(
            inits, leads, init_time_chunk_size=example.TIME_CHUNK_SIZE.value,
            lead_time_chunk_size=example.LEAD_TIME_CHUNK_SIZE.value),
        xarray_loaders.PredictionsFromXarray(
            path=example.PREDICTION_PATH.value,
            variables=example.VARIABLES.value, sel_kwargs=levels),
        xarray_loaders.TargetsFromXarray(
            path=example.TARGET_PATH.value, variables=example.VARIABLES.value,
            sel_kwargs=levels),
        {'rmse': deterministic.RMSE(), 'mse': deterministic.MSE()},
        aggregation.Aggregator(
            reduce_dims=example.REDUCE_DIMS.value,
            weigh_by=[weighting.GridAreaWeighting()],
            bin_by=[binning.Regions({
                'global': ((-90, 90), (0, 360)),
                'northern-hemisphere': ((20, 90), (0, 360))})]),
        out_path=example.OUTPUT_PATH.value,
        aggregation_state_out_path=example.AGGREGATION_STATE_OUTPUT_PATH.value)


@behaves('public_benchmark.public_configs.select_first_member', 'C32')
def first_member(ds):
  for d in ['number', 'sample', 'member', 'realization']:
    if d in ds.dims:
      return ds.isel({d: 0})
  raise ValueError


@behaves('public_benchmark.combine_results._rename_region', 'C32')
def region_name(region):
  if region.endswith('_land'):
    return combine.REGION_NAMES[region.split('_land')[0]] + ' (Land)'
  return combine.REGION_NAMES[region]


@behaves('public_benchmark.combine_results.process_results', 'C32',
         opaque=['public_benchmark.combine_results.open_nc',
                 'public_benchmark.combine_results._rename_region'])
def combined(model, year, resolution):
  """metric.variable fields -> one field per variable along `metric`."""
  try:
    ds = combine.open_nc(os.path.join(
        combine.INPUT_DIR.value, f'{model}_{resolution}_{year}.nc'))
  except FileNotFoundError:
    return None
  if hasattr(ds, 'lead_time_secs'):
    ds = ds.drop_vars('lead_time_secs')
  if 'vector_rmse.wind' in ds:
    ds = ds.rename({'vector_rmse.wind': 'rmse.wind_vector'})
  if 'vector_rmse.10m_wind' in ds:
    ds = ds.rename({'vector_rmse.10m_wind': 'rmse.10m_wind_vector'})
  both = list(ds.data_vars)
  per = {}
  for v in np.unique([x.split('.')[1] for x in both]):
    ms = [x.split('.')[0] for x in both if x.endswith('.' + v)]
    per[v] = xr.concat([ds[f'{m}.{v}'] for m in ms],
                       dim=xr.DataArray(ms, dims=['metric']))
  ds = xr.Dataset(per)
  ds = ds.rename({k: v for k, v in combine.VARIABLE_NAMES.items() if k in ds})
  if combine.MODE.value == 'deterministic':
    names = combine.DETERMINISTIC_METRIC_NAMES
  else:
    names = combine.PROBABILISTIC_METRIC_NAMES
  ds = ds.assign_coords(metric=[names[m] for m in ds.metric.values])
  return ds.assign_coords(
      region=[combine._rename_region(r) for r in ds.region.values])


@behaves('public_benchmark.combine_results.main', 'C32', effects=['to_zarr'],
         opaque=['public_benchmark.combine_results.process_results'])
def combine_main(_):
  deterministic_mode = combine.MODE.value == 'deterministic'
  models = (combine.DETERMINISTIC_MODELS if deterministic_mode
            else combine.PROBABILISTIC_MODELS)
  out = xr.Dataset()
  for model in models:
    for year in combine.YEARS:
      for resolution in combine.RESOLUTIONS:
        ds = combine.process_results(model, year, resolution)
        if ds is not None:
          out = xr.merge([out, ds.expand_dims(
              model=[models[model]], resolution=[resolution],
              year=[str(year)])])
  out.coords['lead_time_h'] = out.lead_time.values.astype(
      'timedelta64[h]').astype('int')
  out = out.chunk({'model': -1, 'resolution': 1, 'year': 1, 'metric': -1,
                   'region': 1, 'level': -1, 'lead_time': -1})
  out.to_zarr(os.path.join(
      combine.OUTPUT_DIR.value,
      'deterministic.zarr' if deterministic_mode else 'probabilistic.zarr'))


@behaves('public_benchmark.run_benchmark_evaluation.main', 'C32', raises=True, own=True,
         opaque=[PIPELINE], effects=[PIPELINE])
def bench_main(argv):
  configs = importlib.import_module(bench.CONFIG.value)
  what, res = bench.PREDICTION.value, bench.RESOLUTION.value
  year = bench.YEAR.value
  era5 = configs.target_configs[f'era5_{res}']
  name = f'{what}_{res}_{year}'
  ensemble = False
  if what == 'persistence':
    config = era5
  elif what == 'probabilistic_climatology':
    config = era5
    ensemble = True
  elif what == 'climatology':
    config = configs.climatology_configs[f'era5_{res}_{year}']
  elif name in configs.deterministic_prediction_configs:
    config = configs.deterministic_prediction_configs[name]
  else:
    config = configs.probabilistic_prediction_configs[name]
    ensemble = True
  truth = configs.target_configs[f'{bench.TARGET.value}_{res}']
  variables = np.intersect1d(config['variables'], truth['variables'])
  precip = [v for v in variables if v.startswith('total_precipitation')]
  levels = {'level': config['levels'] if 'levels' in config
            else [500, 700, 850]}
  options = (config['data_loader_kwargs'] if 'data_loader_kwargs' in config
             else {})
  if what == 'persistence':
    loader = xarray_loaders.PersistenceFromXarray
  elif what == 'climatology':
    loader = xarray_loaders.ClimatologyFromXarray
  elif what == 'probabilistic_climatology':
    loader = xarray_loaders.ProbabilisticClimatologyFromXarray
    options['start_year'] = 1990
    options['end_year'] = 2019
  else:
    loader = xarray_loaders.PredictionsFromXarray
  predictions = loader(path=config['path'], variables=variables,
                       sel_kwargs=levels, **options)
  targets = xarray_loaders.TargetsFromXarray(
      path=truth['path'], variables=variables, sel_kwargs=levels,
      preprocessing_fn=lambda ds: ds.sortby('latitude'))

  first, last = bench.INIT_TIME_START.value, bench.INIT_TIME_STOP.value
  if (first is None) != (last is None):
    raise ValueError
  if first is None:
    first = f'{year}-01-01T00'
    if year == '2022' or what in ['fuxi', 'excarta']:
      last = f'{year}-12-16T00'
      if what == 'aurora':
        first = f'{year}-01-01T12'
    elif year == '2020' and what == 'baguan':
      last = f'{year}-12-30T12'
    else:
      last = f'{int(year) + 1}-01-01T00'
    period = str(year)
  else:
    period = f'{first}_{last}'
  every = bench.INIT_TIME_FREQUENCY.value
  if every is None:
    every = 24 if what == 'excarta' else 12
  inits = np.arange(first, last, np.timedelta64(every, 'h'),
                    dtype='datetime64')
  lead_first, lead_last = bench.LEAD_TIME_START.value, bench.LEAD_TIME_STOP.value
  if (lead_first is None) != (lead_last is None):
    raise ValueError
  if lead_first is not None:
    leads = np.arange(lead_first, lead_last, bench.LEAD_TIME_FREQUENCY.value,
                      dtype='timedelta64[h]')
  elif what in ['persistence', 'climatology', 'probabilistic_climatology']:
    leads = np.arange(0, 366, 6, dtype='timedelta64[h]')
  else:
    probe = copy.copy(predictions)
    probe.maybe_prepare_dataset()
    leads = probe._ds.lead_time.values

  climatology = xr.open_zarr(configs.climatology_configs[
      f'era5_{res}_{year}']['path']).sortby('latitude')
  if ensemble:
    metrics = {
        'crps': probabilistic.CRPSEnsemble(),
        'unbiased_spread_skill': probabilistic.UnbiasedSpreadSkillRatio(),
        'unbiased_mean_rmse': probabilistic.UnbiasedEnsembleMeanRMSE(),
        'mean_rmse': wrappers.WrappedMetric(
            deterministic.RMSE(),
            [wrappers.EnsembleMean(which='predictions')]),
    }
  else:
    metrics = {
        'rmse': deterministic.RMSE(), 'mse': deterministic.MSE(),
        'bias': deterministic.Bias(),
        'acc': deterministic.ACC(climatology=climatology),
        'prediction_activity': deterministic.PredictionActivity(
            climatology=climatology),
    }
    us, vs, ws = [], [], []
    if ('u_component_of_wind' in variables
        and 'v_component_of_wind' in variables):
      us.append('u_component_of_wind')
      vs.append('v_component_of_wind')
      ws.append('wind')
    if ('10m_u_component_of_wind' in variables
        and '10m_v_component_of_wind' in variables):
      us.append('10m_u_component_of_wind')
      vs.append('10m_v_component_of_wind')
      ws.append('10m_wind')
    if us:
      metrics['vector_rmse'] = deterministic.WindVectorRMSE(us, vs, ws)
    if precip:
      dry = {'total_precipitation_6hr': 0.1, 'total_precipitation_24hr': 0.25}
      metrics['seeps'] = categorical.SEEPS(
          variables=precip, climatology=climatology,
          dry_threshold_mm=[dry[v] for v in precip])

  land = xr.open_zarr(era5['path'])['land_sea_mask'].compute()
  reduce_dims = ['latitude', 'longitude']
  if not bench.TEMPORAL.value:
    reduce_dims = ['init_time', 'latitude', 'longitude']
  out = f'{what}_vs_{bench.TARGET.value}_{res}_{period}'
  if bench.TEMPORAL.value:
    out = f'{out}_temporal'
  with beam.Pipeline(runner=bench.RUNNER.value, argv=argv) as root:
    beam_pipeline.define_pipeline(
        root,
        time_chunks.TimeChunks(
            inits, leads,
            init_time_chunk_size=bench.INIT_TIME_CHUNK_SIZE.value,
            lead_time_chunk_size=bench.LEAD_TIME_CHUNK_SIZE.value),
        predictions, targets, metrics,
        aggregation.Aggregator(
            reduce_dims=reduce_dims,
            weigh_by=[weighting.GridAreaWeighting()],
            bin_by=[binning.Regions(bench.REGIONS, land_sea_mask=land)],
            masked=True, skipna=what == 'keisler'),
        out_path=os.path.join(bench.OUTPUT_DIR.value, f'{out}.nc'))
