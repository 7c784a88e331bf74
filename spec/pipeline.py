"""The Beam pipelines (C10), what they write (C09, C19)."""

import apache_beam as beam
import numpy as np
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import beam_utils
from weatherbenchX.metrics import base as metrics_base
import xarray as xr
import xarray_beam as xbeam

from .prelude import behaves


@behaves('LoadPredictionsAndTargets.process', 'C10')
def load(p, all_inputs):
  """Targets first; predictions are loaded with the targets as reference."""
  offsets, (init_times, lead_times) = all_inputs
  targets = p.targets_loader.load_chunk(init_times, lead_times)
  predictions = p.predictions_loader.load_chunk(init_times, lead_times, targets)
  return [(offsets, (predictions, targets))]


@behaves('ComputeStatisticsAggregateAndPrepareForCombine.process', 'C10 C02', opaque=[
    'weatherbenchX.metrics.base.generate_unique_statistics_for_all_metrics',
    'weatherbenchX.aggregation.Aggregator.aggregate_stat_var'])
def statistics(p, all_inputs):
  offsets, (predictions, targets) = all_inputs
  for name, stats in metrics_base.generate_unique_statistics_for_all_metrics(
      p.metrics, predictions, targets):
    for var, stat in stats.items():
      state = p.aggregator.aggregate_stat_var(stat)
      if state is not None:
        dims = state.sum_weighted_statistics.dims
        at = dict(
            statistic_name=name, variable_name=str(var),
            init_time_offset=offsets.init_time if 'init_time' in dims else None,
            lead_time_offset=offsets.lead_time if 'lead_time' in dims else None)
        yield (beam_pipeline._AggregationKey(type='sum_weighted_statistics',
                                             **at),
               state.sum_weighted_statistics)
        yield (beam_pipeline._AggregationKey(type='sum_weights', **at),
               state.sum_weights)


@behaves('_AggregationKey.drop_offsets', 'C10')
def drop_offsets(self):
  return beam_pipeline._AggregationKey(
      self.type, self.statistic_name, self.variable_name, None, None)


@behaves('CombiningSum.create_accumulator', 'C10 C01')
def create_accumulator():
  return None


@behaves('CombiningSum.add_input', 'C10 C01',
         opaque=['weatherbenchX.aggregation.combining_sum'])
def add_input(accumulator, element):
  return element if accumulator is None else aggregation.combining_sum(
      [accumulator, element])


@behaves('CombiningSum.merge_accumulators', 'C10 C01',
         opaque=['weatherbenchX.aggregation.combining_sum'])
def merge_accumulators(accumulators):
  some = [a for a in accumulators if a is not None]
  return aggregation.combining_sum(some) if some else None


@behaves('CombiningSum.extract_output', 'C10 C01')
def extract_output(accumulator):
  return accumulator


@behaves('weatherbenchX.beam_utils.GroupAll.expand', 'C10')
def group_all(pcoll):
  return (pcoll | beam.Map(lambda x: (None, x)) | beam.GroupByKey()
          | beam.Values())


def join_chunks(key, arrays):
  """Chunks of one quantity side by side; cells absent from a chunk are 0."""
  arrays = xr.align(*arrays, join='outer', fill_value=0,
                    exclude=['init_time', 'lead_time'])
  arrays = [a.rename(None) for a in arrays if a.size > 0]
  if not arrays:
    return key, xr.DataArray()
  common = set.intersection(*[set(a.coords) - set(a.dims) for a in arrays])
  return key, xr.combine_by_coords([
      a.drop_vars([c for c in set(a.coords) - set(a.dims) if c not in common])
      for a in arrays])


@behaves('ConcatPerStatisticPerVariable.expand', 'C10 C02')
def concat(pcoll):
  return (pcoll
          | beam.MapTuple(lambda key, x: (beam_pipeline._AggregationKey(
              key.type, key.statistic_name, key.variable_name, None, None), x))
          | beam.GroupByKey()
          | beam.MapTuple(join_chunks))


@behaves('weatherbenchX.beam_pipeline.reconstruct_aggregation_state', 'C10 C02')
def reconstruct(key_value_pairs):
  sums, weights = {}, {}
  for key, value in key_value_pairs:
    if key.type == 'sum_weighted_statistics':
      sums.setdefault(key.statistic_name, {})[key.variable_name] = value
    elif key.type == 'sum_weights':
      weights.setdefault(key.statistic_name, {})[key.variable_name] = value
    else:
      raise AssertionError
  return aggregation.AggregationState(sums, weights)


@behaves('ReconstructAggregationState.expand', 'C10', opaque=[
    'weatherbenchX.beam_pipeline.reconstruct_aggregation_state'])
def reconstruct_all(pcoll):
  return pcoll | beam_utils.GroupAll() | beam.Map(
      beam_pipeline.reconstruct_aggregation_state)


@behaves('ComputeMetrics.process', 'C10',
         opaque=['weatherbenchX.aggregation.AggregationState.metric_values'])
def compute_metrics(p, aggregation_state):
  return [aggregation_state.metric_values(p.metrics)]


@behaves('WriteMetrics.process', 'C09 C10',
         opaque=['weatherbenchX.beam_utils.atomic_write'],
         effects=['weatherbenchX.beam_utils.atomic_write', 'to_netcdf',
                  'to_zarr', 'builtins.open', 'open', 'write', 'mv'])
def write_metrics(p, metrics):
  """The whole data set, through the atomic writer, at the requested path."""
  beam_utils.atomic_write(p.out_path,
                          metrics.drop_attrs(deep=True).to_netcdf())
  return []


@behaves('WriteAggregationState.process', 'C09 C10 C19',
         opaque=['weatherbenchX.beam_utils.atomic_write',
                 'weatherbenchX.aggregation.AggregationState.to_dataset'],
         effects=['weatherbenchX.beam_utils.atomic_write', 'to_netcdf',
                  'to_zarr', 'builtins.open', 'open', 'write', 'mv'])
def write_state(p, aggregation_state):
  beam_utils.atomic_write(
      p.out_path,
      aggregation_state.to_dataset().drop_attrs(deep=True).to_netcdf())
  return []


@behaves('weatherbenchX.beam_pipeline.define_pipeline', 'C10 C18 C23',
         effects=['pipe'], raises=True,
         opaque=['weatherbenchX.time_chunks.TimeChunks.iter_with_chunk_offsets'])
def pipeline(root, times, predictions_loader, targets_loader, metrics,
             aggregator, out_path, aggregation_state_out_path, setup_fn):
  if out_path is None and aggregation_state_out_path is None:
    raise ValueError
  state = (
      root
      | beam.Create(times.iter_with_chunk_offsets())
      | beam.ParDo(beam_pipeline.LoadPredictionsAndTargets(
          predictions_loader, targets_loader, setup_fn))
      | beam.ParDo(beam_pipeline.ComputeStatisticsAggregateAndPrepareForCombine(
          metrics, aggregator))
      | beam.CombinePerKey(beam_utils.CombiningSum())
      | beam_pipeline.ConcatPerStatisticPerVariable()
      | beam_pipeline.ReconstructAggregationState())
  if out_path is not None:
    state | beam.ParDo(beam_pipeline.ComputeMetrics(metrics)) | beam.ParDo(
        beam_pipeline.WriteMetrics(out_path))
  if aggregation_state_out_path is not None:
    state | beam.ParDo(beam_pipeline.WriteAggregationState(
        aggregation_state_out_path))


@behaves('ComputeAndFormatStatistics.process', 'C10', opaque=[
    'weatherbenchX.metrics.base.compute_unique_statistics_for_all_metrics'])
def format_statistics(p, element):
  offsets, (predictions, targets) = element
  for s, values in metrics_base.compute_unique_statistics_for_all_metrics(
      p.metrics, predictions, targets).items():
    for v, x in values.items():
      name = f'{s}.{v}'
      ds = xr.Dataset({name: x})
      times = []
      at = {}
      if 'init_time' in ds.dims:
        times.append('init_time')
        at['init_time'] = offsets.init_time
      if 'lead_time' in ds.dims:
        times.append('lead_time')
        at['lead_time'] = offsets.lead_time
      yield xbeam.Key(at, vars={name}), ds.transpose(*times, ...)


@behaves('weatherbenchX.beam_pipeline.define_unaggregated_pipeline', 'C10 C23',
         effects=['pipe'],
         opaque=['weatherbenchX.time_chunks.TimeChunks.iter_with_chunk_offsets',
                 'weatherbenchX.beam_pipeline._get_template_dataset'])
def unaggregated(root, times, predictions_loader, targets_loader, metrics,
                 out_path, zarr_chunks, setup_fn):
  template = beam_pipeline._get_template_dataset(
      metrics, predictions_loader, targets_loader, times, setup_fn)
  sizes = template.sizes
  chunks = {}
  for d, n in sizes.items():
    if d == 'init_time':
      chunks[d] = times.init_time_chunk_size or -1
    elif d == 'lead_time':
      chunks[d] = times.lead_time_chunk_size or -1
    else:
      chunks[d] = n
  out = {**chunks, **({} if zarr_chunks is None else zarr_chunks)}
  root | beam.Create(times.iter_with_chunk_offsets()) | beam.ParDo(
      beam_pipeline.LoadPredictionsAndTargets(
          predictions_loader, targets_loader, setup_fn)) | beam.ParDo(
              beam_pipeline.ComputeAndFormatStatistics(metrics, times)
          ) | xbeam.Rechunk(sizes, chunks, out, itemsize=4) | xbeam.ChunksToZarr(
              out_path, template=template, zarr_chunks=out)


@behaves('LoadPredictionsAndTargets.setup', 'C10', effects=['setup_fn'])
def worker_setup(p):
  if p.setup_fn is not None:
    p.setup_fn()


@behaves('weatherbenchX.beam_pipeline._get_template_dataset', 'C10 C18',
         raises=True, effects=['setup_fn'], opaque=[
    'weatherbenchX.metrics.base.compute_unique_statistics_for_all_metrics'])
def template_dataset(metrics, predictions_loader, targets_loader, times,
                     setup_fn):
  if setup_fn is not None:
    setup_fn()
  try:
    inits, leads = times[0]
  except IndexError:
    raise ValueError
  targets = targets_loader.load_chunk(inits, leads)
  predictions = predictions_loader.load_chunk(inits, leads, targets)
  first = xr.Dataset()
  for s, values in metrics_base.compute_unique_statistics_for_all_metrics(
      metrics, predictions, targets).items():
    for v, x in values.items():
      first[f'{s}.{v}'] = x
  t = xbeam.make_template(first)
  if 'mask' in t.coords:
    raise ValueError
  if 'lead_time' in t.dims:
    names = [k for k, v in t.items() if 'lead_time' in v.dims]
    t = t.isel(lead_time=0, drop=True)
    leads = times.lead_times
    if isinstance(leads, slice):
      leads = np.arange(leads.start, leads.stop + leads.step, leads.step)
    for k in names:
      t[k] = t[k].expand_dims(lead_time=leads)
  if 'init_time' in t.dims:
    names = [k for k, v in t.items() if 'init_time' in v.dims]
    t = t.isel(init_time=0, drop=True)
    for k in names:
      t[k] = t[k].expand_dims(init_time=times.init_times)
  if 'init_time' in t.dims and 'lead_time' in t.dims:
    t.coords['valid_time'] = t.init_time + t.lead_time
  return t
