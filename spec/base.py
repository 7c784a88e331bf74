"""Sharing of statistics between metrics; time chunks."""

import itertools

import numpy as np
from weatherbenchX import time_chunks
from weatherbenchX.metrics import base

from .prelude import behaves


# --- statistics and metrics (C06) ----------------------------------------------


@behaves('Statistic.statistics', 'C06')
def own_statistics(self):
  return {'self': self}


@behaves('Statistic.values_from_mean_statistics', 'C06')
def own_values(self, statistic_values):
  return statistic_values['self']


@behaves('PerVariableStatistic.compute', 'C06 C18',
         opaque=['_compute_per_variable'])
def per_variable_statistic(self, predictions, targets):
  out = {}
  for v in predictions.keys():
    if v in targets.keys():
      x = self._compute_per_variable(predictions[v], targets[v])
      if x is not None:
        out[v] = x
  return out


@behaves('PerVariableMetric.values_from_mean_statistics', 'C06 C18',
         opaque=['_values_from_mean_statistics_per_variable'])
def per_variable_metric(self, statistic_values):
  common = set.intersection(*[set(statistic_values[s])
                              for s in self.statistics])
  return {
      v: self._values_from_mean_statistics_per_variable(
          {s: statistic_values[s][v] for s in self.statistics})
      for v in common}


@behaves('generate_unique_statistics_for_all_metrics', 'C05 C06 C18')
def unique_statistics(metrics, predictions, targets):
  unique = {}
  for m in metrics.values():
    for s in m.statistics.values():
      unique[s.unique_name] = s
  for k, s in unique.items():
    yield k, s.compute(predictions, targets)


@behaves('compute_unique_statistics_for_all_metrics', 'C06 C10',
         opaque=['weatherbenchX.metrics.base.generate_unique_statistics_for_all_metrics'])
def all_unique_statistics(metrics, predictions, targets):
  return dict(base.generate_unique_statistics_for_all_metrics(
      metrics, predictions, targets))


@behaves('compute_metric_from_statistics', 'C05 C06')
def metric_from_statistics(metric, statistic_values):
  return metric.values_from_mean_statistics(
      {k: statistic_values[s.unique_name]
       for k, s in metric.statistics.items()})


@behaves('compute_metrics_from_statistics', 'C06 C10',
         opaque=['weatherbenchX.metrics.base.compute_metric_from_statistics'])
def metrics_from_statistics(metrics, statistic_values):
  return {n: base.compute_metric_from_statistics(m, statistic_values)
          for n, m in metrics.items()}


# --- time chunks (C08) -------------------------------------------------------------


def _size(chunk_size, times):
  return chunk_size if chunk_size else len(times)


def _blocks(times, size):
  return [times[i:i + size] for i in range(0, len(times), size)]


def _parts(p):
  """(init blocks, lead blocks, init block size, lead block size)."""
  inits = p.init_times.astype('datetime64[ns]')
  n = _size(p.init_time_chunk_size, inits)
  if isinstance(p.lead_times, slice):
    return _blocks(inits, n), [p.lead_times], n, 0
  leads = p.lead_times.astype('timedelta64[ns]')
  m = _size(p.lead_time_chunk_size, leads)
  return _blocks(inits, n), _blocks(leads, m), n, m


@behaves('TimeChunks.__init__', 'C08 C18', value=False, raises=True)
def reject(init_times, lead_times, init_time_chunk_size, lead_time_chunk_size):
  if init_time_chunk_size is not None and init_time_chunk_size < 0:
    raise ValueError()
  if lead_time_chunk_size is not None and lead_time_chunk_size < 0:
    raise ValueError()
  if isinstance(lead_times, slice):
    if lead_times.start is None or lead_times.stop is None:
      raise ValueError()
    if lead_times.step is not None:
      raise ValueError()
    if lead_time_chunk_size:
      raise ValueError()
  elif not isinstance(lead_times, np.ndarray):
    raise ValueError()


@behaves('TimeChunks.__iter__', 'C08')
def chunks(p):
  inits, leads, _, _ = _parts(p)
  return itertools.product(inits, leads)


@behaves('TimeChunks.__len__', 'C08')
def number_of_chunks(p):
  inits, leads, _, _ = _parts(p)
  return len(inits) * len(leads)


@behaves('TimeChunks.__getitem__', 'C08 C18', raises=True)
def chunk(p, index):
  inits, leads, _, _ = _parts(p)
  if index < 0 or index >= len(inits) * len(leads):
    raise IndexError()
  return inits[index // len(leads)], leads[index % len(leads)]


@behaves('TimeChunks.iter_with_chunk_offsets', 'C08 C10')
def offsets(p):
  inits, leads, n, m = _parts(p)
  for i, (a, b) in enumerate(itertools.product(inits, leads)):
    yield time_chunks.TimeChunkOffsets(
        init_time=n * (i // len(leads)), lead_time=m * (i % len(leads))), (a, b)


@behaves('TimeChunks.init_times', 'C08')
def init_times(p):
  return p.init_times.astype('datetime64[ns]')


@behaves('TimeChunks.lead_times', 'C08')
def lead_times(p):
  if isinstance(p.lead_times, slice):
    return p.lead_times
  return p.lead_times.astype('timedelta64[ns]')


@behaves('TimeChunks.init_time_chunk_size', 'C08')
def init_time_chunk_size(p):
  return _size(p.init_time_chunk_size, p.init_times.astype('datetime64[ns]'))
