"""Categorical scores (docstrings of the metrics, standard contingency table)."""

import numpy as np
import xarray as xr

from .prelude import behaves, metric, mean, climatology_at
from .wrappers import bins


def _indicator(x, f, o):
  return x.where(~np.isnan(f * o)).astype(np.float32)


def tp(f, o):
  return _indicator(f.astype(bool) * o.astype(bool), f, o)


def fp(f, o):
  return _indicator(f.astype(bool) * ~o.astype(bool), f, o)


def fn(f, o):
  return _indicator(~f.astype(bool) * o.astype(bool), f, o)


def tn(f, o):
  return _indicator(~f.astype(bool) * ~o.astype(bool), f, o)


@metric('TruePositives', 'C15')
def true_positives(p, f, o):
  return mean(tp(f, o))


@metric('FalsePositives', 'C15')
def false_positives(p, f, o):
  return mean(fp(f, o))


@metric('FalseNegatives', 'C15')
def false_negatives(p, f, o):
  return mean(fn(f, o))


@metric('TrueNegatives', 'C15')
def true_negatives(p, f, o):
  return mean(tn(f, o))


@metric('CSI', 'C15')
def csi(p, f, o):
  a, b, c = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o))
  return a / (a + b + c)


@metric('Accuracy', 'C15')
def accuracy(p, f, o):
  a, b, c, d = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o)), mean(tn(f, o))
  return (a + d) / (a + b + c + d)


@metric('Recall', 'C15')
def recall(p, f, o):
  a, c = mean(tp(f, o)), mean(fn(f, o))
  return a / (a + c)


@metric('FalseAlarmRate', 'C15')
def false_alarm_rate(p, f, o):
  a, b = mean(tp(f, o)), mean(fp(f, o))
  return b / (a + b)


@metric('Precision', 'C15')
def precision(p, f, o):
  a, b = mean(tp(f, o)), mean(fp(f, o))
  return a / (a + b)


@metric('F1Score', 'C15')
def f1(p, f, o):
  a, b, c = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o))
  return 2 * a / (2 * a + b + c)


@metric('FrequencyBias', 'C15')
def frequency_bias(p, f, o):
  a, b, c = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o))
  return (a + b) / (a + c)


@metric('HSS', 'C15')
def hss(p, f, o):
  a, b, c, d = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o)), mean(tn(f, o))
  return 2 * (a * d - b * c) / ((a + c) * (c + d) + (a + b) * (b + d))


@metric('ETS', 'C15')
def ets(p, f, o):
  a, b, c, d = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o)), mean(tn(f, o))
  r = (a + b) * (a + c) / (a + b + c + d)
  return (a - r) / (a + b + c - r)


@metric('SEDI', 'C15')
def sedi(p, f, o):
  a, b, c, d = mean(tp(f, o)), mean(fp(f, o)), mean(fn(f, o)), mean(tn(f, o))
  h = (a / (a + c)).clip(1e-6, 1 - 1e-6)
  q = (b / (b + d)).clip(1e-6, 1 - 1e-6)
  return (np.log(q) - np.log(h) + np.log(1 - h) - np.log(1 - q)) / (
      np.log(h) + np.log(q) + np.log(1 - h) + np.log(1 - q))


@metric('RankedProbabilityScore', 'C15 C17 C03')
def rps(p, f, o):
  return mean(((f - o) ** 2).sum(p.bin_dim, skipna=False))


def seeps_categories(x, dry, wet):
  """Dry, light, heavy indicators along seeps_cat; missing where x is."""
  c = xr.concat([x <= dry, np.logical_and(x > dry, x < wet), x >= wet],
                dim=xr.DataArray(['dry', 'light', 'heavy'], dims=['seeps_cat']))
  return c.where(x.notnull())


@metric('SEEPS', 'C15 C13',
        each=[{'variables': ['v'], 'dry_threshold_mm': 0.3, 'min_p1': 0.2,
               'max_p1': 0.8},
              {'variables': ['v'], 'dry_threshold_mm': [0.3], 'min_p1': [0.2],
               'max_p1': [0.8]}])
def seeps(p, f, o):
  return mean(seeps_score(p, f, o, 'v', 0.3, 0.2, 0.8))


def seeps_score(p, f, o, name, dry_mm, low, high):
  """Rodwell et al. (2010); rows of the matrix are forecast categories."""
  t = f.init_time + f.lead_time
  wet = p.climatology[f'{name}_seeps_threshold'].sel(
      dayofyear=t.dt.dayofyear, hour=t.dt.hour).load()
  cf = seeps_categories(f, dry_mm / 1000.0, wet).rename(
      {'seeps_cat': 'forecast_cat'})
  co = seeps_categories(o, dry_mm / 1000.0, wet).rename({'seeps_cat': 'truth_cat'})
  table = cf * co
  p1 = p.climatology[f'{name}_seeps_dry_fraction'].mean(('hour', 'dayofyear'))
  zero = xr.zeros_like(p1)
  rows = [
      [zero, 1 / (1 - p1), 4 / (1 - p1)],
      [1 / p1, zero, 3 / (1 - p1)],
      [1 / p1 + 3 / (2 + p1), 3 / (2 + p1), zero],
  ]
  m = xr.concat([xr.concat(r, dim=table.truth_cat) for r in rows],
                dim=table.forecast_cat)
  s = xr.dot(table, 0.5 * m, dims=('forecast_cat', 'truth_cat'))
  usable = (p1 >= low) & (p1 <= high)
  s = s.where(usable, np.nan)
  mask = usable
  if hasattr(f, 'mask'):
    if hasattr(o, 'mask'):
      raise ValueError()
    mask = usable & f.mask
  elif hasattr(o, 'mask'):
    mask = usable & o.mask
  s.coords['mask'] = mask
  return s


def _width(x, bounds, dim):
  low, high = bounds
  return x.quantile(high, dim=dim, skipna=False) - x.quantile(
      low, dim=dim, skipna=False)


def confident(p, f, bounds, threshold):
  c = climatology_at(p.climatology, f, 'v')
  low, high = bounds
  s = _width(f, bounds, p.ensemble_dim)
  limit = threshold * (c.sel(quantile=high) - c.sel(quantile=low))
  return mean((s < limit).where(~np.isnan(s - limit)).astype(np.float32))


def covered(p, f, o, bounds):
  low, high = bounds
  a = f.quantile(low, dim=p.ensemble_dim, skipna=False)
  b = f.quantile(high, dim=p.ensemble_dim, skipna=False)
  return mean(((a <= o) & (o <= b)).where(~np.isnan(a + b + o)).astype(
      np.float32))


def jaccard_distant(p, f, bounds, threshold):
  """1 - |A n B| / |A u B| of the two intervals exceeds the threshold."""
  c = climatology_at(p.climatology, f, 'v')
  low, high = bounds
  a = f.quantile(low, dim=p.ensemble_dim, skipna=False)
  b = f.quantile(high, dim=p.ensemble_dim, skipna=False)
  x, y = c.sel(quantile=low), c.sel(quantile=high)
  common = np.maximum(0, np.minimum(b, y) - np.maximum(a, x))
  union = (b - a) + (y - x) - common
  index = xr.where(union > 0, common / union, 1.0)
  return mean(((1 - index) > threshold).where(~np.isnan(union)).astype(
      np.float32))


@metric('Confident', 'C15 C03 C04')
def confident_metric(p, f, o):
  return confident(p, f, p.spread_quantile_boundaries, p.confidence_threshold)


@metric('Covered', 'C15 C03 C04')
def covered_metric(p, f, o):
  return covered(p, f, o, p.interval_quantile_boundaries)


@metric('JaccardDistant', 'C15 C03 C04')
def jaccard_metric(p, f, o):
  return jaccard_distant(p, f, p.interval_quantile_boundaries, p.threshold)


@metric('Opportunism', 'C15 C06',
        each=[{'is_covered': None, 'is_jaccard_distant': None},
              {'is_covered': True, 'is_jaccard_distant': None},
              {'is_covered': False, 'is_jaccard_distant': None},
              {'is_covered': None, 'is_jaccard_distant': True},
              {'is_covered': None, 'is_jaccard_distant': False},
              {'is_covered': True, 'is_jaccard_distant': False},
              {'is_covered': False, 'is_jaccard_distant': True}])
def opportunism(p, f, o):
  """Product of the fractions (or of their complements)."""
  c = confident(p, f, p.confidence_quantile_boundaries, p.confidence_threshold)
  r = c if p.is_confident else 1 - c
  if p.is_covered is not None:
    c = covered(p, f, o, p.coverage_quantile_boundaries)
    r = r * (c if p.is_covered else 1 - c)
  if p.is_jaccard_distant is not None:
    c = jaccard_distant(p, f, p.jaccard_distance_quantile_boundaries,
                        p.jaccard_distance_threshold)
    r = r * (c if p.is_jaccard_distant else 1 - c)
  return r


RELIABILITY_BINS = (-np.inf, .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.)


@metric('Reliability', 'C15',
        opaque=['weatherbenchX.metrics.wrappers.select_bin_thresholds_by_time_from_chunk'])
def reliability(p, f, o):
  """Observed frequency among forecasts in each probability bin."""
  b = bins(f, p.bin_values, p.bin_dim, True)
  a, c = mean(tp(b, o)), mean(fp(b, o))
  return a / (a + c)


@metric('Reliability', 'C15 C23', each=[{'__defaults__': True}])
def reliability_defaults(p, f, o):
  b = bins(f, RELIABILITY_BINS, 'reliability_bin', True)
  a, c = mean(tp(b, o)), mean(fp(b, o))
  return a / (a + c)


@metric('SEEPS', 'C15 C23',
        each=[{'__defaults__': True, 'variables': ['v', 'w']}],
        names=['v', 'w'])
def seeps_defaults(p, f_v, f_w, o_v, o_w):
  return {'v': mean(seeps_score(p, f_v, o_v, 'v', 0.25, 0.1, 0.85)),
          'w': mean(seeps_score(p, f_w, o_w, 'w', 0.25, 0.1, 0.85))}
