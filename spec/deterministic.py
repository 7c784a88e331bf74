"""Deterministic scores."""

from typing import Sequence

import numpy as np
import xarray as xr
import xarray.ufuncs as xu

from .prelude import behaves, metric, mean, climatology_at


@metric('Error', 'C16')
def bias(p, f, o):
  return mean(f - o)


@metric('AbsoluteError', 'C16')
def mae(p, f, o):
  return mean(abs(f - o))


@metric('SquaredError', 'C16')
def mse(p, f, o):
  return mean((f - o) ** 2)


@metric('RMSE', 'C16')
def rmse(p, f, o):
  return np.sqrt(mean((f - o) ** 2))


@metric('PredictionPassthrough', 'C16 C03')
def prediction_average(p, f, o):
  x = f + xr.zeros_like(o)
  return mean(x.where(~np.isnan(o)) if p.copy_nans_from_targets else x)


@metric('TargetPassthrough', 'C16 C03')
def target_average(p, f, o):
  x = o + xr.zeros_like(f)
  return mean(x.where(~np.isnan(f)) if p.copy_nans_from_predictions else x)


_WIND = {'u_name': ['u', 'u2'], 'v_name': ['v', 'v2'],
         'vector_name': ['w', 'w2']}


@metric('WindVectorSquaredError', 'C16',
        each=[{'u_name': ['u', 'u2'], 'v_name': ['v', 'v2'],
               'vector_name': ['w', 'w2']}], names=['u', 'v', 'u2', 'v2', 'x'])
def wind_mse(p, f_u, o_u, f_v, o_v, f_u2, o_u2, f_v2, o_v2):
  return {'w': mean((f_u - o_u) ** 2 + (f_v - o_v) ** 2),
          'w2': mean((f_u2 - o_u2) ** 2 + (f_v2 - o_v2) ** 2)}


@metric('WindVectorRMSE', 'C16',
        each=[{'u_name': ['u', 'u2'], 'v_name': ['v', 'v2'],
               'vector_name': ['w', 'w2']}], names=['u', 'v', 'u2', 'v2', 'x'])
def wind_rmse(p, f_u, o_u, f_v, o_v, f_u2, o_u2, f_v2, o_v2):
  return {'w': np.sqrt(mean((f_u - o_u) ** 2 + (f_v - o_v) ** 2)),
          'w2': np.sqrt(mean((f_u2 - o_u2) ** 2 + (f_v2 - o_v2) ** 2))}


@metric('WindVectorRMSE', 'C16',
        each=[{'u_name': 'u', 'v_name': 'v', 'vector_name': 'w'}],
        names=['u', 'v'])
def wind_rmse_strings(p, f_u, o_u, f_v, o_v):
  return {'w': np.sqrt(mean((f_u - o_u) ** 2 + (f_v - o_v) ** 2))}


@behaves('WindVectorSquaredError.__init__', 'C18', value=False, raises=True)
def wind_lengths(u_name, v_name, vector_name):
  n = len(u_name)
  if n != len(v_name) or n != len(vector_name):
    raise ValueError()


@behaves('WindVectorRMSE.__init__', 'C18', value=False, raises=True)
def wind_lengths_or_single(u_name, v_name, vector_name):
  n = _count(u_name)
  if n != _count(v_name) or n != _count(vector_name):
    raise ValueError()


def _count(x):
  return 1 if isinstance(x, str) else len(x)


def anomaly(p, x, f):
  return x - climatology_at(p.climatology[['v']], f, 'v')


@metric('SquaredPredictionAnomaly', 'C16 C13')
def squared_prediction_anomaly(p, f, o):
  return mean(anomaly(p, f, f) ** 2)


@metric('SquaredTargetAnomaly', 'C16 C13')
def squared_target_anomaly(p, f, o):
  return mean(anomaly(p, o, f) ** 2)


@metric('AnomalyCovariance', 'C16 C13')
def anomaly_covariance(p, f, o):
  return mean(anomaly(p, f, f) * anomaly(p, o, f))


@metric('ACC', 'C16 C13')
def acc(p, f, o):
  return mean(anomaly(p, f, f) * anomaly(p, o, f)) / (
      np.sqrt(mean(anomaly(p, f, f) ** 2)) * np.sqrt(
          mean(anomaly(p, o, f) ** 2)))


@metric('PredictionActivity', 'C16 C13')
def prediction_activity(p, f, o):
  return np.sqrt(mean(anomaly(p, f, f) ** 2))


@metric('RelativeIntensity', 'C16')
def relative_intensity(p, f, o):
  dims = p.spatial_dims
  if 'mask' in o.coords:
    valid = o.mask == 1
    n = valid.sum(dim=dims, skipna=False)
    a = (f.where(valid, 0).sum(dim=dims, skipna=False) / n).where(n > 0, 0.0)
    b = (o.where(valid, 0).sum(dim=dims, skipna=False) / n).where(n > 0, 0.0)
    r = abs((a + 1e-6) / (b + 1e-6) - 1)
    r.coords['mask'] = (n > 0).astype(int)
    return mean(r)
  a = f.mean(dim=dims, skipna=False)
  b = o.mean(dim=dims, skipna=False)
  return mean(abs((a + 1e-6) / (b + 1e-6) - 1))


def exceedance(p, f, o):
  """1 where the absolute error exceeds the threshold, missing where either is."""
  t = p.thresholds
  if isinstance(t, Sequence):
    t = xr.DataArray(t, dims='error_exceedance_thresholds',
                     coords={'error_exceedance_thresholds': t})
  e = abs(f - o)
  if isinstance(t, xr.Dataset):
    t = t[e.name]
  return (e > t).astype(float).where(~np.isnan(e)).where(~np.isnan(t))


@metric('ErrorExceedance', 'C16 C03 C04', each=[{}, {'thresholds': [0.5, 1.5]}])
def error_exceedance(p, f, o):
  return mean(exceedance(p, f, o))


@metric('EnsembleErrorExceedance', 'C17 C03 C04',
        each=[{}, {'thresholds': [0.5, 1.5]}])
def ensemble_error_exceedance(p, f, o):
  return mean(exceedance(p, f, o).mean(dim=p.ensemble_dim, skipna=False))
