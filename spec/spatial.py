"""Neighbourhood scores."""

import numpy as np
import xarray as xr
from scipy import ndimage

from .prelude import behaves, metric, mean


def fraction(x, p):
  from weatherbenchX.metrics import spatial
  return spatial.neighborhood_averaging(
      x, p.neighborhood_size_in_pixels, p.wrap_longitude)


NB = 'weatherbenchX.metrics.spatial.neighborhood_averaging'


@metric('SquaredFractionsError', 'C16', opaque=['weatherbenchX.metrics.spatial.neighborhood_averaging'])
def sfe(p, f, o):
  return mean((fraction(f, p) - fraction(o, p)) ** 2)


@metric('SquaredPredictionFraction', 'C16', opaque=['weatherbenchX.metrics.spatial.neighborhood_averaging'])
def spf(p, f, o):
  return mean(fraction(f, p) ** 2 + xr.zeros_like(o))


@metric('SquaredTargetFraction', 'C16', opaque=['weatherbenchX.metrics.spatial.neighborhood_averaging'])
def stf(p, f, o):
  return mean(fraction(o, p) ** 2 + xr.zeros_like(f))


@metric('FSS', 'C16', opaque=['weatherbenchX.metrics.spatial.neighborhood_averaging'])
def fss(p, f, o):
  return 1 - mean((fraction(f, p) - fraction(o, p)) ** 2) / (
      mean(fraction(f, p) ** 2 + xr.zeros_like(o))
      + mean(fraction(o, p) ** 2 + xr.zeros_like(f)))


@behaves('convolve2d_wrap_longitude', 'C16', raises=True)
def window_average(x, neighborhood_size, wrap_longitude):
  """Average over the full window centred on each point, zero where the
  window leaves the grid."""
  n = neighborhood_size
  if n == 1:
    return x
  if n % 2 == 0:
    raise ValueError()
  h = (n - 1) // 2
  k = np.ones(n, dtype=np.float32) / n
  y = ndimage.convolve1d(
      ndimage.convolve1d(x.astype(np.float32), k, mode='wrap', axis=0), k,
      mode='wrap', axis=1)
  y[:h] = 0
  y[-h:] = 0
  if not wrap_longitude:
    y[:, :h] = 0
    y[:, -h:] = 0
  return y


@behaves('neighborhood_averaging_for_single_size', 'C16 C07',
         opaque=['weatherbenchX.metrics.spatial.neighborhood_averaging',
                 'weatherbenchX.metrics.spatial.convolve2d_wrap_longitude'])
def single_size(da, neighborhood_size, wrap_longitude):
  from weatherbenchX.metrics import spatial
  y = xr.apply_ufunc(
      lambda x: spatial.convolve2d_wrap_longitude(
          x, neighborhood_size, wrap_longitude),
      da.copy(deep=True), input_core_dims=[['latitude', 'longitude']],
      output_core_dims=[['latitude', 'longitude']], vectorize=True)
  if 'mask' in da.coords:
    m = spatial.neighborhood_averaging(
        da.mask.drop('mask'), neighborhood_size, wrap_longitude)
    y.coords['mask'][:] = np.isclose(m, True).astype(bool)
  return y


@behaves('weatherbenchX.metrics.spatial.neighborhood_averaging', 'C16',
         opaque=['weatherbenchX.metrics.spatial.neighborhood_averaging_for_single_size'])
def several_sizes(da, neighborhood_size, wrap_longitude):
  from weatherbenchX.metrics import spatial
  from typing import Iterable
  if isinstance(neighborhood_size, Iterable):
    return xr.concat(
        [spatial.neighborhood_averaging_for_single_size(da, n, wrap_longitude)
         for n in neighborhood_size],
        dim=xr.DataArray(neighborhood_size, dims=['neighborhood_size']))
  return spatial.neighborhood_averaging_for_single_size(
      da, neighborhood_size, wrap_longitude)
