"""Vocabulary of the reference definitions. Nothing here is ever executed."""

import numpy as np
import xarray as xr


def behaves(*args, **kwargs):
  """Declares which function a definition describes."""


def metric(*args, **kwargs):
  """Declares which metric a formula describes."""


def mean(x):
  """Aggregated (weighted) mean of a per-cell statistic."""
  return x


def valid_time_of(x):
  if hasattr(x, 'valid_time'):
    return x.valid_time
  if hasattr(x, 'init_time') and hasattr(x, 'lead_time'):
    return x.init_time + x.lead_time
  raise ValueError('no time')


def climatology_at(climatology, x, var):
  """The climatology of a variable at the valid times of x."""
  c = climatology[var]
  t = valid_time_of(x)
  if hasattr(c, 'time'):
    return c.sel(time=t).compute()
  if hasattr(c, 'hour'):
    return c.sel(dayofyear=t.dt.dayofyear, hour=t.dt.hour).compute()
  return c.sel(dayofyear=t.dt.dayofyear).compute()


def missing(*xs):
  """Cells that are missing in any of the inputs."""
  s = xs[0]
  for x in xs[1:]:
    s = s + x
  return np.isnan(s)


def law(props, **options):
  """The two values returned must agree for all arguments."""
  return lambda f: f
