"""Baseline comparisons (C20) and statistical inference (C21)."""

import functools

import arch.bootstrap
import jax
import jax.numpy as jnp
import numpy as np
import scipy
import xarray as xr
from weatherbenchX import aggregation
from weatherbenchX import xarray_tree
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import wrappers
from weatherbenchX.statistical_inference import autodiff
from weatherbenchX.statistical_inference import baseline_comparison
from weatherbenchX.statistical_inference import bootstrap
from weatherbenchX.statistical_inference import t_test
from weatherbenchX.statistical_inference import utils

from .prelude import behaves
from .prelude import law

MAP = 'weatherbenchX.xarray_tree.map_structure'


# --- main minus baseline (C20) --------------------------------------------------


@behaves('weatherbenchX.statistical_inference.baseline_comparison.difference',
         'C20')
def difference(main_result, baseline_result):
  return {k: main_result[k] - baseline_result[k]
          for k in main_result.keys() & baseline_result.keys()}


@behaves('BaselineComparison.statistics', 'C05 C20 C06')
def comparison_statistics(p):
  b = p.baseline_metric or p.metric
  return {
      **{f'main_{n}': wrappers.RenamedStatistic(s, f'main_{s.unique_name}')
         for n, s in p.metric.statistics.items()},
      **{f'baseline_{n}': wrappers.RenamedStatistic(
          s, f'baseline_{s.unique_name}') for n, s in b.statistics.items()}}


@behaves('BaselineComparison.values_from_mean_statistics', 'C20 C06')
def comparison_values(p, statistic_values):
  b = p.baseline_metric or p.metric
  return p.comparison(
      p.metric.values_from_mean_statistics(
          {k[len('main_'):]: v for k, v in statistic_values.items()
           if k.startswith('main_')}),
      b.values_from_mean_statistics(
          {k[len('baseline_'):]: v for k, v in statistic_values.items()
           if k.startswith('baseline_')}))


@behaves('weatherbenchX.statistical_inference.baseline_comparison.combine_aggregation_states',
         'C20 C21')
def combine_states(aggregation_state, baseline_aggregation_state):
  a, b = aggregation_state, baseline_aggregation_state
  return aggregation.AggregationState(
      {**{f'main_{k}': v for k, v in a.sum_weighted_statistics.items()},
       **{f'baseline_{k}': v for k, v in b.sum_weighted_statistics.items()}},
      {**{f'main_{k}': v for k, v in a.sum_weights.items()},
       **{f'baseline_{k}': v for k, v in b.sum_weights.items()}})


@behaves('weatherbenchX.statistical_inference.baseline_comparison.for_metrics',
         'C20 C23')
def comparisons(metrics, baseline_metrics, comparison):
  b = metrics if baseline_metrics is None else baseline_metrics
  return {n: baseline_comparison.BaselineComparison(metrics[n], b[n],
                                                    comparison)
          for n in metrics.keys() & b.keys()}


INFER = [
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.aggregation.AggregationState.dot',
    'weatherbenchX.aggregation.AggregationState.sum_along_dims',
    'weatherbenchX.aggregation.AggregationState.mean_statistics',
    'weatherbenchX.statistical_inference.utils.get_and_check_experimental_unit_coord',
    'weatherbenchX.metrics.base.compute_metrics_from_statistics',
    'weatherbenchX.statistical_inference.autodiff.per_unit_values_linearized_around_mean_statistics',
    'weatherbenchX.statistical_inference.baseline_comparison.for_metrics',
    'weatherbenchX.statistical_inference.baseline_comparison.combine_aggregation_states']


@law('C20 C23', opaque=INFER,
     anchor='weatherbenchX/statistical_inference/base.py')
def baseline_iid_bootstrap(metrics, state: aggregation.AggregationState,
                           other: aggregation.AggregationState,
                           other_metrics, comparison, dim, n):
  """The paired test is the plain test of the combined metrics and data."""
  b = bootstrap.IIDBootstrap.for_baseline_comparison(
      metrics, state, other, other_metrics, comparison,
      experimental_unit_dim=dim, n_replicates=n)
  d = bootstrap.IIDBootstrap(
      baseline_comparison.for_metrics(metrics, other_metrics, comparison),
      baseline_comparison.combine_aggregation_states(state, other), dim, n)
  return ((b.point_estimates(), b.resampled_values),
          (d.point_estimates(), d.resampled_values))


@law('C20 C23', opaque=INFER,
     anchor='weatherbenchX/statistical_inference/base.py')
def baseline_t_test(metrics, state: aggregation.AggregationState,
                    other: aggregation.AggregationState, dim, v):
  """By default both sides use the same metrics, compared by difference."""
  b = t_test.LazarusHACEWC.for_baseline_comparison(
      metrics, state, other, experimental_unit_dim=dim, v_0=v)
  d = t_test.LazarusHACEWC(
      baseline_comparison.for_metrics(metrics, None,
                                      baseline_comparison.difference),
      baseline_comparison.combine_aggregation_states(state, other), dim, v)
  return (b.point_estimates(), b.standard_error_estimates(),
          b.confidence_intervals(0.1), b.p_values(2)), (
      d.point_estimates(), d.standard_error_estimates(),
      d.confidence_intervals(0.1), d.p_values(2))


@law('C21', opaque=INFER,
     anchor='weatherbenchX/statistical_inference/t_test.py')
def t_test_outputs(metrics, state: aggregation.AggregationState, dim, alpha,
                   null):
  """Every output of a t-test is that of its per-variable results."""
  t = t_test.GeerAR2Corrected(metrics, state, dim)
  values, tangents = autodiff.per_unit_values_linearized_around_mean_statistics(
      metrics, state, dim)
  r = xarray_tree.map_structure(
      functools.partial(t._compute_results, dim), values, tangents)
  return (t.point_estimates(), t.standard_error_estimates(),
          t.confidence_intervals(alpha), t.p_values(null)), (
      xarray_tree.map_structure(lambda x: x.mean, r),
      xarray_tree.map_structure(lambda x: x.standard_error, r),
      (xarray_tree.map_structure(lambda x: x.ci_lower(alpha), r),
       xarray_tree.map_structure(lambda x: x.ci_upper(alpha), r)),
      xarray_tree.map_structure(lambda x: x.p_value(null), r))


# --- decisions (C21) ----------------------------------------------------------------


@behaves('StatisticalInferenceMethod.significance_tests', 'C21',
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def significance(self, null_value, alpha):
  return xarray_tree.map_structure(lambda x: x <= alpha,
                                   self.p_values(null_value))


@behaves('weatherbenchX.statistical_inference.utils.logarithmic_round', 'C21')
def logarithmic_round(x, resolution):
  return 10 ** ((np.log10(x) * resolution).round() / resolution)


# --- bootstrap (C21) ------------------------------------------------------------------

R = 'bootstrap_replicate'
OPAQUE = ['weatherbenchX.xarray_tree.map_structure']


@behaves('Bootstrap.standard_error_estimates', 'C21',
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def bootstrap_stderr(self):
  return xarray_tree.map_structure(
      lambda x: x.std('bootstrap_replicate', ddof=1, skipna=True),
      self.resampled_values)


@behaves('Bootstrap.confidence_intervals', 'C21',
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def bootstrap_interval(self, alpha):
  return (
      xarray_tree.map_structure(
          lambda x: x.quantile(alpha / 2, 'bootstrap_replicate', skipna=True),
          self.resampled_values),
      xarray_tree.map_structure(
          lambda x: x.quantile(1 - alpha / 2, 'bootstrap_replicate',
                               skipna=True), self.resampled_values))


def two_sided(x, null_value):
  """Smaller tail of the empirical distribution, twice; ties in both tails."""
  x = x[~np.isnan(x)]
  if x.size == 0:
    return np.nan
  x = np.sort(x)
  q = np.linspace(0, 1, x.shape[0])
  return min(1, 2 * min(np.interp(null_value, x, q),
                        np.interp(-null_value, -x[::-1], q)))


@behaves('Bootstrap.p_values', 'C21 C03',
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def bootstrap_p_values(self, null_value):
  return xarray_tree.map_structure(
      lambda x: xr.apply_ufunc(
          lambda a: two_sided(a, null_value), x,
          input_core_dims=[['bootstrap_replicate']], vectorize=True),
      self.resampled_values)


@law('C21', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.aggregation.AggregationState.dot',
    'weatherbenchX.aggregation.AggregationState.sum_along_dims',
    'weatherbenchX.aggregation.AggregationState.mean_statistics',
    'weatherbenchX.statistical_inference.utils.get_and_check_experimental_unit_coord',
    'weatherbenchX.metrics.base.compute_metrics_from_statistics'],
     anchor='weatherbenchX/statistical_inference/bootstrap.py')
def iid_bootstrap(metrics, state: aggregation.AggregationState, dim, n):
  b = bootstrap.IIDBootstrap(metrics, state, dim, n)
  units = utils.get_and_check_experimental_unit_coord(state, dim).size
  counts = xr.DataArray(
      data=np.random.multinomial(units, np.full(units, 1 / units), size=n),
      dims=['bootstrap_replicate', dim])
  return (b.point_estimates(), b.resampled_values), (
      metrics_base.compute_metrics_from_statistics(
          metrics, state.sum_along_dims([dim]).mean_statistics()),
      metrics_base.compute_metrics_from_statistics(
          metrics, state.dot(counts, dim=dim).mean_statistics()))


@law('C21', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.aggregation.AggregationState.dot',
    'weatherbenchX.aggregation.AggregationState.sum_along_dims',
    'weatherbenchX.aggregation.AggregationState.mean_statistics',
    'weatherbenchX.statistical_inference.utils.get_and_check_experimental_unit_coord',
    'weatherbenchX.metrics.base.compute_metrics_from_statistics'],
     anchor='weatherbenchX/statistical_inference/bootstrap.py')
def cluster_bootstrap(metrics, state: aggregation.AggregationState, name, n):
  """Every unit of a cluster is drawn as often as its cluster."""
  b = bootstrap.ClusterBootstrap(metrics, state, name, n)
  coord = utils.get_and_check_experimental_unit_coord(state, name,
                                                      check_is_dim=False)
  dim = coord.dims[0]
  clusters, member = np.unique(coord.data, return_inverse=True)
  k = clusters.shape[0]
  counts = xr.DataArray(
      data=np.random.multinomial(k, np.full(k, 1 / k), size=n),
      dims=['bootstrap_replicate', 'cluster_id'])
  counts = counts.isel(cluster_id=xr.DataArray(member, dims=[dim]))
  return (b.point_estimates(), b.resampled_values), (
      metrics_base.compute_metrics_from_statistics(
          metrics, state.sum_along_dims([dim]).mean_statistics()),
      metrics_base.compute_metrics_from_statistics(
          metrics, state.dot(counts, dim=dim).mean_statistics()))


# --- t-tests (C21) -----------------------------------------------------------------


T = 'weatherbenchX.statistical_inference.t_test.'


@behaves('weatherbenchX.statistical_inference.t_test._variance_estimate_from_deviations',
         'C21 C03')
def variance(deviations, dim, ddof):
  return (deviations ** 2).sum(dim, skipna=False) / (
      deviations.sizes[dim] - ddof)


@behaves('weatherbenchX.statistical_inference.t_test._autocorrelation_estimate_from_deviations',
         'C21 C03',
         opaque=['weatherbenchX.statistical_inference.t_test._variance_estimate_from_deviations'])
def autocorrelation(deviations, dim, lag):
  v = t_test._variance_estimate_from_deviations(deviations, dim)
  x = deviations.drop_vars([n for n, c in deviations.coords.items()
                            if dim in c.dims])
  r = (x.isel({dim: slice(0, -lag)}) * x.isel({dim: slice(lag, None)})).mean(
      dim, skipna=False) / v
  return r.where(v != 0, 0)


@behaves('weatherbenchX.statistical_inference.t_test._inflation_factor_from_ar2_autocorrelation',
         'C21')
def inflation(rho1, rho2):
  phi1 = rho1 * (1 - rho2) / (1 - rho1 ** 2)
  phi2 = (rho2 - rho1 ** 2) / (1 - rho1 ** 2)
  return np.sqrt((1 - rho1 * phi1 - rho2 * phi2) / (1 - phi1 - phi2) ** 2)


@behaves('_TTestResults.ci_lower', 'C21')
def ci_lower(p, alpha):
  return p.mean + p.standard_error * scipy.stats.t(
      df=p.degrees_of_freedom).ppf(alpha / 2)


@behaves('_TTestResults.ci_upper', 'C21')
def ci_upper(p, alpha):
  return p.mean - p.standard_error * scipy.stats.t(
      df=p.degrees_of_freedom).ppf(alpha / 2)


@behaves('_TTestResults.p_value', 'C21')
def t_p_value(p, null_value):
  d = p.mean - null_value
  z = xr.where((d == 0) & (p.standard_error == 0), 0, d / p.standard_error)
  return 2 * (1 - xr.apply_ufunc(
      scipy.stats.t(df=p.degrees_of_freedom).cdf, abs(z)))


@behaves('weatherbenchX.statistical_inference.t_test.IID._compute_results',
         'C21', opaque=[
    'weatherbenchX.statistical_inference.t_test._variance_estimate_from_deviations'])
def iid_results(experimental_unit_dim, mean, per_unit_deviations):
  n = per_unit_deviations.sizes[experimental_unit_dim]
  v = t_test._variance_estimate_from_deviations(
      per_unit_deviations, experimental_unit_dim, ddof=1)
  return t_test._TTestResults(mean, np.sqrt(v / n), n - 1)


@behaves('weatherbenchX.statistical_inference.t_test.GeerAR2Corrected._compute_results',
         'C21', opaque=[
    'weatherbenchX.statistical_inference.t_test._variance_estimate_from_deviations',
    'weatherbenchX.statistical_inference.t_test._autocorrelation_estimate_from_deviations',
    'weatherbenchX.statistical_inference.t_test._inflation_factor_from_ar2_autocorrelation',
    'weatherbenchX.statistical_inference.t_test._check_uniform_step'])
def geer_results(experimental_unit_dim, mean, per_unit_deviations):
  d, dim = per_unit_deviations, experimental_unit_dim
  n = d.sizes[dim]
  v = t_test._variance_estimate_from_deviations(d, dim, ddof=1)
  k = t_test._inflation_factor_from_ar2_autocorrelation(
      t_test._autocorrelation_estimate_from_deviations(d, dim, lag=1),
      t_test._autocorrelation_estimate_from_deviations(d, dim, lag=2))
  return t_test._TTestResults(mean, np.sqrt(v / n) * k, n - 1)


@behaves('LazarusHACEWC._compute_results', 'C21 C23', opaque=[
    'weatherbenchX.statistical_inference.t_test._check_uniform_step'],
         value=True)
def lazarus_results(p, experimental_unit_dim, mean, per_unit_deviations):
  d, dim = per_unit_deviations, experimental_unit_dim
  n = d.sizes[dim]
  v = min(max(1, int(p.v_0 * n ** (2 / 3))), n - 1)
  variance_ = xr.apply_ufunc(
      lambda x: np.mean(scipy.fft.dct(x, type=2, axis=-1, norm='ortho')[
          ..., 1:v + 1] ** 2, axis=-1),
      d, input_core_dims=[[dim]], output_core_dims=[[]])
  return t_test._TTestResults(mean=mean,
                              standard_error=np.sqrt(variance_ / n),
                              degrees_of_freedom=v)




# --- stationary bootstrap (C21) -----------------------------------------------------


@behaves('weatherbenchX.statistical_inference.bootstrap.stationary_bootstrap_indices',
         'C21')
def stationary_indices(n_data, mean_block_length, n_replicates, dtype):
  """A uniform start; then the next unit, or with probability 1/L a new start."""
  current = np.random.randint(n_data, size=(n_replicates,), dtype=dtype)
  out = [current]
  for _ in range(1, n_data):
    ends = np.random.rand(n_replicates) < 1 / mean_block_length
    fresh = np.random.randint(n_data, size=(n_replicates,), dtype=dtype)
    current = np.where(ends, fresh, (current + 1) % n_data)
    out.append(current)
  return np.stack(out, axis=0)


@behaves('StationaryBootstrap._optimal_block_length', 'C21 C23', opaque=[
    'weatherbenchX.statistical_inference.utils.logarithmic_round'])
def block_length(p, data_array):
  if p.mean_block_length is not None:
    return p.mean_block_length
  best = max(1.0, arch.bootstrap.optimal_block_length(
      data_array.squeeze().data).stationary.item())
  if p.block_length_rounding_resolution is None:
    return best
  return utils.logarithmic_round(best, p.block_length_rounding_resolution)


@behaves('StationaryBootstrap._bootstrap_results_for_metric_scalar', 'C21', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.statistical_inference.bootstrap.StationaryBootstrap._optimal_block_length',
    'weatherbenchX.statistical_inference.bootstrap.stationary_bootstrap_indices'])
def stationary_scalar(self, p, metric, var_name, per_unit_tangents,
                      sum_weighted_stats, sum_weights):
  """Sums and weights are resampled with the same indices, then divided."""
  dim = p.experimental_unit_dim
  indices = xr.DataArray(bootstrap.stationary_bootstrap_indices(
      n_data=per_unit_tangents.sizes[dim],
      mean_block_length=self._optimal_block_length(per_unit_tangents),
      n_replicates=p.n_replicates), dims=[dim, 'bootstrap_replicate'])
  sums, weights = xarray_tree.map_structure(
      lambda x: x.isel({dim: indices}).sum(dim, skipna=False),
      (sum_weighted_stats, sum_weights))
  return metric.values_from_mean_statistics(xarray_tree.map_structure(
      lambda a, b: a / b, sums, weights))[var_name]


@behaves('StationaryBootstrap._bootstrap_results_for_metric', 'C21', opaque=[
    'weatherbenchX.statistical_inference.utils.apply_to_slices',
    'weatherbenchX.statistical_inference.bootstrap.StationaryBootstrap._bootstrap_results_for_metric_scalar'])
def stationary_metric(self, p, metric, point_estimates, per_unit_tangents):
  sums = {k: p.aggregated_statistics.sum_weighted_statistics[s.unique_name]
          for k, s in metric.statistics.items()}
  weights = {k: p.aggregated_statistics.sum_weights[s.unique_name]
             for k, s in metric.statistics.items()}
  out = {}
  for v in point_estimates.keys():
    alone = len(point_estimates) > 1 and all(v in x for x in sums.values())
    out[v] = utils.apply_to_slices(
        functools.partial(self._bootstrap_results_for_metric_scalar, metric, v),
        per_unit_tangents[v],
        {k: {v: x[v]} for k, x in sums.items()} if alone else sums,
        {k: {v: x[v]} for k, x in weights.items()} if alone else weights,
        dim=point_estimates[v].dims)
  return out


@law('C21', opaque=INFER + [
    'weatherbenchX.statistical_inference.utils.apply_to_slices'],
     anchor='weatherbenchX/statistical_inference/bootstrap.py')
def stationary_bootstrap(metrics, state: aggregation.AggregationState, dim, n,
                         length):
  b = bootstrap.StationaryBootstrap(metrics, state, dim, n, length)
  values, tangents = autodiff.per_unit_values_linearized_around_mean_statistics(
      metrics, state, dim)
  return (b.point_estimates(), b.resampled_values), (
      values, {k: b._bootstrap_results_for_metric(m, values[k], tangents[k])
               for k, m in metrics.items()})


# --- slices, linearization (C21) ----------------------------------------------------


@behaves('weatherbenchX.statistical_inference.autodiff.per_unit_values_linearized_around_mean_statistics',
         'C21', opaque=[
    'weatherbenchX.xarray_tree.map_structure',
    'weatherbenchX.statistical_inference.utils.get_and_check_experimental_unit_coord',
    'weatherbenchX.aggregation.AggregationState.map',
    'weatherbenchX.aggregation.AggregationState.map_multi',
    'weatherbenchX.aggregation.AggregationState.mean_statistics',
    'weatherbenchX.metrics.base.compute_metrics_from_statistics'])
def linearized(metrics, aggregation_state, experimental_unit_dim):
  dim = experimental_unit_dim
  cpu = jax.local_devices(backend='cpu')[0]

  def arr(x):
    return x.data if isinstance(x.data, jax.Array) else jnp.array(
        x.data, device=cpu)

  def back(a, t):
    return xr.DataArray(a, dims=t.dims, coords=t.coords)

  coord = utils.get_and_check_experimental_unit_coord(aggregation_state, dim)
  units = aggregation_state.map(lambda x: x.transpose(..., dim))
  mean = units.map(lambda x: x.mean(dim, skipna=False))
  template = None

  def f(s, w):
    state = aggregation.AggregationState(
        xarray_tree.map_structure(back, s, mean.sum_weighted_statistics),
        xarray_tree.map_structure(back, w, mean.sum_weights))
    out = metrics_base.compute_metrics_from_statistics(
        metrics, state.mean_statistics())
    nonlocal template
    template = out
    return xarray_tree.map_structure(arr, out)

  values, lin = jax.linearize(
      f, xarray_tree.map_structure(arr, mean.sum_weighted_statistics),
      xarray_tree.map_structure(arr, mean.sum_weights))
  d = aggregation.AggregationState.map_multi(lambda x, y: x - y, units, mean)
  t = jax.vmap(lin, in_axes=-1, out_axes=-1)(
      xarray_tree.map_structure(arr, d.sum_weighted_statistics),
      xarray_tree.map_structure(arr, d.sum_weights))
  return xarray_tree.map_structure(lambda x: x.as_numpy(), (
      xarray_tree.map_structure(back, values, template),
      xarray_tree.map_structure(
          lambda a, s: xr.DataArray(a, dims=s.dims + (dim,),
                                    coords=s.coords | {dim: coord}),
          t, template)))


@behaves('weatherbenchX.statistical_inference.utils.apply_to_slices', 'C21',
         opaque=['weatherbenchX.xarray_tree.map_structure'])
def apply_to_slices(func, star_args, dim):
  dims = (dim,) if isinstance(dim, str) else tuple(dim)
  sizes = {}

  def prepare(x):
    for d in dims:
      if d in x.dims:
        if d not in x.coords:
          x = x.assign_coords({d: np.arange(x.sizes[d])})
        if d not in sizes:
          sizes[d] = x.sizes[d]
        if sizes[d] != x.sizes[d]:
          raise ValueError
    return x

  args = xarray_tree.map_structure(prepare, star_args)
  parts = []
  for ix in np.ndindex(*[sizes[d] for d in dims]):
    cut = xarray_tree.map_structure(
        lambda x, ix=ix: x.isel({d: [i] for d, i in zip(dims, ix)
                                 if d in x.dims}), args)
    parts.append(func(*cut))
  return xarray_tree.map_structure(
      lambda *xs: xr.combine_by_coords(xs), *parts)


@behaves('weatherbenchX.statistical_inference.utils.apply_to_slices', 'C21',
         raises=True)
def sliced(func, dim, star_args):
  """func on every combination of slices, the results laid side by side."""
  dims = (dim,) if isinstance(dim, str) else tuple(dim)
  sizes = {}

  def labelled(arg):
    for d in dims:
      if d in arg.dims:
        if d not in arg.coords:
          arg = arg.assign_coords({d: np.arange(arg.sizes[d])})
        if d not in sizes:
          sizes[d] = arg.sizes[d]
        if sizes[d] != arg.sizes[d]:
          raise ValueError()
    return arg

  full = xarray_tree.map_structure(labelled, star_args)
  for d in dims:
    if d not in sizes:
      raise ValueError()
  parts = []
  for at in np.ndindex(*[sizes[d] for d in dims]):
    parts.append(func(*xarray_tree.map_structure(
        lambda arg, at=at: arg.isel(
            {d: [i] for d, i in zip(dims, at) if d in arg.dims}), full)))
  return xarray_tree.map_structure(
      lambda *same: xr.combine_by_coords(same), *parts)
