"""The public surface of the library: where a caller's objects enter it.

Rules about effects on the caller are stated at these entry points, with
everything they reach evaluated in their context, so that a private (or newly
extracted) helper that fills an object its caller created is no violation.
"""

from __future__ import annotations

from . import metrics
from .program import Func

# Module-level functions documented for use by callers.
FUNCTIONS = '''
aggregation.combining_sum aggregation.compute_metric_values_for_single_chunk
beam_pipeline.define_pipeline beam_pipeline.define_unaggregated_pipeline
beam_pipeline.reconstruct_aggregation_state beam_utils.atomic_write
binning.vectorized_coord_mask data_loaders.base.add_nan_mask_to_data
data_loaders.sparse_parquet.get_parquet_files_subset
data_loaders.sparse_parquet.parquet_filename_for_time
data_loaders.sparse_parquet.convert_longitude_to_0_to_360
data_loaders.sparse_parquet.set_bad_quality_to_nan
interpolations.interpolate_to_coords interpolations.pad_longitude
metrics.base.compute_metric_from_statistics
metrics.base.compute_metrics_from_statistics
metrics.base.compute_unique_statistics_for_all_metrics
metrics.base.generate_unique_statistics_for_all_metrics
metrics.probabilistic.SpreadSkillRatio
metrics.spatial.convolve2d_wrap_longitude metrics.spatial.get_suffix
metrics.spatial.neighborhood_averaging
metrics.spatial.neighborhood_averaging_for_single_size
metrics.wrappers.binarize_thresholds metrics.wrappers.compute_cdf
metrics.wrappers.select_bin_thresholds_by_time_from_chunk
statistical_inference.autodiff.per_unit_values_linearized_around_mean_statistics
statistical_inference.baseline_comparison.combine_aggregation_states
statistical_inference.baseline_comparison.difference
statistical_inference.baseline_comparison.for_metrics
statistical_inference.bootstrap.stationary_bootstrap_indices
statistical_inference.utils.apply_to_slices
statistical_inference.utils.get_and_check_experimental_unit_coord
statistical_inference.utils.logarithmic_round
weighting.cell_area_from_latitude weighting.latitude_cell_bounds
xarray_tree.map_structure
'''.split()

# Methods of the library's classes that callers (or Beam) call.
METHODS = frozenset('''
__add__ __getitem__ __init__ __iter__ __len__ add_input aggregate_stat_var
aggregate_stat_vars aggregate_statistics aggregation_fn ci_lower ci_upper
compute confidence_intervals create_accumulator create_bin_mask dot
drop_offsets expand extract_output for_baseline_comparison from_data_tree
from_dataset get_available_init_time init_time_chunk_size init_times
interpolate interpolate_data_array iter_with_chunk_offsets
lead_time_chunk_size lead_times load_chunk map map_multi
maybe_prepare_dataset maybe_set_nominal_init_times mean_statistics
merge_accumulators metric_values p_value p_values point_estimates process
resampled_values setup significance_tests standard_error_estimates statistics
sum sum_along_dims to_data_tree to_dataset transform_fn unique_name
unique_name_suffix values_from_mean_statistics weights zero
'''.split())


def entries(prog):
  """(label, target) for everything a caller can reach in the library."""
  out = []
  for n in FUNCTIONS:
    q = 'weatherbenchX.' + n
    if q in prog.funcs:
      out.append((n, q))
  for c in prog.repo_classes():
    if metrics.abstract(prog, c.qual):
      continue
    seen = set()
    for q in prog.mro(c.qual):
      k = prog.classes.get(q)
      if k is None or not q.startswith('weatherbenchX.'):
        continue
      for n, m in k.methods.items():
        if n in METHODS and n not in seen and isinstance(m, Func):
          seen.add(n)
          out.append((c.qual[len('weatherbenchX.'):] + '.' + n,
                      c.qual + '.' + n))
  return out
