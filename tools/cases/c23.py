P = 'weatherbenchX/metrics/probabilistic.py'
X = 'weatherbenchX/data_loaders/xarray_loaders.py'
S = 'weatherbenchX/data_loaders/sparse_parquet.py'
L = 'weatherbenchX/data_loaders/latency_wrappers.py'
B = 'weatherbenchX/binning.py'
W = 'weatherbenchX/weighting.py'
E = 'evaluation_scripts/run_example_evaluation.py'
R = 'weatherbenchX/metrics/wrappers.py'
CASES = [
    ('crps_skill_default', 'C23', P, "            ensemble_dim=self._ensemble_dim,\n            skipna_ensemble=self._skipna_ensemble,", "            ensemble_dim=self._ensemble_dim,", 1),
    ('loader_kwargs_dropped', 'C23', X, 'super().__init__(rename_dimensions=rename_dimensions, **kwargs)', 'super().__init__(rename_dimensions=rename_dimensions)', 1),
    ('parquet_kwargs_dropped', 'C23', S, "        compute=False,  # Data is already loaded.\n        **kwargs\n", "        compute=False,  # Data is already loaded.\n", 1),
    ('latency_no_mask', 'C23', L, "        add_nan_mask=data_loader._add_nan_mask,\n", "", 1),
    ('multi_concat_dim', 'C23', L, "    self._concat_dim = concat_dim\n\n  def _load_chunk_from_source(\n      self,\n      init_times: np.ndarray,\n      lead_times: Optional[Union[np.ndarray, slice]] = None,\n  ) -> Mapping[Hashable, xr.DataArray]:", "    self._concat_dim = 'init_time'\n\n  def _load_chunk_from_source(\n      self,\n      init_times: np.ndarray,\n      lead_times: Optional[Union[np.ndarray, slice]] = None,\n  ) -> Mapping[Hashable, xr.DataArray]:", 1),
    ('binname_dropped', 'C23', B, "  ):\n    \"\"\"Init.\n\n    Args:\n      regions:", "  ):\n    bin_dim_name = 'region'\n    \"\"\"Init.\n\n    Args:\n      regions:", 1),
    ('default_threshold', 'C23', B, 'land_sea_threshold: float = 0.5', 'land_sea_threshold: float = 0.6', 1),
    ('default_normalized', 'C23', W, 'return_normalized: bool = True', 'return_normalized: bool = False', 1),
    ('flag_crossed', 'C23', E, 'init_time_chunk_size=TIME_CHUNK_SIZE.value', 'init_time_chunk_size=LEAD_TIME_CHUNK_SIZE.value', 1),
    ('flag_unused', 'C23', E, 'runner=RUNNER.value, argv=argv', 'argv=argv', 1),
    ('flag_aggstate', 'C23', E, 'aggregation_state_out_path=AGGREGATION_STATE_OUTPUT_PATH.value', 'aggregation_state_out_path=OUTPUT_PATH.value', 1),
    ('rename_store', '*', P, "self._skipna_ensemble", "self._ignore_missing", 0),
    ('flag_local', '*', E, "      reduce_dims=REDUCE_DIMS.value,", "      reduce_dims=list(REDUCE_DIMS.value),", 0),
    ('kwdict', '*', S, "    super().__init__(\n        compute=False,  # Data is already loaded.\n        **kwargs\n    )", "    options = dict(kwargs)\n    options['compute'] = False\n    super().__init__(**options)", 0),
]
