X = 'evaluation_scripts/run_example_evaluation.py'
B = 'public_benchmark/run_benchmark_evaluation.py'
C = 'public_benchmark/combine_results.py'
G = 'public_benchmark/public_configs.py'
CASES = [
    ('ex_swap', 'C32', X, "      path=PREDICTION_PATH.value,", "      path=TARGET_PATH.value,", 1),
    ('ex_freq', 'C32', X, "      LEAD_TIME_FREQUENCY.value,", "      TIME_FREQUENCY.value,", 1),
    ('ex_levels', 'C32', X, "  if LEVELS.value is not None:", "  if LEVELS.value is None:", 1),
    ('ex_levels_t', 'C32', X, "      path=TARGET_PATH.value,\n      variables=VARIABLES.value,\n      sel_kwargs=sel_kwargs,", "      path=TARGET_PATH.value,\n      variables=VARIABLES.value,", 1),
    ('ex_reduce', 'C32', X, "      reduce_dims=REDUCE_DIMS.value,", "      reduce_dims=['latitude', 'longitude'],", 1),
    ('ex_chunk', 'C32', X, "lead_time_chunk_size=LEAD_TIME_CHUNK_SIZE.value", "lead_time_chunk_size=TIME_CHUNK_SIZE.value", 1),
    ('ex_states', 'C32', X, "        aggregation_state_out_path=AGGREGATION_STATE_OUTPUT_PATH.value,\n", "", 1),
    ('config_prob', 'C32', B, "  elif prediction_str_name in configs.deterministic_prediction_configs:", "  elif PREDICTION.value in configs.deterministic_prediction_configs:", 1),
    ('levels_inv', 'C32', B, "      if 'levels' in prediction_config", "      if 'levels' in target_config", 1),
    ('init_check', 'C32', B, "  if (INIT_TIME_START.value is None) != (INIT_TIME_STOP.value is None):", "  if INIT_TIME_START.value is None and INIT_TIME_STOP.value is not None:", 1),
    ('lead_check', 'C32', B, "  if (LEAD_TIME_START.value is None) != (LEAD_TIME_STOP.value is None):", "  if (LEAD_TIME_START.value is None) == (LEAD_TIME_STOP.value is None):", 1),
    ('lead_truth', 'C32', B, "  if LEAD_TIME_START.value is None:", "  if not LEAD_TIME_START.value:", 1),
    ('freq_truth', 'C32', B, "  if INIT_TIME_FREQUENCY.value is None:\n    if PREDICTION.value == 'excarta'", "  if not INIT_TIME_FREQUENCY.value:\n    if PREDICTION.value == 'excarta'", 1),
    ('baguan', 'C32', B, "  elif YEAR.value == '2020' and PREDICTION.value == 'baguan'", "  elif YEAR.value == '2020' or PREDICTION.value == 'baguan'", 1),
    ('last_lead', 'C32', B, "15 * 24 + 6", "15 * 24", 1),
    ('clim_year', 'C32', B, "climatology_config = configs.climatology_configs[\n      f'era5_{RESOLUTION.value}_{YEAR.value}'", "climatology_config = configs.climatology_configs[\n      f'{TARGET.value}_{RESOLUTION.value}_{YEAR.value}'", 1),
    ('sortlat', 'C32', B, "xr.open_zarr(climatology_config['path']).sortby('latitude')", "xr.open_zarr(climatology_config['path'])", 1),
    ('wind10', 'C32', B, "    v_names.append('10m_v_component_of_wind')", "    v_names.append('v_component_of_wind')", 1),
    ('wind_and', 'C32', B, "      '10m_u_component_of_wind' in variables\n      and '10m_v", "      '10m_u_component_of_wind' in variables\n      or '10m_v", 1),
    ('dry', 'C32', B, "'total_precipitation_24hr': 0.25", "'total_precipitation_24hr': 0.1", 1),
    ('temporal', 'C32', B, "  if TEMPORAL.value:\n    filename", "  if not TEMPORAL.value:\n    filename", 1),
    ('masked', 'C32', B, "      masked=True,", "      masked=False,", 1),
    ('skip', 'C32', B, "skipna=True if PREDICTION.value == 'keisler' else False", "skipna=True", 1),
    ('name', 'C32', B, "{PREDICTION.value}_vs_{TARGET.value}_{RESOLUTION.value}_{init_time_str}", "{PREDICTION.value}_vs_{TARGET.value}_{RESOLUTION.value}_{YEAR.value}", 1),
    ('members', 'C32', G, "ds.isel(", "ds.mean(", 1),
    ('comb_year', 'C32', C, "year=[str(year)]", "year=[str(YEARS[0])]", 1),
    ('comb_region', 'C32', C, '" (Land)"', '""', 1),
]
