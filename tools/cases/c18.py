B = 'weatherbenchX/data_loaders/base.py'
M = 'weatherbenchX/metrics/base.py'
U = 'weatherbenchX/statistical_inference/utils.py'
P = 'weatherbenchX/beam_pipeline.py'
S = 'weatherbenchX/data_loaders/sparse_parquet.py'
T = 'weatherbenchX/time_chunks.py'
X = 'weatherbenchX/xarray_tree.py'
W = 'weatherbenchX/weighting.py'
CASES = [
    ('swallow_process', 'C18', B, '      chunk = self._process_chunk_fn(chunk)\n',
     '      try:\n        chunk = self._process_chunk_fn(chunk)\n'
     '      except KeyError:\n        pass\n', 1),
    ('stat_skipped', 'C18', M, "    except Exception as e:\n", "    except KeyError:\n      continue\n    except Exception as e:\n", 1),
    ('size_check', 'C18', U, 'elif var_coord.size != coord.size', 'elif var_coord.size < coord.size', 1),
    ('dim_check_gone', 'C18', U, 'if check_is_dim and var_coord.dims[0] != name:', 'if False:', 1),
    ('apply_missing_dim', 'C18', U, "      raise ValueError(f'Dimension {dim=} not found in any arguments.')",
     '      sizes[dim] = 1', 1),
    ('parquet_any', 'C18', S, 'except pyarrow.lib.ArrowTypeError:', 'except (pyarrow.lib.ArrowTypeError, OSError):', 1),
    ('dup_check', 'C18', S, 'if remove_duplicates:\n      if observation_dim is None', 'if remove_duplicates:\n      if not observation_dim and tolerance', 1),
    ('chunk_size', 'C18', T, "      raise ValueError(\n          f'{init_time_chunk_size=}", "      print(\n          f'{init_time_chunk_size=}", 1),
    ('merge_any', 'C18', X, "join='exact'", "join='outer'", 1),
    ('merge_catch', 'C18', X, 'except ValueError:', 'except Exception:', 1),
    ('lat_any', 'C18', W, 'return np.all(diff > 0)', 'return np.all(diff >= 0)', 1),
    ('stop', 'C18', P, 'except IndexError:', 'except Exception:', 1),
    ('assert_to_raise', '*', W, "  assert _is_increasing(x), 'Points must be increasing.'",
     "  if not _is_increasing(x):\n    raise ValueError('Points must be increasing.')", 0),
    ('order', '*', U, "      if var_coord.ndim != 1:\n        raise ValueError(\n            f'Experimental unit coordinate {name} has multiple dimensions.')\n      if check_is_dim and var_coord.dims[0] != name:\n        raise ValueError(f'Coordinate {name} is not a dimension coordinate.')\n",
     "      if check_is_dim and var_coord.dims[0] != name:\n        raise ValueError(f'Coordinate {name} is not a dimension coordinate.')\n      if var_coord.ndim != 1:\n        raise ValueError(\n            f'Experimental unit coordinate {name} has multiple dimensions.')\n", 0),
    ('lbyl', '*', U, "      try:\n        var_coord = var.coords[name]\n      except KeyError as exc:\n        raise ValueError(\n            f'No experimental unit coordinate {name} found for {stat_name=} '\n            f'{var_name=}.') from exc\n",
     "      if name not in var.coords:\n        raise ValueError(\n            f'No experimental unit coordinate {name} found for {stat_name=} '\n            f'{var_name=}.')\n      var_coord = var.coords[name]\n", 0),
    ('next_helper', '*', P, ['stat_name, stats = next(stats_iter)', 'class ComputeStatisticsAggregateAndPrepareForCombine('],
     ['stat_name, stats = _advance(stats_iter)', 'def _advance(it):\n  return next(it)\n\n\nclass ComputeStatisticsAggregateAndPrepareForCombine('], 0),
    ('tuple_types', '*', X, 'except ValueError:', 'except (ValueError,):', 0),
]
