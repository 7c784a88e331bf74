B = 'weatherbenchX/data_loaders/base.py'
AG = 'weatherbenchX/aggregation.py'
W = 'weatherbenchX/weighting.py'
BN = 'weatherbenchX/binning.py'
SP = 'weatherbenchX/metrics/spatial.py'
XL = 'weatherbenchX/data_loaders/xarray_loaders.py'
IP = 'weatherbenchX/interpolations.py'
MB = 'weatherbenchX/metrics/base.py'
WR = 'weatherbenchX/metrics/wrappers.py'
TC = 'weatherbenchX/time_chunks.py'
DT = 'weatherbenchX/metrics/deterministic.py'

CASES = [
    ('mask_in_place', 'C07', B, '''  data = dict(data)
  for var in data:
    if variable_subset is None or var in variable_subset:
      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
  return data''', '''  for var in data:
    if variable_subset is None or var in variable_subset:
      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
  return data''', 1),
    ('mask_coord_in_place', 'C07', B, '''      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))''',
     '''      data[var].coords['mask'] = ~np.isnan(data[var])''', 1),
    ('mask_setitem', 'C07', B, '''      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))''',
     '''      da = data[var]
      da['mask'] = ~np.isnan(da)''', 1),
    ('mask_rebuilt', 'C07', B, '''  data = dict(data)
  for var in data:
    if variable_subset is None or var in variable_subset:
      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
  return data''', '''  out = {}
  for var, da in data.items():
    out[var] = da
    if variable_subset is None or var in variable_subset:
      out[var] = da.assign_coords(mask=~np.isnan(da))
  return out''', 0),
    ('mask_copy', 'C07', B, '''      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))''',
     '''      da = data[var].copy()
      da.coords['mask'] = ~np.isnan(da)
      data[var] = da''', 0),
    ('agg_mask_iand', 'C07', AG, '''        mask = mask & ~stat.isnull()
''', '''        mask &= ~stat.isnull()
''', 1),
    ('agg_loc', 'C07', AG, '''      stat = stat.where(mask, 0)

      # We need''', '''      stat.values[~mask.values] = 0

      # We need''', 1),
    ('agg_loc_T', 'C07', AG, '''      stat = stat.where(mask, 0)

      # We need''', '''      flat = stat.transpose(*mask.dims, ...)
      flat.data[...] = np.where(mask, flat, 0)

      # We need''', 1),
    ('agg_stats_pop', 'C07', AG, '''    per_stat = {stat_name: self.aggregate_stat_vars(stats)
                for stat_name, stats in statistics.items()}''', '''    per_stat = {}
    for stat_name in list(statistics):
      per_stat[stat_name] = self.aggregate_stat_vars(statistics.pop(stat_name))''', 1),
    ('weights_in_place', 'C07', W, 'latitude = statistic[self.latitude_name].data\n',
     'latitude = statistic[self.latitude_name].data\n    latitude *= 1.0\n', 1),
    ('weights_deg', 'C07', W, '    weights = cell_area_from_latitude(np.deg2rad(latitude))',
     '    weights = cell_area_from_latitude(np.deg2rad(latitude, out=latitude))', 1),
    ('weights_sort', 'C07', W, '    weights = cell_area_from_latitude(np.deg2rad(latitude))',
     '    latitude.sort()\n    weights = cell_area_from_latitude(np.deg2rad(latitude))', 1),
    ('lonbins_list', 'C07', BN, '''    lon_end = lon_range[1]
    if lon_range[0] >= lon_range[1]:
      lon_end += 360
''', '''    if lon_range[0] >= lon_range[1]:
      lon_range[1] += 360
    lon_end = lon_range[1]
''', 1),
    ('spatial_copy', 'C07', SP, 'da.copy(deep=True)', 'da', 1),
    ('spatial_shallow', 'C07', SP, 'da.copy(deep=True)', 'da.copy(deep=False)', 1),
    ('spatial_assign', 'C07', SP, ["da.copy(deep=True)", "    out.coords['mask'][:] = new_mask.astype(bool)"],
     ['da', "    out = out.assign_coords(mask=(new_mask.dims, new_mask.values.astype(bool)))"], 0),
    ('spatial_x', 'C07', SP, '''  out = ndimage.convolve1d(x.astype(np.float32), kernel, mode='wrap', axis=0)''',
     '''  x = np.asarray(x)
  x[np.isnan(x)] = 0
  out = ndimage.convolve1d(x.astype(np.float32), kernel, mode='wrap', axis=0)''', 1),
    ('helper_zero', 'C07', SP, ['''def convolve2d_wrap_longitude(''', '''  out[:half_n] = 0
  out[-half_n:] = 0
'''], ['''def blank_rows(arr, n):
  arr[:n] = 0
  arr[-n:] = 0


def convolve2d_wrap_longitude(''', '  blank_rows(out, half_n)\n'], 0),
    ('loader_ds', 'C07', XL, '''      self._ds = self._ds[list(self._variables)]''',
     '''      for v in list(self._ds):
        if v not in self._variables:
          del self._ds[v]''', 1),
    ('sel_pop', 'C07', WR, "      da = da.sel(self._sel, **self._sel_kwargs)",
     "      method = self._sel_kwargs.pop('method', None)\n      da = da.sel(self._sel, method=method, **self._sel_kwargs)", 1),
    ('interp_ref', 'C07', IP, '''    for interpolation in self.interpolations:
      da = interpolation.interpolate_data_array(da, reference)
    return da''', '''    for i in range(len(self.interpolations)):
      da = self.interpolations.pop(0).interpolate_data_array(da, reference)
    return da''', 1),
    ('err_inplace', 'C07', DT, '    return abs(error)', '    predictions -= targets\n    return abs(predictions)', 1),
    ('err_local', 'C07', DT, '    return abs(error)', '    predictions = predictions - targets\n    predictions *= 1.0\n    return abs(predictions)', 0),
    ('attrs', 'C07', DT, '    return abs(error)', "    predictions.attrs['units'] = ''\n    return abs(error)", 1),
    ('name', 'C07', DT, '    return abs(error)', "    predictions.name = 'x'\n    return abs(error)", 1),
    ('values', 'C07', DT, '    return abs(error)', "    t = targets.isel()\n    t.values = t.values - 1\n    return abs(predictions - t)", 1),
    ('nan_to_num', 'C07', DT, '    return abs(error)', "    np.nan_to_num(targets.values, copy=False)\n    return abs(error)", 1),
    ('fill', 'C07', DT, '    return abs(error)', "    d = abs(error)\n    d.values[d.values < 0] = 0\n    return d", 0),
    ('times_sort', 'C07', TC, '      if not lead_time_chunk_size:\n', '      if not lead_time_chunk_size:\n        lead_times.sort()\n', 0),
]
