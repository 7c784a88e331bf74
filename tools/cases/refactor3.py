"""Hand-written behaviour-preserving rewrites: every check must stay quiet."""

B = 'weatherbenchX/binning.py'
I = 'weatherbenchX/interpolations.py'
S = 'weatherbenchX/metrics/spatial.py'
PB = 'C01 C03 C05 C06 C07 C14 C18 C23 C24'
PI = 'C05 C07 C11 C13 C18 C23 C24 C26 C27'
PS = 'C03 C04 C05 C06 C07 C16 C18 C23 C24'

CASES = [
    ('bin-lims-unpacked', PB, B, ['''  if lat_lims[0] >= lat_lims[1]:
    raise ValueError(
        f'`lat_lims[0]` must be smaller than `lat_lims[1]`, got {lat_lims}`'
    )
  return np.logical_and(lat >= lat_lims[0], lat <= lat_lims[1])
''', '''  lon = np.mod(lon, 360)
  lon_lims = np.mod(lon_lims[0], 360), np.mod(lon_lims[1], 360)
  if lon_lims[1] > lon_lims[0]:
    # Same as the latitude.
    lon_mask = np.logical_and(lon >= lon_lims[0], lon <= lon_lims[1])
  else:
    # In this case it means we need to wrap longitude around the other side of
    # the globe.
    lon_mask = np.logical_or(lon <= lon_lims[1], lon >= lon_lims[0])
  return lon_mask
'''], ['''  south, north = lat_lims
  if not south < north:
    raise ValueError(
        f'`lat_lims[0]` must be smaller than `lat_lims[1]`, got {lat_lims}`'
    )
  return (south <= lat) & (lat <= north)
''', '''  west, east = (limit % 360 for limit in lon_lims)
  lon = lon % 360
  east_of_start = lon >= west
  west_of_end = lon <= east
  combine = np.logical_and if west < east else np.logical_or
  return combine(east_of_start, west_of_end)
''']),
    ('bin-labelled-helper', PB, B, ['''      mask = _region_to_mask(lat, lon, lat_lims, lon_lims)
      mask = mask.expand_dims(dim=self.bin_dim_name, axis=0)
      mask.coords[self.bin_dim_name] = np.array([region_name])
      masks.append(mask)
    return xr.concat(masks, dim=self.bin_dim_name)
''', '''      # Broadcast the mask to the shape of statistic
      mask = mask.broadcast_like(statistic)
      mask = mask.expand_dims(dim=self.bin_dim_name, axis=0)
      mask.coords[self.bin_dim_name] = np.array([lat_start])
      masks.append(mask)
''', '''      # Broadcast the mask to the shape of statistic
      mask = mask.broadcast_like(statistic)
      mask = mask.expand_dims(dim=self.bin_dim_name, axis=0)
      mask.coords[self.bin_dim_name] = np.array([np.mod(lon_start, 360)])
      masks.append(mask)
''', '''def _region_to_mask(
'''], ['''      masks.append(
          _as_bin(
              _region_to_mask(lat, lon, lat_lims, lon_lims),
              self.bin_dim_name,
              region_name,
          )
      )
    return xr.concat(masks, dim=self.bin_dim_name)
''', '''      masks.append(
          _as_bin(mask.broadcast_like(statistic), self.bin_dim_name, lat_start)
      )
''', '''      masks.append(
          _as_bin(
              mask.broadcast_like(statistic),
              self.bin_dim_name,
              np.mod(lon_start, 360),
          )
      )
''', '''def _as_bin(mask: xr.DataArray, dim: str, label) -> xr.DataArray:
  """Adds a leading bin dimension of size one with the given label."""
  out = mask.expand_dims(dim=dim, axis=0)
  out.coords[dim] = np.array([label])
  return out


def _region_to_mask(
''']),
    ('bin-landsea-pairs', PB, B, ['''    masks = [self._land_mask, 1 - self._land_mask]
    labels = ['land', 'sea']
    if self._include_global_mask:
      masks.append(xr.ones_like(self._land_mask))
      labels.append('global')

    masks = xr.concat(
        masks,
        dim=self.bin_dim_name,
    )
    masks.coords[self.bin_dim_name] = np.array(labels)
    return masks
'''], ['''    land = self._land_mask
    by_label = {'land': land, 'sea': 1 - land}
    if self._include_global_mask:
      by_label['global'] = xr.ones_like(land)
    masks = xr.concat(list(by_label.values()), dim=self.bin_dim_name)
    masks.coords[self.bin_dim_name] = np.array(list(by_label.keys()))
    return masks
''']),
    ('bin-edges-pairs', PB, B, ['''    for lat_start in self._lat_bins[:-1]:
      lat_end = lat_start + self._degrees
      mask = _create_lat_mask(
          statistic.latitude,
          (lat_start, lat_end),
      )
''', '''    lon_end = lon_range[1]
    if lon_range[0] >= lon_range[1]:
      lon_end += 360
    self._lon_bins = np.arange(
        lon_range[0], lon_end + self._degrees, self._degrees
    )
'''], ['''    for i in range(len(self._lat_bins) - 1):
      lat_start = self._lat_bins[i]
      mask = _create_lat_mask(
          lat=statistic.latitude,
          lat_lims=(lat_start, lat_start + self._degrees),
      )
''', '''    first, last = lon_range
    wraps = first >= last
    stop = last + 360 if wraps else last
    self._lon_bins = np.arange(first, stop + degrees, degrees)
''']),
    ('bin-time-unit-table', PB, B, ['''    coord = time_coord.dt.total_seconds()
    if unit == 'minute':
      coord = coord // (60)
    elif unit == 'hour':
      coord = coord // (60 * 60)
    elif unit == 'day':
      coord = coord // (60 * 60 * 24)
    elif unit == 'week':
      coord = coord // (60 * 60 * 24 * 7)
    elif unit == 'year':
      coord = coord // (60 * 60 * 24 * 365)
    elif unit != 'second':
      raise ValueError(f'Unsupported unit for timedelta: {unit}')
'''], ['''    minute = 60
    hour = 60 * minute
    day = 24 * hour
    seconds_in_unit = {
        'minute': minute,
        'hour': hour,
        'day': day,
        'week': 7 * day,
        'year': 365 * day,
    }
    coord = dt.total_seconds()
    if unit in seconds_in_unit:
      coord = coord // seconds_in_unit[unit]
    elif unit != 'second':
      raise ValueError(f'Unsupported unit for timedelta: {unit}')
''']),
    ('bin-seconds-defaults', PB, B, ['''    coord = statistic[self.time_dim]
    bins = self.bins

    if self.unit == 'second':
      bins = bins if bins is not None else np.arange(0, 60)
    elif self.unit == 'minute':
      coord = coord // (60)
      bins = bins if bins is not None else np.arange(0, 60)
    elif self.unit == 'hour':
      coord = coord // (60 * 60)
      bins = bins if bins is not None else np.arange(0, 24)
    else:
      raise ValueError(f'Unsupported unit: {self.unit}')
'''], ['''    coord = statistic[self.time_dim]
    if self.unit == 'second':
      num_bins = 60
    elif self.unit == 'minute':
      coord = coord // 60
      num_bins = 60
    elif self.unit == 'hour':
      coord = coord // 3600
      num_bins = 24
    else:
      raise ValueError(f'Unsupported unit: {self.unit}')
    bins = self.bins
    if bins is None:
      bins = np.arange(num_bins)
''']),
    ('bin-sets-shared', PB, B, ['''    masks = []
    for name, s in self.sets.items():
      if isinstance(s, (Sequence,)) and not isinstance(s, str):
        s = list(s)
      else:
        s = [s]
      s = np.array(s)
      mask = time_unit_values.isin(s)
      mask = mask.expand_dims(self.bin_dim_name, axis=0)
      mask.coords[self.bin_dim_name] = [name]
      masks.append(mask)

    if self.add_global_bin:
      mask = xr.full_like(time_unit_values, True, dtype=bool).expand_dims(
          self.bin_dim_name
      )
      mask.coords[self.bin_dim_name] = ['global']
      masks.append(mask)

    return xr.concat(masks, self.bin_dim_name)
''', '''      # Convert s to a numpy array to handle different input types and
      # ensure compatibility with isin and JAX.
      if isinstance(s, (Sequence,)) and not isinstance(s, str):
        s = list(s)
      else:
        s = [s]
      s = np.array(s)
      mask = statistic[self.coord_name].isin(s)
      mask = mask.expand_dims(self.bin_dim_name, axis=0)
      mask.coords[self.bin_dim_name] = [name]
      masks.append(mask)
''', '''class ByTimeUnitSets(Binning):
'''], ['''    masks = [
        self._bin(time_unit_values.isin(_set_values(s)), name)
        for name, s in self.sets.items()
    ]
    if self.add_global_bin:
      everything = xr.full_like(time_unit_values, True, dtype=bool)
      masks.append(self._bin(everything, 'global'))
    return xr.concat(masks, self.bin_dim_name)

  def _bin(self, mask, label):
    mask = mask.expand_dims(self.bin_dim_name, axis=0)
    mask.coords[self.bin_dim_name] = [label]
    return mask
''', '''      mask = statistic[self.coord_name].isin(_set_values(s))
      mask = mask.expand_dims(self.bin_dim_name, axis=0)
      mask.coords[self.bin_dim_name] = [name]
      masks.append(mask)
''', '''def _set_values(s):
  """The values of a set as an array, also for single values and strings."""
  if isinstance(s, str) or not isinstance(s, Sequence):
    return np.array([s])
  return np.array(list(s))


class ByTimeUnitSets(Binning):
''']),
    ('bin-coordbins', PB, B, ['''    masks = []

    # TODO(srasp): Potentially optimize using np.digitize.
    for start, stop in zip(self.bin_edges[:-1], self.bin_edges[1:]):
      mask = np.logical_and(
          statistic.coords[self.dim_name] >= start,
          statistic.coords[self.dim_name] < stop,
      )
      mask = mask.drop([self.dim_name]).expand_dims(self.dim_name, axis=0)
      coord_val = str(start) if self.add_global_bin else start
      mask.coords[self.dim_name] = np.array([coord_val])
''', '''    if not masks:  # Catch possibility of empty input arrays.
      dtype''', '''      return masks
    else:
      return xr.concat(masks, self.dim_name)
'''], ['''    coord = statistic.coords[self.dim_name]
    masks = []

    for i, start in enumerate(self.bin_edges[:-1]):
      stop = self.bin_edges[i + 1]
      in_bin = (coord >= start) & (coord < stop)
      mask = in_bin.drop([self.dim_name]).expand_dims(self.dim_name, axis=0)
      if self.add_global_bin:
        label = str(start)
      else:
        label = start
      mask.coords[self.dim_name] = np.array([label])
''', '''    if masks:
      return xr.concat(masks, self.dim_name)
    else:  # Catch possibility of empty input arrays.
      dtype''', '''      return masks
''']),
    ('bin-vectorized', PB, B, ['''  unique_coord = np.unique(coord)
  ndims = len(coord.dims)
  # Use vectorized equal. This also works in the case of empty statistic.
  masks = xr.DataArray(
      np.equal(coord.values, unique_coord.reshape((-1,) + (1,) * ndims)),
      coords={bin_dim_name: unique_coord}
      | {dim: coord[dim] for dim in coord.dims},
      dims=[bin_dim_name] + list(coord.dims),
  )
  if add_global_bin:
''', '''    masks = xr.concat([mask, masks], dim=bin_dim_name)
  return masks


class ByExactCoord'''], ['''  labels = np.unique(coord)
  column = labels.reshape((-1,) + (1,) * coord.ndim)
  coords = {bin_dim_name: labels}
  for dim in coord.dims:
    coords[dim] = coord[dim]
  masks = xr.DataArray(
      coord.values == column,
      dims=[bin_dim_name, *coord.dims],
      coords=coords,
  )
  if not add_global_bin:
    return masks
  else:
''', '''    return xr.concat([mask, masks], dim=bin_dim_name)


class ByExactCoord''']),
    ('bin-regions-land', PB, B, ['''    if self._land_sea_mask is not None:
      assert np.array_equal(
          np.sort(masks.latitude), np.sort(self._land_sea_mask.latitude)
      ) and np.array_equal(
          masks.longitude, self._land_sea_mask.longitude
      ), 'Land/sea mask coordinates do not match.'
      land_masks = masks * self._land_sea_mask.astype(bool)
      region_names = [f'{r}_land' for r in masks.coords[self.bin_dim_name].data]
      land_masks.coords[self.bin_dim_name] = np.array(region_names)
      masks = xr.concat([masks, land_masks], dim=self.bin_dim_name)
    return masks
'''], ['''    land = self._land_sea_mask
    if land is None:
      return masks
    same_latitudes = np.array_equal(
        np.sort(masks.latitude), np.sort(land.latitude)
    )
    same_longitudes = np.array_equal(masks.longitude, land.longitude)
    assert (
        same_latitudes and same_longitudes
    ), 'Land/sea mask coordinates do not match.'
    dim = self.bin_dim_name
    land_masks = masks * land.astype(bool)
    land_masks.coords[dim] = np.array(
        [str(name) + '_land' for name in masks.coords[dim].data]
    )
    return xr.concat([masks, land_masks], dim=dim)
''']),
    ('interp-kwargs', PI, I, ['''  if extrapolate_out_of_bounds:
    # See xarray documentation for interpolation behaviour.
    # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
    if len(dim_args) > 1:
      # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interpn.html
      interp_kwargs = {'fill_value': None}
    else:
      # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interp1d.html
      interp_kwargs = {'fill_value': 'extrapolate'}
  else:
    interp_kwargs = None

  out = da.interp(
      **dim_args,
      method=method,
      kwargs=interp_kwargs,
  )  # pytype: disable=wrong-arg-types
  return out
''', '''    da = da.sortby('longitude', ascending=True)
    da = da.sortby('latitude', ascending=True)
    da = da.sel(
        latitude=slice(self._lat_min, self._lat_max),
        longitude=slice(self._lon_min, self._lon_max),
    )
    return da
''', '''  left = da.isel(longitude=[-1])
  left = left.assign_coords(longitude=left.longitude.values - 360)
  right = da.isel(longitude=[0])
  right = right.assign_coords(longitude=right.longitude.values + 360)
  return xr.concat([left, da, right], 'longitude')
'''], ['''  kwargs = None
  if extrapolate_out_of_bounds:
    fill_value = 'extrapolate' if len(dim_args) <= 1 else None
    kwargs = dict(fill_value=fill_value)
  return da.interp(**dim_args, method=method, kwargs=kwargs)
''', '''    latitudes = slice(self._lat_min, self._lat_max)
    longitudes = slice(self._lon_min, self._lon_max)
    in_order = da.sortby('longitude').sortby('latitude')
    return in_order.sel({'latitude': latitudes, 'longitude': longitudes})
''', '''  def shifted(column, by):
    edge = da.isel(longitude=[column])
    return edge.assign_coords(longitude=edge.longitude.values + by)

  return xr.concat([shifted(-1, -360), da, shifted(0, 360)], dim='longitude')
''']),
    ('interp-reference', PI, I, ['''    if self._clip_reference_coords is not None:
      for coord in self._clip_reference_coords:
        # Not a slice, which is empty for coordinates in descending order.
        within = np.logical_and(
            reference[coord].values >= da[coord].values.min(),
            reference[coord].values <= da[coord].values.max(),
        )
        reference = reference.isel({coord: within})
''', '''    if self._dims is None:
      dims = [d for d in da.dims if d in reference.coords]
    else:
      dims = self._dims
''', '''    dim_args = {dim: reference[dim] for dim in dims}

    da_like_reference = interpolate_to_coords(
        da,
        dim_args,
        self._method,
        self._extrapolate_out_of_bounds,
    )
    return da_like_reference
'''], ['''    for coord in self._clip_reference_coords or ():
      # Not a slice, which is empty for coordinates in descending order.
      available = da[coord].values
      wanted = reference[coord].values
      inside = (wanted >= available.min()) & (wanted <= available.max())
      reference = reference.isel({coord: inside})
''', '''    dims = self._dims
    if dims is None:
      dims = []
      for d in da.dims:
        if d in reference.coords:
          dims.append(d)
''', '''    return interpolate_to_coords(
        da,
        dim_args=dict((dim, reference[dim]) for dim in dims),
        method=self._method,
        extrapolate_out_of_bounds=self._extrapolate_out_of_bounds,
    )
''']),
    ('interp-altitude', PI, I, ['''    if da.name in ['2m_temperature', '10m_wind_speed']:
      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())

    da_like_reference = super().interpolate_data_array(da, reference)
    if da.name in ['2m_temperature', '10m_wind_speed']:
      # Positive''', '''      if da.name == '2m_temperature':
        adjustment = sparse_higher_than_grid_m * LAPSE_RATE_K_PER_M
        da_like_reference = da_like_reference + adjustment
      elif da.name == '10m_wind_speed':
        # Only adjust stations > 100m above model orography.
        adjustment_factor = xr.ones_like(sparse_higher_than_grid_m)
        # Subtract 100m from the difference. I couldn't find this in the paper
        # but it does make sense so that the different regimes overlap.
        dz = sparse_higher_than_grid_m - 100
        adjustment_factor = adjustment_factor.where(
            sparse_higher_than_grid_m < 100,
            1 + 0.002 * dz,
        )
        adjustment_factor = adjustment_factor.where(
            sparse_higher_than_grid_m < 1100, 3
        )
        da_like_reference = da_like_reference * adjustment_factor
    return da_like_reference
'''], ['''    adjusted = da.name in ('2m_temperature', '10m_wind_speed')
    if adjusted:
      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())

    da_like_reference = super().interpolate_data_array(da, reference)
    if adjusted:
      # Positive''', '''      if da.name == '2m_temperature':
        return da_like_reference + LAPSE_RATE_K_PER_M * sparse_higher_than_grid_m
      return da_like_reference * self._wind_factor(sparse_higher_than_grid_m)
    return da_like_reference

  def _wind_factor(self, height):
    """Only adjust stations > 100m above model orography."""
    below = height < 100
    moderate = height < 1100
    factor = xr.ones_like(height).where(below, 1 + 0.002 * (height - 100))
    return factor.where(moderate, 3)
''']),
    ('spatial-edges', PS, S, ['''  if neighborhood_size == 1:
    return x
  if neighborhood_size % 2 != 1:
    raise ValueError('neighborhood_size must be odd.')
  half_n = (neighborhood_size - 1) // 2
''', '''  out = ndimage.convolve1d(x.astype(np.float32), kernel, mode='wrap', axis=0)
  out = ndimage.convolve1d(out, kernel, mode='wrap', axis=1)
''', '''  out[:half_n] = 0
  out[-half_n:] = 0
  # If wrap_longitude is False, set longitude edges to zero.
  if not wrap_longitude:
    out[:, :half_n] = 0
    out[:, -half_n:] = 0
  return out
'''], ['''  if neighborhood_size == 1:
    return x
  if neighborhood_size % 2 == 0:
    raise ValueError('neighborhood_size must be odd.')
  half_n = neighborhood_size // 2
''', '''  out = x.astype(np.float32)
  for axis in (0, 1):
    out = ndimage.convolve1d(out, kernel, axis=axis, mode='wrap')
''', '''  out[:half_n, :] = 0
  out[-half_n:, :] = 0
  # Longitudes only have edges if they do not wrap around.
  if wrap_longitude:
    return out
  out[:, :half_n] = 0
  out[:, -half_n:] = 0
  return out
''']),
    ('spatial-averaging', PS, S, ['''  if isinstance(neighborhood_size, Iterable):
    return xr.concat(
        [
            neighborhood_averaging_for_single_size(da, n, wrap_longitude)
            for n in neighborhood_size
        ],
        dim=xr.DataArray(neighborhood_size, dims=['neighborhood_size']),
    )
  else:
    return neighborhood_averaging_for_single_size(
        da, neighborhood_size, wrap_longitude
    )
''', '''  if isinstance(neighborhood_size, Iterable):
    suffix = ','.join([str(t) for t in neighborhood_size])
  else:
    suffix = str(neighborhood_size)
  if wrap_longitude:
    suffix += '_wrap_longitude'
  return suffix
''', '''    predictions = neighborhood_averaging(
        predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
    )
    targets = neighborhood_averaging(
        targets, self.neighborhood_size_in_pixels, self.wrap_longitude
    )
    return (predictions - targets) ** 2
'''], ['''  if not isinstance(neighborhood_size, Iterable):
    return neighborhood_averaging_for_single_size(
        da, neighborhood_size, wrap_longitude
    )
  averages = []
  for size in neighborhood_size:
    averages.append(
        neighborhood_averaging_for_single_size(
            da, neighborhood_size=size, wrap_longitude=wrap_longitude
        )
    )
  sizes = xr.DataArray(neighborhood_size, dims=['neighborhood_size'])
  return xr.concat(averages, sizes)
''', '''  many = isinstance(neighborhood_size, Iterable)
  sizes = ','.join(map(str, neighborhood_size)) if many else str(neighborhood_size)
  return f'{sizes}_wrap_longitude' if wrap_longitude else sizes
''', '''    def fractions(da):
      return neighborhood_averaging(
          da, self.neighborhood_size_in_pixels, self.wrap_longitude
      )

    return np.square(fractions(predictions) - fractions(targets))
''']),
    ('spatial-mask', PS, S, ['''    new_mask = neighborhood_averaging(
        da.mask.drop('mask'), neighborhood_size, wrap_longitude
    )
    # This should be new_mask == 1 but there are some rounding errors in
    # convolve2d, so that this fails. Therefore, we use isclose.
    new_mask = np.isclose(new_mask, True)
    out.coords['mask'][:] = new_mask.astype(bool)
  return out
''', '''      lambda x: convolve2d_wrap_longitude(x, neighborhood_size, wrap_longitude),
''', '''import dataclasses
'''], ['''    fraction_valid = neighborhood_averaging(
        da.coords['mask'].drop('mask'), neighborhood_size, wrap_longitude
    )
    # This should be fraction_valid == 1 but there are some rounding errors in
    # convolve2d, so that this fails. Therefore, we use isclose.
    out.coords['mask'][:] = np.isclose(fraction_valid, True).astype(bool)
  return out
''', '''      functools.partial(
          convolve2d_wrap_longitude,
          neighborhood_size=neighborhood_size,
          wrap_longitude=wrap_longitude,
      ),
''', '''import dataclasses
import functools
''']),
]

CASES = [c + (0,) for c in CASES]
