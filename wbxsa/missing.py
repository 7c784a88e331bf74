"""What a missing input value does to a value graph.

For one data input X the abstract value of a term says what the term is at a
cell computed from a cell where X is missing (NaN):

  clean  does not depend on the values of X (a constant, another input, a
         size, a name, a coordinate, an option)
  nan    is missing
  NAN    is missing whatever X is (the constant NaN)
  T, F   is true / is false: a comparison with a missing value is false,
         isnull is true
  bad    depends on X but can be an ordinary value
  unk    not decided (a function outside the tables below)

A statistic propagates missing values of X if it is `clean` or `nan`.
"""

from __future__ import annotations

from . import terms as tm
from .terms import T

NUMERIC = ('bad', 'T', 'F')

# fn() names that give NaN for NaN.
FN_KEEP = {'abs', 'exp', 'log', 'sin', 'cos', 'deg2rad', 'sign', 'floor',
           'ceil', 'maximum', 'minimum', 'sqrt'}
# External functions: NaN in any array argument gives NaN.
KEEP = frozenset('''
scipy.stats.wasserstein_distance scipy.ndimage.convolve1d scipy.ndimage.convolve
scipy.ndimage.uniform_filter scipy.ndimage.uniform_filter1d
scipy.signal.convolve2d scipy.signal.fftconvolve scipy.fft.fft2 scipy.fft.fftn
numpy.convolve numpy.fft.fft numpy.fft.fft2 numpy.fft.ifft2
numpy.tan numpy.arcsin numpy.arccos numpy.arctan numpy.arctan2 numpy.tanh
numpy.sinh numpy.cosh numpy.log1p numpy.log10 numpy.log2 numpy.expm1 numpy.exp2
numpy.cbrt numpy.reciprocal numpy.hypot numpy.round numpy.rint numpy.trunc
numpy.around numpy.rad2deg numpy.degrees numpy.clip numpy.float_power
numpy.cumsum numpy.cumprod numpy.diff numpy.gradient numpy.dot numpy.matmul
numpy.einsum numpy.tensordot numpy.inner numpy.outer numpy.interp numpy.ptp
numpy.average numpy.percentile numpy.quantile numpy.fmod
jax.numpy.asarray numpy.asarray numpy.array numpy.ascontiguousarray
numpy.broadcast_to numpy.broadcast_arrays numpy.expand_dims numpy.squeeze
numpy.reshape numpy.transpose numpy.swapaxes numpy.moveaxis numpy.ravel
numpy.roll numpy.flip numpy.tile numpy.repeat numpy.take numpy.copy
numpy.concatenate numpy.stack numpy.hstack numpy.vstack numpy.pad
numpy.atleast_1d numpy.atleast_2d numpy.split numpy.float32 numpy.float64
builtins.float
xarray.concat xarray.DataArray xarray.Variable xarray.broadcast xarray.align
xarray.merge xarray.Dataset xarray.polyval xarray.cov xarray.corr
builtins.dict builtins.list builtins.tuple builtins.sum builtins.reversed
builtins.iter builtins.next builtins.sorted builtins.zip builtins.enumerate
copy.copy copy.deepcopy dataclasses.replace
'''.split())
# Comparisons and tests that are false for NaN.
FALSE_FOR_NAN = frozenset('''
numpy.isfinite numpy.isinf numpy.isposinf numpy.isneginf math.isfinite
math.isinf numpy.isclose math.isclose numpy.allclose numpy.array_equal
numpy.isin numpy.in1d
'''.split())
# Functions that turn NaN into an ordinary value.
ERASE = frozenset('''
numpy.nan_to_num numpy.fmax numpy.fmin numpy.nanmean numpy.nansum numpy.nanmax
numpy.nanmin numpy.nanstd numpy.nanvar numpy.nanmedian numpy.nanprod
numpy.nanquantile numpy.nanpercentile numpy.nancumsum numpy.nancumprod
numpy.nanargmax numpy.nanargmin numpy.argsort numpy.argmax numpy.argmin
numpy.lexsort numpy.searchsorted numpy.digitize numpy.histogram
numpy.histogram2d numpy.histogramdd numpy.bincount numpy.count_nonzero
numpy.unique numpy.sort numpy.partition numpy.argpartition numpy.nonzero
numpy.flatnonzero numpy.argwhere numpy.int32 numpy.int64 numpy.heaviside
numpy.signbit builtins.int builtins.max builtins.min builtins.round
scipy.stats.rankdata
'''.split())
# Results that do not depend on the values of their arguments.
SHAPE = frozenset('''
xarray.zeros_like xarray.ones_like xarray.full_like numpy.zeros_like
numpy.ones_like numpy.full_like numpy.empty_like numpy.shape numpy.ndim
numpy.size builtins.len builtins.type builtins.id builtins.range
'''.split())
REDUCE_SKIPS = {'mean', 'sum', 'std', 'var', 'min', 'max', 'median', 'prod'}
ARRAY_METHODS_KEEP = frozenset('''
sel isel rename expand_dims compute load clip copy drop_vars assign_coords
transpose squeeze diff where interp reindex stack unstack set_index reset_index
swap_dims rename_dims rename_vars broadcast_like reindex_like chunk sortby
shift roll pad to_dataset to_dataarray to_array reset_coords drop_dims
differentiate integrate interp_like head tail thin loc drop_sel drop_isel
assign_attrs assign persist round conj dot reshape ravel flatten swapaxes
to_numpy item tolist get pop values items pipe drop pow astype
isel_points set_coords broadcast_equals max_
'''.split())
ARRAY_METHODS_ERASE = frozenset('''
dropna ffill bfill interpolate_na rank argsort searchsorted isin nonzero count
argmax argmin idxmax idxmin
'''.split())
SKIPPING = {'quantile', 'cumsum', 'cumprod'}


def join(a, b):
  """One of the two, by a choice that does not depend on X."""
  if a == b:
    return a
  s = {a, b}
  if 'bad' in s or s & {'T', 'F'}:
    return 'bad'
  if 'unk' in s:
    return 'unk'
  if s == {'nan', 'NAN'}:
    return 'nan'
  if 'nan' in s:
    return 'nan'
  return 'clean'  # clean, NAN


def chosen(v):
  """The value is picked because X is missing."""
  return {'clean': 'bad', 'NAN': 'nan', 'T': 'bad', 'F': 'bad'}.get(v, v)


def choose(c, a, b):
  if c == 'T' or c == 'nan':
    return chosen(a)
  if c == 'F':
    return chosen(b)
  if c in ('clean', 'NAN'):
    return join(a, b)
  if a in ('nan', 'NAN') and b in ('nan', 'NAN'):
    return 'nan'
  return c  # bad, unk


def combine(vs):
  """A numeric operation that gives NaN for NaN."""
  vs = list(vs)
  if 'nan' in vs:
    return 'nan'
  if 'NAN' in vs:
    return 'NAN'
  if any(v in NUMERIC for v in vs):
    return 'bad'
  if 'unk' in vs:
    return 'unk'
  return 'clean'


class Missing:

  def __init__(self, x, tree=False):
    self.x = x
    self.tree = tree  # x is a mapping of arrays
    self.names = set()  # bound variables that run over dimension names
    self.why = {}  # term -> what turned its missing operand into a value

  def value(self, t):
    return self.ev(t, {}, {})

  # ------------------------------------------------------------------

  def ev(self, t, env, memo):
    r = memo.get(t)
    if r is None:
      r = memo[t] = self._ev(t, env, memo)
    return r

  def erased(self, t, text):
    self.why.setdefault(t, text)
    return 'bad'

  def all(self, ts, env, memo):
    return [self.ev(x, env, memo) for x in ts]

  def compared(self, t, vs):
    if 'nan' in vs:
      return 'T' if t.op == 'ne' else 'F'
    if any(v in NUMERIC for v in vs):
      return 'bad'
    return 'unk' if 'unk' in vs else 'clean'

  def _ev(self, t, env, memo):
    op = t.op
    a = t.args
    if t is self.x:
      return 'nan'
    if t in env:
      return env[t]
    if t is tm.NAN or op == 'num' and a[0] != a[0]:
      return 'NAN'
    if not tm.contains(t, self.x) and not any(
        v != 'clean' and tm.contains(t, b) for b, v in env.items()):
      return 'clean' if not self.is_nan_const(t) else 'NAN'
    if op in ('sum',):
      return combine(self.all([m for m, _ in a[1]], env, memo))
    if op == 'prod':
      return combine(self.all([y for b, e in a[0] for y in (b, e)
                               if isinstance(y, T)], env, memo))
    if op in ('lt', 'le', 'eq', 'ne'):
      return self.compared(t, self.all(a, env, memo))
    if op == 'isnull':
      v = self.ev(a[0], env, memo)
      return {'nan': 'T', 'NAN': 'clean', 'T': 'clean', 'F': 'clean'}.get(v, v)
    if op in ('inv', 'not'):
      v = self.ev(a[0], env, memo)
      return {'T': 'F', 'F': 'T', 'nan': 'F'}.get(v, v)
    if op == 'truth':
      v = self.ev(a[0], env, memo)
      return {'nan': 'T', 'NAN': 'clean'}.get(v, v)
    if op in ('band', 'and'):
      vs = self.all(a, env, memo)
      if 'F' in vs:
        return 'F'
      if set(vs) <= {'clean', 'NAN'}:
        return 'clean'
      if set(vs) <= {'T', 'nan'}:
        return 'T'
      return 'unk' if 'unk' in vs else 'bad'
    if op in ('bor', 'or'):
      vs = self.all(a, env, memo)
      if 'T' in vs or 'nan' in vs:
        return 'T'
      if set(vs) <= {'clean', 'NAN'}:
        return 'clean' if 'NAN' not in vs else 'T'
      if set(vs) <= {'F'}:
        return 'F'
      return 'unk' if 'unk' in vs else 'bad'
    if op in ('where', 'ite'):
      c, x, y = self.all(a, env, memo)
      r = choose(c, x, y)
      if r == 'bad' and 'nan' in (x, y):
        self.why.setdefault(t, 'replaced by a value')
      elif r == 'bad' and c in ('T', 'F'):
        self.why.setdefault(t, 'decided by a comparison with a missing value')
      return r
    if op == 'astype':
      v = self.ev(a[0], env, memo)
      ty = a[1].args[1] if a[1].op == 'const' else None
      if v in ('nan', 'NAN') and isinstance(ty, str) and not ty.startswith(
          ('float', 'f', 'complex', 'object')):
        return self.erased(t, f'cast to {ty}')
      return v
    if op == 'reduce':
      return self.reduce(t, env, memo)
    if op == 'fn':
      vs = self.all(a[1:], env, memo)
      if a[0] in FN_KEEP:
        return combine(vs)
      if a[0] in ('max2', 'min2') and combine(vs) == 'nan':
        return self.erased(t, f'{a[0][:3]} of a missing value')
      return 'unk' if combine(vs) != 'clean' else 'clean'
    if op in ('floordiv', 'mod', 'matmul', 'group', 'zero_times', 'pow', 'div0'):
      return combine(self.all(a, env, memo))
    if op == 'dot':
      return combine(self.all(tm.children(t), env, memo))
    if op in ('hascoord', 'hasattr', 'isinstance', 'memb', 'len', 'issubset',
              'is', 'callable', 'dict_keys', 'fstr', 'repr'):
      return 'clean'
    if op == 'attr':
      v = self.ev(a[0], env, memo)
      return v if a[1] in ('values', 'data', 'T', 'loc', 'real', 'variable',
                           'flat') else 'clean'
    if op == 'index':
      return self.index(t, env, memo)
    if op == 'withitem':
      base, idx, val = self.all(a[:3], env, memo) if len(a) >= 3 else (
          'unk',) * 3
      return choose(idx if idx in ('T', 'F', 'bad', 'unk') else 'clean', val,
                    base)
    if op == 'withitems':
      return choose('clean', self.ev(a[1], env, memo), self.ev(
          a[0], env, memo))
    if op in ('dict', 'list', 'tuple', 'set'):
      return self.parts(a, env, memo)
    if op in ('dict_values', 'dict_items', 'splat', 'dsplat', 'item', 'zip',
              'setfield'):
      return self.parts([x for x in a if isinstance(x, T)], env, memo)
    if op == 'kv':
      return self.ev(a[1], env, memo)
    if op == 'slice':
      return 'clean'
    if op == 'treemap':
      return self.apply(a[0], list(a[1]), env, memo)
    if op == 'call':
      return self.call(t, env, memo)
    if op == 'fold':
      return self.fold(t, env, memo)
    return 'unk'

  def fold(self, t, env, memo):
    """Repeated application; the accumulators reach a fixed point."""
    acc = self.all(t.args[0], env, memo)
    for _ in range(6):
      e2 = dict(env)
      for i, v in enumerate(acc):
        e2[tm.mk('accv', i)] = v
      comp = t.args[1]
      item = comp.args[2] if comp.op == 'comp' and len(comp.args) == 3 else None
      if item is None or item.op != 'item' or item.args[0].op != 'foldbody':
        return 'unk'
      e2[comp.args[0]] = self.binder(comp, env, memo)
      new = self.all(item.args[0].args, e2, {})
      new = [join(a, b) for a, b in zip(acc, new)]
      if new == acc:
        break
      acc = new
    return acc[0]

  def is_nan_const(self, t):
    return t is tm.NAN

  def parts(self, segs, env, memo):
    out = 'clean'
    first = True
    for s in segs:
      v = self.seg(s, env, memo)
      out = v if first else join(out, v)
      first = False
    return out

  def seg(self, s, env, memo):
    if s.op in ('item', 'splat', 'dsplat'):
      return self.ev(s.args[0], env, memo)
    if s.op == 'kv':
      return self.ev(s.args[1], env, memo)
    if s.op == 'guard':
      return self.parts(s.args[1:], env, memo)
    if s.op == 'comp':
      b = s.args[0]
      e2 = dict(env)
      e2[b] = self.binder(s, env, memo)
      return self.parts(s.args[2:], e2, {})
    return self.ev(s, env, memo)

  def binder(self, comp, env, memo):
    it = comp.args[1]
    v = self.ev(it, env, memo)
    if v == 'clean' and (it.op == 'param' or it.op == 'attr' and it.args[1] in (
        'dims', 'coords')):
      self.names.add(comp.args[0])
    return v

  def index(self, t, env, memo):
    base, k = t.args[0], t.args[1]
    if base.op == 'dict' and all(s.op == 'kv' for s in base.args):
      return self.parts(base.args, env, memo)
    v = self.ev(base, env, memo)
    if v == 'clean':
      return v
    if (tm.is_str(k) or k in self.names) and not self.container(base):
      return 'clean'  # a coordinate of an array
    c = self.ev(k, env, memo)
    if c == 'F':
      return self.erased(t, 'dropped by a selection')
    if c in ('bad', 'unk'):
      return c
    return v

  def container(self, t):
    return t.op in ('dict', 'treemap', 'setfield') or (
        t.op == 'in' and t is self.x and self.tree) or (
            t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in (
                'compute', 'statistics', 'values_from_mean_statistics',
                'transform_fn'))

  def reduce(self, t, env, memo):
    name, x, kw = t.args
    v = self.ev(x, env, memo)
    kwd = dict(kw)
    if name in ('any', 'all'):
      if v == 'nan':
        v = 'T'
      if name == 'any':
        return {'F': 'bad', 'NAN': 'clean'}.get(v, v)
      return {'T': 'bad', 'NAN': 'clean'}.get(v, v)
    if v in ('clean', 'NAN', 'unk'):
      return v
    if v in NUMERIC:
      return 'bad'
    if name in ('count', 'argmax', 'argmin', 'idxmax', 'idxmin', 'nanmean',
                'nansum'):
      return self.erased(t, f'{name} over present values only')
    s = kwd.get('skipna')
    if s is None and 'axis' in kwd:
      return 'unk'  # numpy arrays propagate, xarray skips
    if s is None and env.get('ndarray'):
      return 'nan'
    if s is tm.FALSE:
      return 'nan'
    if s is None or s is tm.NONE or s is tm.TRUE:
      return self.erased(t, f'{name} skips missing values'
                         + ('' if s is tm.TRUE else ' by default'))
    return 'unk'

  def apply(self, fn, args, env, memo, ndarray=False):
    vs = self.all(args, env, memo)
    if fn.op == 'fold' and len(fn.args[0]) == 1 and lifts(fn):
      fn = fn.args[0][0]
    if fn.op == 'lam':
      bs, body = fn.args[1], fn.args[2]
      e2 = dict(env)
      if ndarray:
        e2['ndarray'] = 'clean'
      vs = vs + ['clean'] * len(bs)
      for b, v in zip(bs, vs):
        e2[b] = v
      return self.ev(body, e2, {})
    d = fn.args[0] if fn.op == 'ext' else None
    return self.external(fn, d, vs)

  def external(self, t, d, vs):
    v = combine(vs)
    if v in ('clean', 'NAN') or d in SHAPE:
      return 'clean'
    if d in KEEP:
      return v
    if d in FALSE_FOR_NAN:
      return 'F' if v == 'nan' else v
    if d in ERASE:
      return self.erased(t, f'{d} gives a value for a missing value')
    return 'unk' if v != 'bad' else 'bad'

  def call(self, t, env, memo):
    fn, pos, kw = t.args
    kwd = dict(kw)
    if fn.op == 'ext':
      d = fn.args[0]
      if d == 'xarray.apply_ufunc':
        return self.apply(pos[0], list(pos[1:]), env, memo, True)
      if d in ('xarray.concat', 'xarray.merge', 'numpy.concatenate',
               'numpy.stack', 'builtins.zip') and pos:
        return join_all(self.all(pos[:1], env, memo))
      if d in ('numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.arange',
               'numpy.full'):
        return 'clean'
      if d in ('builtins.map',):
        return self.apply(pos[0], list(pos[1:]), env, memo)
      vs = self.all([p for p in pos], env, memo)
      vs += self.all([v for k, v in kw if k not in ('coords', 'dims', 'dim',
                                                    'dtype', 'attrs')],
                     env, memo)
      return self.external(t, d, vs)
    if fn.op == 'func':
      vs = self.all(list(pos) + [v for _, v in kw], env, memo)
      v = combine(vs)
      return v if v in ('clean', 'bad') else (
          'nan' if fn.args[0].startswith('wbxspec.') else 'unk')
    if fn.op == 'attr':
      return self.method(t, fn.args[0], fn.args[1], pos, kwd, env, memo)
    v = combine(self.all(list(pos) + [v for _, v in kw], env, memo))
    if v in ('clean', 'bad'):
      return v
    if free_option(fn):
      return v  # a function the caller supplies
    return 'unk'

  def method(self, t, base, name, pos, kwd, env, memo):
    b = self.ev(base, env, memo)
    args = self.all(list(pos) + [v for k, v in kwd.items()
                                 if k not in ('dim', 'dims', 'coords')], env,
                    memo)
    if b in ('clean', 'NAN') and all(v in ('clean', 'NAN') for v in args):
      return 'clean'
    if b == 'clean' and free_option(base):
      return combine(args)  # a component the caller supplies
    if name == 'copy' and 'data' in kwd:
      return self.ev(kwd['data'], env, memo)
    if name in SKIPPING and b == 'nan':
      s = kwd.get('skipna')
      if s is tm.FALSE:
        return 'nan'
      if s is None or s is tm.NONE or s is tm.TRUE:
        return self.erased(t, f'{name} skips missing values')
      return 'unk'
    if name in ARRAY_METHODS_ERASE and b == 'nan':
      return self.erased(t, f'{name} gives a value for a missing value')
    if name in ARRAY_METHODS_KEEP:
      if name in ('sel', 'isel', 'reindex', 'shift', 'roll', 'interp') or (
          name in ('assign_coords', 'expand_dims', 'set_coords',
                   'assign_attrs', 'rename')):
        # selecting by labels computed from X is not followed
        if name in ('sel', 'isel') and any(v in ('nan', 'bad') for v in args):
          return 'unk'
        return b
      return combine([b] + args)
    if name in ('index',):
      return 'clean'
    return 'unk'


def join_all(vs):
  out = vs[0]
  for v in vs[1:]:
    out = join(out, v)
  return out


def lifts(fold):
  """Repeated jax.vmap of a function: the function on each cell."""
  return any(t.op == 'attr' and t.args[1] == 'vmap' or t.op == 'ext' and
             t.args[0].endswith('.vmap') for t in tm.walk(fold))


def free_option(t):
  """Part of an option: the caller's own function or component."""
  while t.op in ('attr', 'index'):
    t = t.args[0]
  return t.op in ('param', 'bv')
