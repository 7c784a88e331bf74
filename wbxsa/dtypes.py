"""Number types of value graphs: which of float, int, bool a term can be.

The abstract value of a term is a set drawn from {float, int, bool, unk};
`unk` stands for anything the tables do not cover. Data inputs are floating
point; options are unknown.
"""

from __future__ import annotations

import itertools

from . import terms as tm
from .missing import SHAPE, lifts
from .terms import T

FLOAT = frozenset({'float'})
INT = frozenset({'int'})
BOOL = frozenset({'bool'})
UNK = frozenset({'unk'})

ORDER = {'bool': 0, 'int': 1, 'float': 2}
KEEP_FN = {'abs', 'sign', 'floor', 'ceil', 'maximum', 'minimum', 'max2',
           'min2'}
FLOAT_PREFIX = ('scipy.', 'math.')
NP_FLOAT = frozenset('''
zeros ones empty linspace geomspace logspace sqrt exp log tan arctan2 tanh
hypot cbrt log1p log10 log2 expm1 average mean std var median interp percentile
quantile float32 float64 full_float
'''.split())
NP_INT = frozenset('arange argsort argmax argmin searchsorted digitize bincount'
                   ' count_nonzero histogram int32 int64'.split())
NP_BOOL = frozenset('isin isfinite isinf isclose logical_xor in1d'.split())
NP_KEEP = frozenset('''
asarray array ascontiguousarray broadcast_to expand_dims squeeze reshape
transpose swapaxes moveaxis ravel roll flip tile repeat take copy concatenate
stack hstack vstack pad clip round rint trunc nan_to_num fmax fmin sort cumsum
diff dot matmul einsum
'''.split())
KEEP = frozenset('''
sel isel rename expand_dims compute load clip copy drop_vars assign_coords
transpose squeeze diff reindex stack unstack set_index reset_index swap_dims
rename_dims rename_vars broadcast_like reindex_like chunk sortby shift roll pad
reset_coords drop_dims head tail thin drop_sel drop_isel assign_attrs persist
round set_coords cumsum cumprod to_numpy ravel reshape flatten swapaxes dropna
ffill bfill
'''.split())
FLOAT_METHODS = {'quantile', 'interp', 'rank', 'interp_like', 'differentiate',
                 'integrate', 'weighted'}


def named(name):
  if name.startswith(('float', 'f', 'double', '<f')):
    return FLOAT
  if name.startswith(('int', 'uint', 'i', 'u')):
    return INT
  if name.startswith('bool') or name == '?':
    return BOOL
  return UNK


def promote(*sets):
  out = set()
  for combo in itertools.islice(itertools.product(*sets), 4096):
    c = set(combo)
    if 'float' in c:
      out.add('float')
    elif 'unk' in c:
      out.add('unk')
    else:
      out.add(max(c, key=ORDER.get))
  return frozenset(out)


def cut(s):
  return s if len(s) else UNK


class Dtypes:

  def __init__(self, inputs):
    self.inputs = set(inputs)
    self.why = {}

  def value(self, t):
    return self.ev(t, {}, {})

  def ev(self, t, env, memo):
    r = memo.get(t)
    if r is None:
      memo[t] = UNK
      r = memo[t] = self._ev(t, env, memo)
      for k in ('bool', 'int'):
        if k in r and t.op not in ('num', 'const'):
          self.why.setdefault(k, []).append(t)
    return r

  def many(self, ts, env, memo):
    return promote(*[self.ev(x, env, memo) for x in ts]) if ts else UNK

  def union(self, ts, env, memo):
    out = frozenset()
    for x in ts:
      out |= self.ev(x, env, memo)
    return out or UNK

  def _ev(self, t, env, memo):
    op, a = t.op, t.args
    if t in env:
      return env[t]
    if t in self.inputs:
      return FLOAT
    if op == 'num':
      return FLOAT  # 1 and 1.0 are the same term
    if op == 'const':
      return {'nan': FLOAT, 'bool': BOOL, 'float': FLOAT}.get(a[0], UNK)
    if op in ('lt', 'le', 'eq', 'ne', 'isnull', 'inv', 'band', 'bor', 'and',
              'or', 'not', 'truth', 'memb', 'is', 'isinstance', 'hascoord'):
      return BOOL
    if op == 'sum':
      terms = []
      if a[0] != 0:
        terms.append(FLOAT)
      for m, k in a[1]:
        d = self.ev(m, env, memo)
        if k != 1:
          d = promote(d, FLOAT)
        terms.append(d)
      return promote(*terms)
    if op == 'prod':
      ds = []
      for b, e in a[0]:
        if e < 0 or e.denominator != 1:
          return FLOAT
        ds.append(self.ev(b, env, memo))
        if e != 1:
          ds[-1] = promote(ds[-1], INT)
      return promote(*ds)
    if op in ('zero_times', 'floordiv', 'mod', 'matmul', 'group'):
      return promote(self.many([x for x in a if isinstance(x, T)], env, memo),
                     INT if op == 'zero_times' else BOOL)
    if op == 'pow':
      return self.many(a, env, memo)
    if op == 'astype':
      return named(a[1].args[1]) if tm.is_str(a[1]) else UNK
    if op == 'where':
      x, y = self.ev(a[1], env, memo), self.ev(a[2], env, memo)
      if a[1] is tm.NAN and 'bool' in y:
        # DataArray.where gives objects, xr.where floats
        return (y - BOOL) | UNK
      return promote(x, y)
    if op == 'ite':
      return self.ev(a[1], env, memo) | self.ev(a[2], env, memo)
    if op == 'reduce':
      d = self.ev(a[1], env, memo)
      if a[0] in ('mean', 'std', 'var', 'median', 'nanmean'):
        return FLOAT
      if a[0] in ('any', 'all'):
        return BOOL
      if a[0] in ('count', 'argmax', 'argmin'):
        return INT
      if a[0] in ('sum', 'prod', 'nansum'):
        return promote(d, INT)
      return d
    if op == 'fn':
      if a[0] in KEEP_FN:
        return self.many(a[1:], env, memo)
      return FLOAT
    if op == 'dot':
      return self.many(list(a[0]), env, memo)
    if op == 'index':
      if a[0].op == 'dict' and all(s.op == 'kv' for s in a[0].args):
        return self.union([s.args[1] for s in a[0].args], env, memo)
      if tm.is_str(a[1]) and a[0] in self.inputs:
        return UNK  # a coordinate
      return self.ev(a[0], env, memo)
    if op == 'attr':
      return self.ev(a[0], env, memo) if a[1] in ('values', 'data', 'T') else (
          UNK)
    if op in ('withitem', 'withitems'):
      return self.ev(a[0], env, memo)
    if op in ('dict', 'list', 'tuple', 'set'):
      return self.parts(a, env, memo)
    if op in ('item', 'splat', 'dsplat', 'dict_values', 'setfield'):
      return self.ev(a[0], env, memo)
    if op == 'treemap':
      return self.apply(a[0], list(a[1]), env, memo)
    if op == 'call':
      return self.call(t, env, memo)
    return UNK

  def parts(self, segs, env, memo):
    ds = []
    for s in segs:
      if s.op == 'comp':
        e2 = dict(env)
        e2[s.args[0]] = self.ev(s.args[1], env, memo)
        ds.append(self.parts(s.args[2:], e2, {}))
      elif s.op == 'guard':
        ds.append(self.parts(s.args[1:], env, memo))
      elif s.op == 'kv':
        ds.append(self.ev(s.args[1], env, memo))
      else:
        ds.append(self.ev(s.args[0], env, memo))
    return frozenset().union(*ds) if ds else UNK

  def apply(self, fn, args, env, memo):
    if fn.op == 'fold' and len(fn.args[0]) == 1 and lifts(fn):
      fn = fn.args[0][0]
    if fn.op == 'lam':
      bs, body = fn.args[1], fn.args[2]
      e2 = dict(env)
      for i, b in enumerate(bs):
        e2[b] = self.ev(args[i], env, memo) if i < len(args) else UNK
      return self.ev(body, e2, {})
    if fn.op == 'ext':
      return self.external(fn.args[0], args, {}, env, memo)
    return UNK

  def call(self, t, env, memo):
    fn, pos, kw = t.args
    kwd = dict(kw)
    if 'dtype' in kwd and fn.op == 'ext':
      d = kwd['dtype']
      d = d.args[1] if tm.is_str(d) else d.args[0].split('.')[-1] if (
          d.op == 'ext') else ''
      return named(d) if d else UNK
    if fn.op == 'ext':
      if fn.args[0] == 'xarray.apply_ufunc':
        return self.apply(pos[0], list(pos[1:]), env, memo)
      return self.external(fn.args[0], list(pos), kwd, env, memo)
    if fn.op == 'attr':
      base, name = fn.args
      if name == 'compute' and pos:
        return FLOAT  # a statistic the caller supplies
      if name == 'copy' and 'data' in kwd:
        return self.ev(kwd['data'], env, memo)
      if name in FLOAT_METHODS:
        return FLOAT
      if name == 'isin':
        return BOOL
      if name in KEEP:
        return self.ev(base, env, memo)
      if name in ('transform_fn', 'interpolate_data_array'):
        return FLOAT
    b = fn
    while b.op in ('attr', 'index'):
      b = b.args[0]
    if b.op in ('param', 'bv') or fn.op == 'func' and fn.args[0].startswith(
        'wbxspec.'):
      return FLOAT  # a component the caller supplies
    return UNK

  def external(self, d, pos, kwd, env, memo):
    if d in ('xarray.zeros_like', 'xarray.ones_like', 'numpy.zeros_like',
             'numpy.ones_like', 'xarray.full_like', 'numpy.full_like',
             'numpy.empty_like'):
      return self.ev(pos[0], env, memo)
    if d in ('xarray.concat', 'xarray.merge', 'xarray.DataArray',
             'xarray.Variable', 'xarray.broadcast', 'builtins.sum'):
      return self.joined(pos[0], env, memo) if pos else UNK
    if d == 'numpy.full' and len(pos) > 1:
      return self.ev(pos[1], env, memo)
    if d == 'builtins.float' or d.startswith(FLOAT_PREFIX):
      if d.startswith('scipy.ndimage.') and pos:
        return self.ev(pos[0], env, memo)
      return FLOAT
    if d in ('builtins.int', 'builtins.len', 'builtins.range'):
      return INT
    if d == 'builtins.bool':
      return BOOL
    n = d.split('.')[-1]
    if d.startswith(('numpy.', 'jax.numpy.', 'xarray.ufuncs.')):
      if n in NP_KEEP:
        return self.joined(pos[0], env, memo) if pos else UNK
      for table, s in ((NP_FLOAT, FLOAT), (NP_INT, INT), (NP_BOOL, BOOL)):
        if n in table:
          return s
    return UNK

  def joined(self, x, env, memo):
    """The common type of the parts of a sequence, or of an array."""
    its = tm.plain_items(x) if x.op in ('list', 'tuple') else None
    if its:
      return promote(*[self.joined(i, env, memo) for i in its])
    if x.op == 'list' and len(x.args) == 1 or x.op != 'list':
      return self.ev(x, env, memo)
    return self.parts(x.args, env, memo)
