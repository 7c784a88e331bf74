"""Normalisation of library calls (builtins, numpy, xarray, functools...).

Only spelling differences with identical meaning are unified here (method
versus function form, positional versus keyword arguments, `a.coords['x']`
versus `a['x']`, ...).  Everything else stays an uninterpreted term.
"""

from __future__ import annotations

from . import terms as tm
from .terms import mk, const, NONE, TRUE, FALSE

COORD_ATTRS = {'mask', 'latitude', 'longitude', 'time', 'init_time',
               'lead_time', 'valid_time', 'dayofyear', 'stationName', 'number',
               'realization', 'level', 'index'}

EXT_ALIASES = {
    'xarray.ufuncs.': 'numpy.',
    'xarray.core.dataarray.': 'xarray.',
}

UNARY = {'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'builtins.abs': 'abs',
         'numpy.fabs': 'abs', 'operator.abs': 'abs', 'xarray.ufuncs.abs': 'abs',
         'numpy.exp': 'exp', 'math.exp': 'exp',
         'numpy.log': 'log', 'math.log': 'log',
         'numpy.sin': 'sin', 'math.sin': 'sin', 'numpy.cos': 'cos',
         'math.cos': 'cos', 'numpy.deg2rad': 'deg2rad', 'math.radians':
         'deg2rad', 'numpy.radians': 'deg2rad', 'numpy.sign': 'sign',
         'numpy.floor': 'floor', 'math.floor': 'floor',
         'numpy.ceil': 'ceil', 'math.ceil': 'ceil'}

ISNULL = {'numpy.isnan', 'pandas.isnull', 'pandas.isna', 'math.isnan',
          'xarray.isnull', 'jax.numpy.isnan'}
NOTNULL = {'pandas.notnull', 'pandas.notna'}

BINARY = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*',
          'numpy.divide': '/', 'numpy.true_divide': '/', 'numpy.power': '**',
          'numpy.mod': '%', 'numpy.remainder': '%', 'numpy.floor_divide': '//',
          'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*',
          'operator.truediv': '/', 'operator.pow': '**',
          'numpy.less': '<', 'numpy.greater': '>', 'numpy.less_equal': '<=',
          'numpy.greater_equal': '>=', 'numpy.equal': '==',
          'numpy.not_equal': '!=', 'operator.lt': '<', 'operator.gt': '>',
          'operator.le': '<=', 'operator.ge': '>=', 'operator.eq': '==',
          'operator.ne': '!=', 'operator.and_': '&', 'operator.or_': '|',
          'numpy.logical_and': '&', 'numpy.logical_or': '|',
          'numpy.bitwise_and': '&', 'numpy.bitwise_or': '|',
          'builtins.pow': '**', 'operator.mod': '%', 'operator.floordiv': '//'}

REDUCE = {'mean', 'sum', 'std', 'var', 'min', 'max', 'median', 'prod', 'any',
          'all', 'count', 'argmax', 'argmin', 'idxmax', 'idxmin'}

NP_REDUCE = {'numpy.' + r: r for r in REDUCE}
NP_REDUCE.update({'numpy.nanmean': 'nanmean', 'numpy.nansum': 'nansum',
                  'numpy.amax': 'max', 'numpy.amin': 'min'})

# positional parameter names of (mostly xarray) methods
SIGS = {
    'where': ('cond', 'other', 'drop'), 'fillna': ('value',),
    'isel': ('indexers', 'drop'), 'sel': ('indexers', 'method', 'tolerance'),
    'rename': ('name_dict',), 'drop_vars': ('names',),
    'expand_dims': ('dim', 'axis'), 'astype': ('dtype',),
    'clip': ('min', 'max'), 'assign_coords': ('coords',),
    'broadcast_like': ('other',), 'quantile': ('q', 'dim'),
    'cumsum': ('dim',), 'diff': ('dim', 'n'), 'rank': ('dim',),
    'isin': ('test_elements',), 'squeeze': ('dim',),
    'swap_dims': ('dims_dict',), 'stack': ('dim',), 'unstack': ('dim',),
    'set_index': ('indexes',), 'reindex': ('indexers',),
    'reindex_like': ('other',), 'interp': ('coords', 'method'),
    'chunk': ('chunks',), 'sortby': ('variables', 'ascending'),
    'rolling': ('dim',), 'coarsen': ('dim',), 'groupby': ('group',),
    'shift': ('shifts',), 'roll': ('shifts',), 'pad': ('pad_width',),
    'to_dataset': ('dim',), 'to_dataarray': ('dim',), 'to_array': ('dim',),
    'reset_coords': ('names',), 'drop_dims': ('drop_dims',),
    'differentiate': ('coord',), 'integrate': ('coord',),
    'interp_like': ('other',), 'weighted': ('weights',),
    'rsplit': ('sep', 'maxsplit'),
}
DICT_FIRST = {'isel', 'sel', 'rename', 'assign_coords', 'expand_dims',
              'swap_dims', 'reindex', 'shift', 'roll', 'chunk', 'interp',
              'rolling', 'coarsen', 'pad', 'stack', 'rename_dims', 'drop_sel',
              'rename_vars', 'drop_isel', 'assign', 'assign_attrs'}
DICT_FIRST_NAME = {'chunk': 'chunks', 'rename': 'name_dict',
                   'assign_coords': 'coords', 'expand_dims': 'dim',
                   'swap_dims': 'dims_dict', 'shift': 'shifts',
                   'roll': 'shifts', 'interp': 'coords', 'rolling': 'dim',
                   'coarsen': 'dim', 'pad': 'pad_width', 'stack': 'dim',
                   'rename_dims': 'dims_dict'}


# Number of inputs of numpy functions whose next positional argument is `out`.
INPUTS = {'numpy.' + n: 1 for n in '''abs absolute fabs negative positive sqrt
square exp expm1 exp2 log log1p log2 log10 sin cos tan arcsin arccos arctan
deg2rad rad2deg radians degrees floor ceil trunc rint sign isnan isfinite isinf
logical_not invert reciprocal cbrt conj'''.split()}
INPUTS.update({'numpy.' + n: 2 for n in '''add subtract multiply divide
true_divide floor_divide mod remainder power maximum minimum fmax fmin arctan2
hypot less less_equal greater greater_equal equal not_equal logical_and
logical_or logical_xor bitwise_and bitwise_or bitwise_xor dot matmul'''.split()})
INPUTS['numpy.clip'] = 3


# Calls whose result depends on the clock or on the process.
NONDET = frozenset('''
time.time time.time_ns time.monotonic time.monotonic_ns time.perf_counter
time.perf_counter_ns time.process_time time.localtime time.gmtime time.ctime
datetime.datetime.now datetime.datetime.utcnow datetime.datetime.today
datetime.date.today pandas.Timestamp.now pandas.Timestamp.today
pandas.Timestamp.utcnow uuid.uuid1 uuid.uuid4 os.getpid os.getppid os.urandom
socket.gethostname threading.get_ident threading.current_thread builtins.id
builtins.hash multiprocessing.current_process secrets.token_hex
secrets.token_bytes secrets.randbelow os.getenv tempfile.mkdtemp
tempfile.mktemp platform.node
'''.split())


def ext(d):
  for a, b in EXT_ALIASES.items():
    if d.startswith(a):
      d = b + d[len(a):]
  if d in ('numpy.nan', 'math.nan', 'numpy.NaN', 'jax.numpy.nan'):
    return tm.NAN
  if d in ('numpy.inf', 'math.inf', 'jax.numpy.inf'):
    return const(float('inf'))
  return mk('ext', d)


def arith(op, a, b):
  if op == '+':
    return tm.add(a, b)
  if op == '-':
    return tm.sub(a, b)
  if op == '*':
    return tm.mul(a, b)
  if op == '/':
    return tm.div(a, b)
  if op == '**':
    return tm.power(a, b)
  if op == '&':
    return tm.band(a, b)
  if op == '|':
    if a.op in ('cls', 'ext') or b.op in ('cls', 'ext'):
      return mk('typeunion', *sorted([a, b], key=tm.key))
    return tm.bor(a, b)
  if op == '//':
    return floordiv(a, b)
  if op == '%':
    if tm.is_str(a):
      return mk('strmod', a, b)
    return mod(a, b)
  if op in ('<', '>', '<=', '>=', '==', '!='):
    return tm.compare(op, a, b)
  return mk('binop', op, a, b)


def _split_divisible(a, b):
  """a = b*q + r with r free of multiples of b (0 <= r < b when r is pos)."""
  if a.op != 'sum' and a is not b and a.op != 'prod':
    return None
  c, d = tm._as_sum(a)
  q, r = [], []
  for m, k in d.items():
    _, pd = tm._as_prod(m)
    _, bd = tm._as_prod(b)
    if all(pd.get(x, 0) >= e for x, e in bd.items()) and bd:
      q.append(tm.scale(tm.div(m, b), k))
    else:
      r.append(tm.scale(m, k))
  rest = tm.add(const(c), *r)
  return tm.add(*q) if q else tm.ZERO, rest


def _integral(t):
  if t.op in ('pos', 'len', 'counter'):
    return True
  if t.op == 'num':
    return t.args[0].denominator == 1
  if t.op == 'sum':
    return t.args[0].denominator == 1 and all(
        k.denominator == 1 and _integral(m) for m, k in t.args[1])
  if t.op == 'prod':
    return all(_integral(b) and e > 0 and e.denominator == 1
               for b, e in t.args[0])
  return False


def floordiv(a, b):
  if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
    return const(a.args[0] // b.args[0])
  if b is tm.ONE and _integral(a):
    return a
  s = _split_divisible(a, b)
  if s is not None and s[0] is not tm.ZERO:
    q, r = s
    # pos(i) of an iteration over X is always < len(X)
    if r is tm.ZERO:
      return q
    if r.op == 'pos' and b.op == 'len':
      return q
    return tm.add(q, mk('floordiv', r, b))
  return mk('floordiv', a, b)


def mod(a, b):
  if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
    return const(a.args[0] % b.args[0])
  if b is tm.ONE and _integral(a):
    return tm.ZERO
  s = _split_divisible(a, b)
  if s is not None and s[0] is not tm.ZERO:
    r = s[1]
    if r is tm.ZERO:
      return tm.ZERO
    if r.op == 'pos' and b.op == 'len':
      return r
    return mk('mod', r, b)
  return mk('mod', a, b)


INDEXED = {}


def index(base, k):
  if k.op == 'slice' and k.args[2] is tm.ONE:
    if k.args[:2] == (tm.NONE, tm.NONE):
      return base
    k = mk('slice', *k.args[:2], tm.NONE)
  if base.op == 'attr' and base.args[1] == 'coords':
    return index(base.args[0], k)
  if base.op in ('withitem',) and base.args[1] is k:
    return base.args[2]
  if base.op == 'withitems':
    v = dict_lookup(base.args[1], k)
    if v is not None:
      return v
    if tm.is_str(k) and all(s.op == 'kv' and tm.is_str(s.args[0])
                            for s in base.args[1].args):
      return index(base.args[0], k)
  if base.op in ('list', 'tuple'):
    v = seq_index(base, k)
    if v is not None:
      return v
  if base.op == 'dict':
    v = table_lookup(base, k)
    if v is not None:
      return v
  if base.op == 'fn' and len(base.args) == 2 and k.op in ('slice', 'num'):
    return mk('fn', base.args[0], index(base.args[1], k))
  short = part(k)
  if short is not k:
    return index(base, short)
  if base.op == 'index' and base.args[1].op == 'slice' and _counts(k):
    lo, hi, step = base.args[1].args
    if step in (tm.NONE, tm.ONE) and all(
        v is tm.NONE or v.op == 'num' for v in (lo, hi)) and (
            lo is tm.NONE or lo.args[0] >= 0) and (
                hi is tm.NONE or hi.args[0] < 0):
      return index(base.args[0], k if lo is tm.NONE else tm.add(lo, k))
  if k.op == 'num' and k.args[0].denominator == 1:
    n = int(k.args[0])
    if base.op == 'index' and base.args[1].op == 'slice':
      v = _of_slice(base, n)
      if v is not None:
        return v
    if base.op == 'sum' and all(m.op == 'index' and m.args[1].op == 'slice'
                                for m, _ in base.args[1]):
      return tm.add(const(base.args[0]), *[
          tm.mul(const(c), index(m, k)) for m, c in base.args[1]])
  if base.op == 'ite':
    v = INDEXED.get((base, k))
    if v is None:
      v = INDEXED[base, k] = tm.ite(base.args[0], index(base.args[1], k),
                                    index(base.args[2], k))
    return v
  if k.op == 'const' and k.args[0] == 'str' and base.op == 'call' and (
      base.args[0].op == 'attr') and base.args[0].args[1] == (
          'assign_coords') and not base.args[1] and all(
              n != '**' and n != k.args[1] for n, _ in base.args[2]):
    return index(base.args[0].args[0], k)
  if base.op == 'index' and base.args[1].op == 'list':
    # selecting a variable from a selection of variables
    its = tm.plain_items(base.args[1])
    if its and k in its:
      return index(base.args[0], k)
  return mk('index', base, k)


ALL = mk('slice', tm.NONE, tm.NONE, tm.NONE)


def part(k):
  """x[a, :] is x[a]."""
  while k.op == 'tuple' and len(k.args) > 1 and k.args[-1].op == 'item' and (
      k.args[-1].args[0] is ALL) and all(s.op == 'item' for s in k.args):
    k = (k.args[0].args[0] if len(k.args) == 2
         else mk('tuple', *k.args[:-1]))
  return k


def _counts(k):
  """A position in a sequence, or one a fixed number of places after it."""
  return offset(k) is not None


def offset(k):
  """(binder, n) if k is its position plus n >= 0."""
  if k.op == 'pos':
    return k.args[0], 0
  if k.op == 'sum' and len(k.args[1]) == 1 and k.args[1][0][1] == 1 and (
      k.args[1][0][0].op == 'pos') and k.args[0] >= 0 and (
          k.args[0] == int(k.args[0])):
    return k.args[1][0][0].args[0], int(k.args[0])
  return None


def _of_slice(base, n):
  """x[a:][n] and x[:-a][n] as elements of x."""
  x, (lo, hi, step) = base.args[0], base.args[1].args
  if step not in (tm.NONE, tm.ONE) or any(
      v is not tm.NONE and (v.op != 'num' or v.args[0].denominator != 1)
      for v in (lo, hi)):
    return None
  lo = 0 if lo is tm.NONE else int(lo.args[0])
  hi = 0 if hi is tm.NONE else int(hi.args[0])
  if lo < 0 or hi > 0:
    return None
  return index(x, const(lo + n if n >= 0 else hi + n))


# Parameters of functions of other libraries: the first ones (before |) are
# brought into positional form, the others into keyword form.
EXT_SIGS = {}
for _line in '''
xarray.DataArray data | coords dims name attrs
xarray.Dataset data_vars | coords attrs
xarray.Variable dims data | attrs
xarray.full_like other fill_value | dtype
xarray.zeros_like other | dtype
xarray.ones_like other | dtype
numpy.array object | dtype
numpy.asarray a | dtype
numpy.zeros shape | dtype
numpy.ones shape | dtype
numpy.empty shape | dtype
numpy.full shape fill_value | dtype
numpy.linspace start stop num | endpoint retstep dtype axis
numpy.geomspace start stop num | endpoint dtype axis
numpy.logspace start stop num | endpoint base dtype axis
numpy.stack arrays | axis
numpy.concatenate arrays | axis
numpy.isclose a b | rtol atol equal_nan
numpy.allclose a b | rtol atol equal_nan
numpy.broadcast_to array shape |
numpy.swapaxes a axis1 axis2 |
numpy.moveaxis a source destination |
numpy.diff a | n axis
numpy.argsort a | axis kind order
numpy.put_along_axis arr indices values | axis
numpy.take_along_axis arr indices | axis
numpy.interp x xp fp | left right period
numpy.intersect1d ar1 ar2 |
numpy.isin element test_elements |
numpy.searchsorted a v | side sorter
numpy.unique ar | return_index return_inverse return_counts axis
numpy.expand_dims a axis |
numpy.roll a shift | axis
numpy.random.multinomial n pvals | size
numpy.random.randint low | high size dtype
xarray.concat objs dim | data_vars coords compat positions fill_value join combine_attrs
pandas.date_range start end | periods freq
pandas.timedelta_range start end | periods freq
pandas.concat objs | axis
scipy.ndimage.convolve1d input weights | axis output mode cval origin
scipy.fft.dct x | type n axis norm
'''.strip().split('\n'):
  _name, _, _rest = _line.partition(' ')
  _first, _, _kws = _rest.partition('|')
  EXT_SIGS[_name] = _first.split(), _kws.split()


def canonical_args(d, pos, kw):
  """The arguments of a call of d with positional ones where usual."""
  first, others = EXT_SIGS[d]
  names = first + others
  if len(pos) > len(names) or any(p.op == 'splat' for p in pos) or any(
      k == '**' for k, _ in kw):
    return pos, kw
  given = dict(zip(names, pos))
  if any(k in given for k, _ in kw):
    return pos, kw
  given.update(kw)
  new = []
  for n in first:
    if n not in given:
      break
    new.append(given.pop(n))
  return new, list(given.items())


def attribute(base, name):
  if name == 'ndim':
    return length(attribute(base, 'dims'))
  if name in COORD_ATTRS:
    return index(base, const(name))
  if name == 'values' and base.op not in ('in', 'param', 'index', 'attr',
                                          'call', 'fresh', 'ref'):
    return mk('attr', base, name)
  if base.op == 'new':
    for k, v in base.args[1]:
      if k == name:
        return v
  if base.op == 'withattr' and base.args[1] == name:
    return base.args[2]
  if name == 'value' and base.op == 'call' and base.args[0].op == 'ext' and (
      base.args[0].args[0].startswith('absl.flags.DEFINE_')) and (
          base.args[1] and tm.is_str(base.args[1][0])):
    flag = mk('in', '--' + base.args[1][0].args[1])
    if base.args[0].args[0].endswith('_list') and len(base.args[1]) > 1 and (
        base.args[1][1].op == 'list'):
      return tm.seq('list', [mk('splat', flag)])
    return flag
  if name == 'name' and base.op == 'call' and base.args[0].op == 'attr' and (
      base.args[0].args[1] in KEEP_NAME):
    return attribute(base.args[0].args[0], name)
  return mk('attr', base, name)


KEEP_NAME = {'assign_coords', 'expand_dims', 'sel', 'isel', 'transpose',
             'copy', 'drop_vars', 'squeeze', 'sortby'}


def _rebuild(op, args):
  if op == 'attr':
    return attribute(*args)
  if op == 'call':
    return _recall(*args)
  if op == 'index':
    return index(*args)
  if op == 'memb':
    return contains(*args)
  if op == 'isinstance':
    return isinstance_(*args)
  if op == 'fn':
    if args[0] == 'abs':
      return ext_call('numpy.abs', [args[1]], [])
    if args[0] in ('maximum', 'minimum', 'max2', 'min2'):
      return mk('fn', args[0], *tm._sorted(args[1:]))
  if op == 'reduce':
    return reduce_(args[0], args[1], list(args[2]))
  if op == 'len':
    return length(args[0])
  if op == 'floordiv':
    return floordiv(*args)
  if op == 'mod':
    return mod(*args)
  if op == 'withitems' and args[1].op == 'dict':
    return with_items(args[0], list(args[1].args))
  return mk(op, *args)


def flatten_kw(kw):
  """Expands **{'a': x} into a=x."""
  out = []
  for k, v in kw:
    if k == '**' and v.op == 'dict' and all(
        s.op == 'kv' and s.args[0].op == 'const' and (
            s.args[0].args[0] == 'str') for s in v.args):
      out.extend((s.args[0].args[1], s.args[1]) for s in v.args)
    else:
      out.append((k, v))
  return out


def _recall(fn, pos, kw):
  if fn.op in ('attr', 'ext'):
    return call(fn, list(pos), flatten_kw(kw))
  return mk('call', fn, pos, _kwsort(flatten_kw(kw)))


tm.set_rebuild_hook(_rebuild)


def contains(x, c):
  if c.op == 'attr' and c.args[1] == 'coords':
    return mk('hascoord', c.args[0], x)
  if c.op == 'dict_keys':
    c = c.args[0]
  if c.op in ('list', 'tuple', 'set'):
    its = tm.plain_items(c)
    if its is not None:
      if any(i is x for i in its):
        return TRUE
      if tm.is_const(x) and all(tm.is_const(i) for i in its):
        return FALSE
      return tm.lor(*[tm.is_(i, x) if x is tm.NONE else tm.compare('==', x, i)
                      for i in its])
    if len(c.args) == 1 and c.args[0].op == 'splat':
      return contains(x, c.args[0].args[0])
  if c.op == 'dict':
    if all(s.op == 'kv' for s in c.args):
      keys = [s.args[0] for s in c.args]
      if any(k is x for k in keys):
        return TRUE
      if tm.is_const(x) and all(tm.is_const(k) for k in keys):
        return FALSE
      if _table(c):
        return tm.lor(*[tm.compare('==', x, k) for k in keys])
  return mk('memb', x, c)


def _table(d):
  """A short dictionary with distinct constant keys, written out in full."""
  keys = [s.args[0] for s in d.args if s.op == 'kv']
  return 0 < len(keys) == len(d.args) <= 12 and all(
      tm.is_str(k) or k.op == 'num' for k in keys) and len(
          set(keys)) == len(keys)


def to_str(v):
  if tm.is_str(v):
    return v
  return tm.fstr([v])


def table_lookup(d, k):
  """The value for k, by cases if the dictionary is a short table."""
  v = dict_lookup(d, k)
  if v is None and not tm.is_const(k) and _table(d):
    v = mk('index', d, k)
    for s in reversed(d.args):
      v = tm.ite(tm.compare('==', k, s.args[0]), s.args[1], v)
  return v


def dict_lookup(d, k):
  """Value for key k in dict term d, or None if not determined."""
  for s in reversed(d.args):
    if s.op == 'kv':
      if s.args[0] is k:
        return s.args[1]
      if tm.is_const(s.args[0]) and tm.is_const(k):
        continue
      if _distinct(s.args[0], k):
        continue
      return None
    if s.op == 'dsplat':
      x = s.args[0]
      if len(d.args) == 1:
        return index(x, k)
      return None
    if s.op == 'comp' and len(d.args) == 1 and len(s.args) == 3:
      b, it, seg = s.args
      if seg.op == 'kv' and seg.args[0] is b:
        # {x: v(x) for x in it}[k]  (k must be an element for this to be defined)
        return tm.subst(seg.args[1], {b: k})
      if seg.op == 'guard' and len(seg.args) == 2 and seg.args[1].op == 'kv' \
          and seg.args[1].args[0] is b:
        return tm.subst(seg.args[1].args[1], {b: k})
      return None
    return None
  return None


def _distinct(a, b):
  """Statically different strings (e.g. different constant prefixes)."""
  def prefix(t):
    if t.op == 'const' and t.args[0] == 'str':
      return t.args[1], True
    if t.op == 'fstr' and t.args[0][0].op == 'const':
      return t.args[0][0].args[1], False
    return None, False
  pa, ea = prefix(a)
  pb, eb = prefix(b)
  if pa is None or pb is None:
    return False
  n = min(len(pa), len(pb))
  return pa[:n] != pb[:n]


def seq_index(c, k):
  its = tm.plain_items(c)
  if its is not None:
    if k.op == 'num' and -len(its) <= int(k.args[0]) < len(its):
      return its[int(k.args[0])]
    if k.op == 'slice' and all(
        x is NONE or x.op == 'num' for x in k.args):
      f = lambda x: None if x is NONE else int(x.args[0])
      sl = its[slice(*[f(x) for x in k.args])]
      return mk(c.op, *[mk('item', x) for x in sl])
  elif k.op == 'num' and int(k.args[0]) >= 0:
    i = int(k.args[0])
    if len(c.args) > i and all(s.op == 'item' for s in c.args[:i + 1]):
      return c.args[i].args[0]
  if k.op == 'num' and k.args[0].denominator == 1 and len(c.args) == 1:
    s = c.args[0]
    if s.op == 'comp' and len(s.args) == 3 and s.args[2].op == 'item' and (
        s.args[1].op in ('in', 'param', 'index', 'attr')):
      # [f(x) for x in xs][0] is f(xs[0])
      b, it, e = s.args
      return tm.subst(e.args[0], {b: index(it, k), mk('pos', b): k} if int(
          k.args[0]) >= 0 else {b: index(it, k)})
  return None


def coord_value(v):
  """np.array([..]) and [..] label the same."""
  if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in (
      'numpy.array', 'numpy.asarray') and not v.args[2] and len(
          v.args[1]) == 1 and v.args[1][0].op == 'list':
    return v.args[1][0]
  return v


def _coord_kw(kw):
  out = []
  for k, v in kw:
    if k == '**' and v.op == 'dict':
      v = tm.seq('dict', [mk('kv', x.args[0], coord_value(x.args[1]))
                          if x.op == 'kv' else x for x in v.args])
    elif k != '**':
      v = coord_value(v)
    out.append((k, v))
  return out


def _coord_items(kw):
  """Labels and values given to assign_coords, or None if not all known."""
  out = []
  for k, v in kw:
    if k != '**':
      out.append((const(k), v))
    elif v.op == 'dict' and all(x.op == 'kv' for x in v.args):
      out += [x.args for x in v.args]
    else:
      return None
  return out


def distinct_names(x, y):
  """Are these texts different whatever the unknown parts are?"""
  parts = []
  for t in (x, y):
    if t.op == 'fstr':
      parts.append(list(t.args[0]))
    else:
      parts.append([t])
  a, b = parts
  while a and b and a[0] is b[0]:
    a, b = a[1:], b[1:]
  while a and b and a[-1] is b[-1]:
    a, b = a[:-1], b[:-1]
  if not a and not b:
    return False
  if not a or not b:
    return any(t.op == 'const' and t.args[0] == 'str' and t.args[1]
               for t in a + b)
  if len(a) == len(b) == 1 and all(
      t.op == 'const' and t.args[0] == 'str' for t in a + b):
    return True
  return False


def assign_coords(base, k, v):
  return method(base, 'assign_coords', [], [
      (k.args[1], v) if k.op == 'const' and k.args[0] == 'str' else
      ('**', tm.seq('dict', [mk('kv', k, v)]))])


NAMES = {'const', 'fstr', 'bv', 'in', 'param', 'index', 'elem'}


def with_item(base, k, v):
  if k.op in NAMES:
    return with_items(base, [mk('kv', k, v)])
  return mk('withitem', base, k, v)


def with_items(base, segs):
  """The object after storing the entries, in order."""
  if not segs:
    return base
  if base.op == 'withitems':
    return with_items(base.args[0], list(base.args[1].args) + segs)
  if base.op == 'call' and base.args[0].op == 'ext' and (
      base.args[0].args[0] == 'xarray.Dataset') and not base.args[2]:
    if not base.args[1]:
      return call(base.args[0], [tm.seq('dict', segs)], [])
    if len(base.args[1]) == 1 and base.args[1][0].op == 'dict':
      return call(base.args[0], [tm.seq('dict', list(
          base.args[1][0].args) + segs)], [])
  return mk('withitems', base, tm.seq('dict', segs))


def norm_dim(v):
  """dim='x' == dim=['x'] == dim=('x',); collections are order-free."""
  its = tm.plain_items(v) if v.op in ('list', 'tuple', 'set') else None
  if its is not None:
    if len(its) == 1:
      return its[0]
    return tm.seq('set', list(v.args))
  if v.op in ('list', 'tuple', 'set'):
    if len(v.args) == 1 and v.args[0].op == 'splat':
      return v.args[0].args[0]
    return tm.seq('set', list(v.args))
  return v


def _kwsort(kw):
  return tuple(sorted(kw, key=lambda x: (x[0], x[1].dig)))


def call(fn, pos, kw):
  """Uninterpreted (normalised) call term."""
  if fn.op == 'ext':
    d = fn.args[0]
    if d in EXT_SIGS:
      pos, kw = canonical_args(d, list(pos), list(kw))
    if d == 'xarray.DataArray':
      kw = [(k, tm.seq('list', list(v.args)) if k == 'dims' and (
          v.op == 'tuple') else v) for k, v in kw]
    if d == 'numpy.arange' and len(pos) == 1 and not any(
        k in ('start', 'stop', 'step') for k, _ in kw) and (
            pos[0].op != 'splat'):
      pos = [tm.ZERO] + list(pos)
    r = ext_call(d, list(pos), list(kw))
    if r is not None:
      return r
  if fn.op == 'attr':
    r = method(fn.args[0], fn.args[1], list(pos), list(kw))
    if r is not None:
      return r
  return mk('call', fn, tuple(pos), _kwsort(kw))


def ext_call(d, pos, kw):
  kwd = dict(kw)
  if d in UNARY and len(pos) == 1 and not kw:
    if UNARY[d] == 'abs' and pos[0].op == 'num':
      return const(abs(pos[0].args[0]))
    return mk('fn', UNARY[d], _abs_norm(pos[0]) if UNARY[d] == 'abs'
              else pos[0])
  if d in ('numpy.sqrt', 'math.sqrt', 'jax.numpy.sqrt') and len(pos) == 1:
    return tm.sqrt(pos[0])
  if d == 'numpy.square' and len(pos) == 1:
    return tm.power(pos[0], const(2))
  if d in ('numpy.negative', 'operator.neg') and len(pos) == 1:
    return tm.neg(pos[0])
  if d in ISNULL and len(pos) == 1:
    return tm.isnull(pos[0])
  if d in NOTNULL and len(pos) == 1:
    return tm.inv(tm.isnull(pos[0]))
  if d in ('numpy.logical_not', 'numpy.invert', 'operator.invert') and len(
      pos) == 1:
    return tm.inv(pos[0])
  if d == 'operator.not_' and len(pos) == 1:
    return tm.lnot(tm.truth(pos[0]))
  if d in BINARY and len(pos) == 2 and not kw:
    return arith(BINARY[d], *pos)
  if d in ('xarray.where', 'numpy.where') and len(pos) == 3:
    return tm.where(*pos)
  if d == 'xarray.where' and len(pos) + len(kwd) >= 3:
    names = ('cond', 'x', 'y')
    v = dict(zip(names, pos))
    v.update(kwd)
    if all(n in v for n in names):
      return tm.where(v['cond'], v['x'], v['y'])
  if d in ('numpy.maximum', 'numpy.minimum') and len(pos) == 2:
    return mk('fn', d.split('.')[1], *tm._sorted(pos))
  if d in ('builtins.max', 'builtins.min') and len(pos) == 2 and not kw:
    return mk('fn', d.split('.')[1] + '2', *tm._sorted(pos))
  if d in ('builtins.max', 'builtins.min') and len(pos) == 1 and not kw:
    its = tm.plain_items(pos[0])
    if its is not None and len(its) == 2:
      return mk('fn', d.split('.')[1] + '2', *tm._sorted(its))
  if d == 'numpy.diff' and len(pos) == 1 and not kw:
    sl = lambda a, b: index(pos[0], mk('slice', a, b, tm.NONE))
    return tm.sub(sl(tm.ONE, tm.NONE), sl(tm.NONE, const(-1)))
  if d in ('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin') and len(
      pos) == 1 and not kw:
    its = tm.plain_items(pos[0]) if pos[0].op in ('list', 'tuple') else None
    if its is not None and len(its) == 2:
      return mk('fn', {'x': 'maximum', 'n': 'minimum'}[d[-1]], *tm._sorted(its))
  if d == 'builtins.divmod' and len(pos) == 2 and not kw:
    return tm.tup(floordiv(*pos), mod(*pos))
  if d in NP_REDUCE and pos:
    rest = list(kw)
    if len(pos) == 2:
      rest.append(('axis', pos[1]))
    if len(pos) <= 2:
      return reduce_(NP_REDUCE[d], pos[0], rest)
  if d == 'builtins.len' and len(pos) == 1:
    return length(pos[0])
  if d in ('builtins.str',) and len(pos) == 1:
    return to_str(pos[0])
  if d == 'builtins.repr' and len(pos) == 1:
    return mk('repr', pos[0])
  if d == 'builtins.bool' and len(pos) == 1:
    return tm.truth(pos[0])
  if d == 'builtins.isinstance' and len(pos) == 2:
    return isinstance_(pos[0], pos[1])
  if d == 'builtins.callable' and len(pos) == 1:
    if pos[0].op in ('func', 'closure', 'lam', 'bound', 'cls'):
      return TRUE
    return mk('callable', pos[0])
  if d == 'builtins.slice':
    a = list(pos)
    if len(a) == 1:
      a = [NONE, a[0]]
    while len(a) < 3:
      a.append(NONE)
    return mk('slice', *a)
  if d == 'builtins.hash':
    return mk('call', mk('ext', d), tuple(pos), _kwsort(kw))
  if d in ('xarray.dot', 'xarray.core.computation.dot'):
    args = [p for p in pos if p.op != 'splat']
    spl = [p for p in pos if p.op == 'splat']
    dim = kwd.pop('dim', kwd.pop('dims', None))
    k2 = list(kwd.items())
    return mk('dot', tuple(tm._sorted(args)), tuple(tm._sorted(spl)),
              norm_dim(dim) if dim is not None else NONE, _kwsort(k2))
  if d in ('builtins.float', 'builtins.int') and len(pos) == 1 and (
      pos[0].op == 'num'):
    return const(pos[0].args[0])
  if d in ('numpy.datetime64', 'numpy.timedelta64', 'pandas.Timedelta',
           'pandas.to_timedelta') or d.startswith('numpy.'):
    return mk('call', mk('ext', d), tuple(pos), _kwsort(kw))
  return None


def _abs_norm(x):
  # |a-b| == |b-a|
  n = tm.neg(x)
  return min((x, n), key=tm.key)


def _count(s):
  """How many elements a segment of plain, possibly guarded items gives."""
  if s.op == 'item':
    return tm.ONE
  if s.op == 'guard':
    n = [_count(x) for x in s.args[1:]]
    if None not in n:
      return tm.ite(s.args[0], tm.add(*n), tm.ZERO)
  return None


def length(x):
  if x.op in ('list', 'tuple', 'set', 'dict'):
    its = x.args
    if x.op == 'set' and (not its or len(its) == 1 and its[0].op == 'item'):
      return const(len(its))
    if x.op != 'set' and all(s.op in ('item', 'kv') for s in its):
      return const(len(its))
    if x.op in ('list', 'tuple') and all(
        s.op in ('item', 'comp', 'splat') and (
            s.op != 'comp' or len(s.args) == 3 and s.args[2].op == 'item')
        for s in its):
      # [f(x) for x in xs] has the length of xs
      return tm.add(*[tm.ONE if s.op == 'item' else length(
          s.args[1] if s.op == 'comp' else s.args[0]) for s in its])
    if x.op in ('list', 'tuple') and len(its) == 1 and its[0].op == 'splat':
      return length(its[0].args[0])
    if x.op in ('list', 'tuple') and len(its) == 1 and its[0].op == 'guard':
      # list(xs or []) has the length of xs
      c, *inner = its[0].args
      if len(inner) == 1 and inner[0].op == 'splat' and c is tm.truth(
          inner[0].args[0]):
        return length(inner[0].args[0])
    if x.op in ('list', 'tuple'):
      n = [_count(s) for s in its]
      if None not in n:
        return tm.add(*n)
  if x.op == 'dict_keys' or x.op == 'dict_items' or x.op == 'dict_values':
    return length(x.args[0])
  if x.op == 'const' and x.args[0] == 'str':
    return const(len(x.args[1]))
  if x.op == 'ite':
    return tm.ite(x.args[0], length(x.args[1]), length(x.args[2]))
  return mk('len', x)


TYPE_NAMES = {'num': ('builtins.int', 'builtins.float')}


ABCS = {'Iterable', 'Sequence', 'Mapping', 'Collection', 'Set', 'MutableMapping',
        'MutableSequence', 'Hashable'}


def _abc(*ns):
  return {f'{m}.{n}' for m in ('typing', 'collections.abc') for n in ns}


ABSTRACT = {
    'builtins.str': _abc('Iterable', 'Sequence', 'Collection', 'Hashable'),
    'builtins.list': _abc('Iterable', 'Sequence', 'Collection',
                          'MutableSequence'),
    'builtins.tuple': _abc('Iterable', 'Sequence', 'Collection', 'Hashable'),
    'builtins.dict': _abc('Iterable', 'Mapping', 'Collection',
                          'MutableMapping'),
    'builtins.set': _abc('Iterable', 'Collection', 'Set'),
    'builtins.slice': set(),
    'builtins.int': _abc('Hashable'),
    'builtins.float': _abc('Hashable'),
    'xarray.DataArray': _abc('Iterable'),
    'xarray.Dataset': _abc('Iterable', 'Mapping', 'Collection'),
}

tm.IMPLIED_ABC.update(ABSTRACT)


def isinstance_(x, ty):
  if ty.op in ('tuple',):
    its = tm.plain_items(ty)
    if its is not None:
      return tm.lor(*[isinstance_(x, t) for t in its])
  if ty.op == 'typeunion':
    return tm.lor(*[isinstance_(x, t) for t in ty.args])
  if ty is mk('ext', 'types.NoneType') or ty is mk(
      'attr', NONE, '__class__'):
    return tm.is_(x, NONE)
  if x is NONE and ty.op in ('ext', 'cls'):
    return FALSE
  if x.op == 'ite':
    return tm.ite(x.args[0], isinstance_(x.args[1], ty),
                  isinstance_(x.args[2], ty))
  if ty.op == 'ext' and ty.args[0].startswith('typing.') and (
      ty.args[0][7:] in ABCS):
    ty = mk('ext', 'collections.abc.' + ty.args[0][7:])
  if ty.op == 'ext':
    known = None
    if x.op == 'const' and x.args[0] == 'str' or x.op == 'fstr':
      known = 'builtins.str'
    elif x.op == 'slice':
      known = 'builtins.slice'
    elif x.op == 'num':
      known = ('builtins.int' if x.args[0].denominator == 1
               and ty.args[0] != 'builtins.float' else 'builtins.float')
      if ty.args[0] in ('builtins.int', 'builtins.float') and (
          x.args[0].denominator == 1):
        return mk('isinstance', x, ty)
    elif x.op in ('list', 'tuple', 'dict', 'set'):
      known = 'builtins.' + x.op
    elif x.op == 'call' and x.args[0] in (
        mk('ext', 'xarray.DataArray'), mk('ext', 'xarray.Dataset')):
      known = x.args[0].args[0]
    if known is not None:
      if ty.args[0] == known or ty.args[0] in ABSTRACT.get(known, ()):
        return TRUE
      if ty.args[0].rsplit('.', 1)[-1] in ABCS or ty.args[0].startswith(
          'xarray.') or ty.args[0] == 'numpy.ndarray':
        return FALSE
      if ty.args[0].startswith('builtins.'):
        return FALSE
    if ty.args[0].rsplit('.', 1)[-1] == 'Iterable' and array_like(x):
      return TRUE
  return mk('isinstance', x, ty)


ARRAY_MAKERS = {'numpy.' + n for n in (
    'arange', 'linspace', 'geomspace', 'logspace', 'array', 'asarray', 'zeros',
    'ones', 'full', 'concatenate', 'stack')}


def array_like(x):
  """Arithmetic with a numpy array gives something iterable."""
  if x.op == 'call' and x.args[0].op == 'ext':
    return x.args[0].args[0] in ARRAY_MAKERS
  if x.op == 'sum':
    return any(array_like(m) for m, _ in x.args[1])
  if x.op == 'prod':
    return any(array_like(b) for b, _ in x.args[0])
  return False


def reduce_(name, x, kw):
  out = []
  for k, v in kw:
    if k in ('dim', 'axis', 'dims'):
      k = 'dim' if k == 'dims' else k
      if v is NONE:
        continue
      v = norm_dim(v)
    out.append((k, v))
  if name in ('any', 'all') and x.op == 'inv':
    # all are false: none is true
    return tm.inv(reduce_('all' if name == 'any' else 'any', x.args[0], out))
  return mk('reduce', name, x, _kwsort(out))


# Methods that return the same values (lazy data made concrete).
TRANSPARENT = {'compute', 'load', 'persist'}


# What these methods do anyway.
DEFAULT_ARGS = {
    ('sortby', 'ascending'): TRUE, ('isel', 'drop'): FALSE,
    ('sel', 'drop'): FALSE, ('squeeze', 'drop'): FALSE,
    ('where', 'drop'): FALSE, ('sel', 'method'): NONE,
    ('sel', 'tolerance'): NONE, ('reset_coords', 'drop'): FALSE,
    ('isel', 'missing_dims'): const('raise'),
}


# numpy's functions call these methods.
AS_FUNCTION = {'argsort', 'swapaxes', 'searchsorted', 'repeat', 'ravel',
               'nonzero', 'take', 'partition', 'argpartition', 'trace',
               'diagonal', 'choose', 'compress'}


def method(base, name, pos, kw):
  if name in AS_FUNCTION:
    return call(mk('ext', 'numpy.' + name), [base] + list(pos), kw)
  kwd = dict(kw)
  if name in REDUCE and len(pos) <= 1 and not any(
      p.op == 'splat' for p in pos):
    rest = list(kw)
    if pos:
      rest.append(('dim', pos[0]))
    return reduce_(name, base, rest)
  if name in DICT_FIRST and len(pos) == 1 and pos[0].op == 'dict':
    segs = []
    for s in pos[0].args:
      if s.op == 'kv' and s.args[0].op == 'const' and (
          s.args[0].args[0] == 'str'):
        kw.append((s.args[0].args[1], s.args[1]))
      else:
        segs.append(s)
    if segs:
      d = tm.seq('dict', segs)
      if len(segs) == 1 and segs[0].op == 'dsplat':
        d = segs[0].args[0]
      kw.append(('**', d))
    pos = []
  elif name in DICT_FIRST and len(pos) == 1 and pos[0].op not in (
      'const', 'fstr', 'list', 'tuple', 'num'):
    # method(mapping) == method(**mapping)
    if name in ('sel', 'isel', 'assign_coords', 'rename', 'swap_dims'):
      if not (name == 'rename' and pos[0].op not in ('dict',)):
        kw.append(('**', pos[0]))
        pos = []
  if name in SIGS and pos:
    names = SIGS[name]
    if len(pos) <= len(names) and not any(p.op == 'splat' for p in pos):
      kw = list(zip(names, pos)) + list(kw)
      pos = []
  kw = [(k, v) for k, v in kw if DEFAULT_ARGS.get((name, k)) is not v]
  kwd = dict(kw)
  if name == 'where' and not pos and 'cond' in kwd and 'drop' not in kwd:
    if kwd['cond'].op != 'lam':
      return tm.where(kwd['cond'], base, kwd.get('other', tm.NAN))
  if name in TRANSPARENT and not pos and not kw:
    return base  # same values
  if name == 'assign' and not pos and kw and all(
      v.op not in ('lam', 'closure', 'func', 'bound') for _, v in kw):
    segs = []
    for k, v in kw:
      if k != '**':
        segs.append(mk('kv', const(k), v))
      elif v.op == 'dict':
        segs += list(v.args)
      else:
        segs.append(mk('dsplat', v))
    return with_items(base, segs)
  if name in ('isnull', 'isna') and not pos and not kw:
    return tm.isnull(base)
  if name in ('notnull', 'notna') and not pos and not kw:
    return tm.inv(tm.isnull(base))
  if name == 'fillna' and set(kwd) == {'value'}:
    return tm.where(tm.isnull(base), kwd['value'], base)
  if name == 'astype' and 'dtype' in kwd:
    return tm.astype(base, dtype(kwd['dtype']))
  if name == 'items' and not pos and not kw:
    return mk('dict_items', base)
  if name == 'keys' and not pos and not kw:
    return mk('dict_keys', base)
  if name == 'values' and not pos and not kw:
    return mk('dict_values', base)
  if name == 'get' and 1 <= len(pos) <= 2 and not kw:
    k = pos[0]
    d = pos[1] if len(pos) == 2 else NONE
    return tm.ite(contains(k, base), index(base, k), d)
  if name == 'dot' and len(pos) == 1:
    return ext_call('xarray.dot', [base] + pos, kw)
  if name == 'issubset' and len(pos) == 1:
    return tm.issubset(as_set(base), as_set(pos[0]))
  if name == 'issuperset' and len(pos) == 1:
    return tm.issubset(as_set(pos[0]), as_set(base))
  if name in ('intersection', 'union', 'difference') and len(pos) == 1:
    if name == 'union':
      return tm.seq('set', [mk('splat', as_set(x)) for x in (base, pos[0])])
    return mk('setop', {'intersection': '&', 'difference': '-'}[name],
              as_set(base), as_set(pos[0]))
  if name == 'join' and len(pos) == 1:
    its = tm.plain_items(pos[0])
    if its is not None:
      parts = []
      for i, x in enumerate(its):
        if i:
          parts.append(base)
        parts.append(x)
      return tm.fstr(parts)
    return mk('join', base, pos[0])
  if name == 'format' and tm.is_str(base) and base.op == 'const':
    r = _format(base.args[1], pos, kwd)
    if r is not None:
      return r
  if name == 'copy' and base.op in ('list', 'dict', 'set'):
    return base
  if name == 'total_seconds' and not pos:
    return mk('total_seconds', base)
  if name == 'transpose' and len(pos) == 1 and pos[0].op in ('list', 'tuple'):
    pos = [s.args[0] if s.op == 'item' else s for s in pos[0].args]
  if name in ('drop_vars', 'drop_dims', 'squeeze', 'expand_dims'):
    kw = [(k, norm_dim(v) if k in ('names', 'dim', 'drop_dims') and v.op in (
        'list', 'tuple', 'set') else v) for k, v in kw]
  if name == 'expand_dims':
    kw = [(k, v) for k, v in kw if not (k == 'axis' and v in (NONE, const(0)))]
  if name == 'assign_coords' and not pos:
    kw = _coord_kw(kw)
    inner = []
    if base.op == 'call' and base.args[0].op == 'attr' and (
        base.args[0].args[1] == name) and not base.args[1]:
      inner = _coord_items(base.args[2])
    mine = _coord_items(kw)
    if mine is not None and inner is not None:
      if inner:
        base = base.args[0].args[0]
      # chained calls merge; of a label assigned twice the last one counts
      given = {}
      for k, v in inner + mine:
        given.pop(k, None)
        given[k] = v
      ks = list(given)
      if all(distinct_names(x, y) for i, x in enumerate(ks) for y in ks[:i]):
        kw = [(k.args[1], given.pop(k)) for k in ks if tm.is_str(k) and (
            k.op == 'const')]
        ks = sorted(given, key=tm.key)
      else:
        kw = []
      if given:
        kw.append(('**', tm.seq('dict', [mk('kv', k, given[k]) for k in ks])))
  return mk('call', mk('attr', base, name), tuple(pos), _kwsort(kw))


def _format(s, pos, kwd):
  import string
  parts = []
  auto = 0
  try:
    for lit, field, spec, conv in string.Formatter().parse(s):
      if lit:
        parts.append(const(lit))
      if field is None:
        continue
      if spec or conv:
        return None
      if field == '':
        parts.append(pos[auto])
        auto += 1
      elif field.isdigit():
        parts.append(pos[int(field)])
      elif field in kwd:
        parts.append(kwd[field])
      else:
        return None
  except (ValueError, IndexError):
    return None
  return tm.fstr(parts)


def intersection(I, xs):
  """Elements common to all sets, or None if not expressible."""
  sets = []
  for x in xs:
    if x.op == 'splat':
      its = tm.plain_items(x.args[0])
      if its is None:
        return None
      sets += [as_set(i) for i in its]
    else:
      sets.append(as_set(x))
  sets = [tm.seq('set', [mk('item', s.args[0]) for s in x.args])
          if x.op == 'dict' and all(s.op == 'kv' for s in x.args) else x
          for x in sets]
  sets = list(dict.fromkeys(sets))
  if not sets:
    return None
  plain = [tm.plain_items(x) if x.op == 'set' else None for x in sets]
  if len(sets) == 1:
    return sets[0]
  if all(p is not None and all(tm.is_const(i) for i in p) for p in plain):
    keep = [i for i in plain[0] if all(i in p for p in plain[1:])]
    return tm.seq('set', [mk('item', i) for i in keep])
  sets.sort(key=tm.key)
  b = I.fresh()
  return tm.seq('set', tm.comp(b, sets[0], tm.guard(
      tm.land(*[contains(b, x) for x in sets[1:]]), [mk('item', b)])))


as_set = tm.as_set


DTYPES = {'builtins.float': 'float', 'numpy.float64': 'float', 'numpy.double': 'float',
          'numpy.float32': 'float32', 'builtins.bool': 'bool',
          'builtins.int': 'int', 'numpy.bool_': 'bool', 'numpy.int64': 'int',
          'numpy.int32': 'int32', 'numpy.float16': 'float16'}


def dtype(t):
  if t.op == 'ext' and t.args[0] in DTYPES:
    return const(DTYPES[t.args[0]])
  if t.op == 'const' and t.args[0] == 'str':
    return const({'f4': 'float32', 'f8': 'float', 'float64': 'float',
                  'double': 'float', 'int64': 'int', 'i8': 'int',
                  'bool_': 'bool'}.get(t.args[1], t.args[1]))
  return t


# ---------------------------------------------------------------------------
# Structure maps.


def tree_map(I, fn, trees, st, node):
  """xarray_tree.map_structure(fn, *trees): fn applied leafwise.

  Containers whose shape is statically known are distributed over; other trees
  stay symbolic: treemap(<fn as term>, trees).
  """
  derefed = []
  for t in trees:
    if t.op == 'splat':
      derefed.append(t)
    else:
      derefed.append(I.deref(t, st))
  if derefed and all(t.op == 'tuple' and tm.plain_items(t) is not None
                     for t in derefed):
    n = len(derefed[0].args)
    if all(len(t.args) == n for t in derefed):
      return tm.tup(*[tree_map(I, fn, [tm.plain_items(t)[i] for t in derefed],
                               st, node) for i in range(n)])
  if len(derefed) == 1 and derefed[0].op == 'splat':
    # map_structure(fn, *[(a(x), b(x)) for x in xs]): distribute over the tuple
    parts = _untuple_segs(derefed[0].args[0])
    if parts:
      return tm.tup(*[tree_map(I, fn, [mk('splat', p)], st, node)
                      for p in parts])
  if derefed and all(t.op == 'dict' and t.args and all(
      s.op == 'kv' for s in t.args) for t in derefed):
    keys = [s.args[0] for s in derefed[0].args]
    if all([s.args[0] for s in t.args] == keys for t in derefed):
      return I.alloc(st, tm.seq('dict', [mk('kv', k, tree_map(
          I, fn, [t.args[i].args[1] for t in derefed], st, node))
                                        for i, k in enumerate(keys)]))
  trees = tuple(I.reify(t, st) for t in trees)
  if derefed and derefed[0].op == 'dict' and all(
      t.op != 'splat' for t in derefed) and all(
          s.op == 'kv' for s in derefed[0].args):
    return I.alloc(st, tm.seq('dict', [mk('kv', s.args[0], tree_map(
        I, fn, [s.args[1]] + [I.getindex(t, s.args[0], st)
                              for t in derefed[1:]], st, node))
                                      for s in derefed[0].args]))
  if len(derefed) == 1 and derefed[0].op == 'ite':
    c, a, b = derefed[0].args
    if 'dict' in (a.op, b.op) or is_array(I, a) or is_array(I, b):
      return tm.ite(c, I.reify(tree_map(I, fn, [a], st, node), st),
                    I.reify(tree_map(I, fn, [b], st, node), st))
  if derefed and derefed[0].op != 'splat' and is_array(I, derefed[0]):
    return I.call(fn, list(derefed), [], st, node)
  lam = as_lam(I, fn, trees, st, node)
  return mk('treemap', lam, trees)


def is_bool_typed(I, t):
  if t not in I.types:
    return False
  ann, module = I.types[t]
  ann = I._ann_parts(ann, module)
  d = I.p.resolve_dotted_expr(module, ann) if ann is not None else None
  return d == 'builtins.bool'


ARRAY_TYPES = {'xarray.DataArray', 'numpy.ndarray',
               'xarray.core.dataarray.DataArray', 'builtins.float',
               'builtins.int'}
ARRAY_OPS = {'where', 'astype', 'reduce', 'fn', 'isnull', 'band', 'bor', 'inv',
             'eq', 'ne', 'lt', 'le'}
# xarray calls that return an array (given array operands).
ARRAY_CALLS = {'xarray.DataArray', 'xarray.zeros_like', 'xarray.ones_like',
               'xarray.full_like', 'numpy.arange', 'numpy.linspace',
               'xarray.where', 'xarray.dot', 'wbxspec.prelude.mean'}


def is_array(I, t, depth=0):
  """The term certainly denotes a single array (a leaf of a tree)."""
  if depth > 12:
    return False
  if t in I.types:
    ann, module = I.types[t]
    ann = I._ann_parts(ann, module)
    d = I.p.resolve_dotted_expr(module, ann) if ann is not None else None
    return d in ARRAY_TYPES
  if t.op in ('num',):
    return True
  if t.op == 'sum':
    return any(is_array(I, m, depth + 1) for m, _ in t.args[1])
  if t.op == 'prod':
    return any(is_array(I, b, depth + 1) for b, _ in t.args[0])
  if t.op in ARRAY_OPS:
    return any(is_array(I, x, depth + 1) for x in t.args
               if isinstance(x, tm.T) and x.op != 'num')
  if t.op == 'ite':
    return is_array(I, t.args[1], depth + 1) and is_array(
        I, t.args[2], depth + 1)
  if t.op == 'call' and isinstance(t.args[0], tm.T) and t.args[0].op in (
      'ext', 'func'):
    return t.args[0].args[0] in ARRAY_CALLS
  if t.op == 'call' and t.args[0].op == 'attr':
    return is_array(I, t.args[0].args[0], depth + 1) and (
        t.args[0].args[1] in ARRAY_METHODS)
  return False


ARRAY_METHODS = {'sel', 'isel', 'rename', 'expand_dims', 'compute', 'load',
                 'clip', 'copy', 'fillna', 'drop_vars', 'assign_coords',
                 'transpose', 'squeeze', 'diff', 'cumsum', 'quantile'}


def as_lam(I, fn, trees, st, node):
  """Eta-expanded callback term."""
  if fn.op in ('lam',):
    return fn
  saved = I.loops
  if any(t.op == 'splat' for t in trees):
    b = I.fresh()
    s2 = st.copy()
    body = I.reify(I.call(fn, [mk('splat', b)], [], s2, node), s2)
    r = tm.mk_lam([b], body, True)
  else:
    bs = [I.fresh() for _ in trees]
    s2 = st.copy()
    body = I.reify(I.call(fn, list(bs), [], s2, node), s2)
    r = tm.mk_lam(bs, body)
  I.loops = saved
  return r


def _untuple_segs(t):
  """list term of k-tuples -> k list terms, or None."""
  if t.op not in ('list', 'tuple'):
    return None

  def width(segs):
    w = None
    for s in segs:
      if s.op == 'item':
        its = tm.plain_items(s.args[0]) if s.args[0].op == 'tuple' else None
        x = len(its) if its is not None else None
      elif s.op == 'guard':
        x = width(s.args[1:])
      elif s.op == 'comp':
        x = width(s.args[2:])
      else:
        x = None
      if x is None or (w is not None and w != x):
        return None
      w = x
    return w

  def proj(s, i):
    if s.op == 'item':
      return mk('item', tm.plain_items(s.args[0])[i])
    if s.op == 'guard':
      return mk('guard', s.args[0], *[proj(x, i) for x in s.args[1:]])
    return mk('comp', s.args[0], s.args[1], *[proj(x, i) for x in s.args[2:]])
  w = width(t.args)
  if not w:
    return None
  return [mk('list', *[proj(s, i) for s in t.args]) for i in range(w)]


# ---------------------------------------------------------------------------
# Calls that need the interpreter state


def call_special(I, fn, pos, kw, st, node):
  kwd = dict(kw)
  if fn.op == 'attr':
    return container_method(I, fn, pos, kw, st, node)
  if fn.op != 'ext':
    return None
  d = fn.args[0]
  if d == 'builtins.super' and pos:
    cls = pos[0].args[0] if pos[0].op == 'cls' else None
    if cls and len(pos) == 2:
      actual = I.class_of(pos[1], st) or cls
      return mk('super', pos[1], actual, cls)
  if d == 'builtins.len' and len(pos) == 1:
    cls = I.class_of(pos[0], st)
    if cls:
      f, _ = I.p.lookup(cls, '__len__')
      if f is not None and not I.overridden(cls, '__len__', pos[0], st):
        return I.call_func(f, [pos[0]], [], st, node)
    return length(I.reify(pos[0], st))
  if d in ('builtins.int', 'builtins.float') and len(pos) == 1 and not kw:
    x = I.reify(pos[0], st)
    if x is TRUE or x is FALSE:
      return const(int(x is TRUE))
    if x.op in tm.BOOLISH or is_bool_typed(I, x):
      return tm.ite(tm.truth(x), const(1), const(0))
  if d == 'typing.cast' and len(pos) == 2:
    return pos[1]
  if d == 'functools.lru_cache' and not (pos and pos[0].op in (
      'func', 'closure', 'bound')):
    return mk('ext', 'functools.cache')
  if d in ('functools.cache', 'functools.lru_cache') and len(pos) == 1:
    return pos[0]  # memoisation itself does not change values
  if d == 'functools.partial' and pos:
    return mk('partial', pos[0], tuple(pos[1:]), tuple(kw))
  if d in ('builtins.list', 'builtins.tuple', 'builtins.set',
           'builtins.frozenset', 'builtins.sorted') and len(pos) <= 1:
    kind = {'builtins.frozenset': 'set'}.get(d, d.split('.')[1])
    if not pos:
      return I.alloc(st, mk(kind)) if kind != 'tuple' else mk('tuple')
    if kind == 'sorted':
      x = I.reify(tm.seq('list', I.splat_segs(pos[0], st)), st)
      x = tm.seq('set', list(x.args)) if False else x
      return mk('sorted', x, _kwsort([(k, I.reify(v, st)) for k, v in kw]))
    segs = I.splat_segs(pos[0], st)
    segs = [I.reify(s, st) if kind == 'set' else s for s in segs]
    r = tm.seq(kind, segs)
    return r if kind == 'tuple' else I.alloc(st, r)
  if d == 'builtins.dict':
    segs = []
    if pos:
      x = I.deref(pos[0], st)
      if x.op == 'dict':
        segs.extend(x.args)
      elif x.op in ('list', 'tuple'):
        for s in x.args:
          segs.append(_pair_to_kv(s))
      elif x.op == 'dict_items':
        segs.append(mk('dsplat', I.deref(x.args[0], st)))
      elif x.op in ('zip', 'enumerate', 'product') or I.is_generator_call(x):
        plan = I.iter_plan(x, st)
        segs = I.plan_segs(plan, st, lambda v, s: [mk(
            'kv', index(v, const(0)), index(v, const(1)))])
      else:
        segs.append(mk('dsplat', I.reify(x, st)))
    for k, v in kw:
      if k == '**':
        segs.append(mk('dsplat', I.deref(v, st)))
      else:
        segs.append(mk('kv', const(k), v))
    return I.alloc(st, tm.seq('dict', segs))
  if d in ('collections.defaultdict', 'collections.OrderedDict',
           'collections.Counter'):
    r = I.alloc(st, mk('dict'))
    if d.endswith('defaultdict') and pos:
      I.ddefault[r.args[0]] = pos[0]
    elif pos:
      return call_special(I, mk('ext', 'builtins.dict'), pos, kw, st, node)
    return r
  if d in ('builtins.set.intersection', 'builtins.frozenset.intersection'):
    p = [I.reify(x, st) for x in pos]
    r = intersection(I, p)
    if r is None and len(p) == 1 and p[0].op == 'splat':
      return mk('fold_band', p[0].args[0])
    return I.alloc(st, r) if r is not None and r.op == 'set' else r
  if d == 'builtins.enumerate':
    return mk('enumerate', pos[0], pos[1] if len(pos) > 1 else kwd.get(
        'start', tm.ZERO))
  if d == 'builtins.zip':
    if not any(p.op == 'splat' for p in pos):
      return mk('zip', *pos)
    return mk('zipstar', *[I.reify(p, st) for p in pos])
  if d == 'itertools.product' and not kw and not any(
      p.op == 'splat' for p in pos):
    return mk('product', *pos)
  if d == 'itertools.chain':
    return mk('chain', *pos) if not any(p.op == 'splat' for p in pos) else None
  if d == 'builtins.range':
    p = [I.reify(x, st) for x in pos]
    if len(p) == 1:
      return mk('range', tm.ZERO, p[0], tm.ONE)
    if len(p) == 2:
      return mk('range', p[0], p[1], tm.ONE)
    return mk('range', *p)
  if d in ('builtins.map', 'builtins.filter') and len(pos) == 2:
    plan = I.iter_plan(pos[1], st)
    if d.endswith('map'):
      segs = I.plan_segs(plan, st, lambda v, s: [mk('item', I.reify(I.call(
          pos[0], [v], [], s, node), s))])
    else:
      def flt(v, s):
        c = tm.truth(v if pos[0] is NONE else I.reify(
            I.call(pos[0], [v], [], s, node), s))
        return tm.guard(c, [mk('item', v)])
      segs = I.plan_segs(plan, st, flt)
    return I.alloc(st, tm.seq('list', segs))
  if d in ('builtins.any', 'builtins.all') and len(pos) == 1:
    segs = [I.reify(s, st) for s in I.splat_segs(pos[0], st)]
    if d.endswith('all'):
      return tm.lnot(any_of([_neg_seg(s) for s in segs]))
    return any_of(segs)
  if d == 'builtins.sum' and 1 <= len(pos) <= 2:
    start = pos[1] if len(pos) > 1 else kwd.get('start', tm.ZERO)
    cls = None
    segs = I.splat_segs(pos[0], st)
    if segs and all(s.op == 'item' for s in segs):
      cls = I.class_of(segs[0].args[0], st)
    if cls is None:
      segs = [I.reify(s, st) for s in segs]
      terms = [s.args[0] for s in segs if s.op == 'item']
      rest = [s for s in segs if s.op != 'item']
      r = tm.add(I.reify(start, st), *terms)
      if rest:
        r = tm.add(r, mk('bsum', tm.seq('list', rest)))
      return r
  if d in ('math.prod', 'numpy.prod') and len(pos) == 1 and not kw:
    c = I.deref(pos[0], st)
    if c.op in ('list', 'tuple'):
      segs = [I.reify(s, st) for s in c.args]
      terms = [s.args[0] for s in segs if s.op == 'item']
      rest = [s for s in segs if s.op != 'item']
      r = tm.mul(tm.ONE, *terms)
      return tm.mul(r, mk('bprod', tm.seq('list', rest))) if rest else r
  if d == 'functools.reduce' and len(pos) >= 2:
    plan = I.iter_plan(pos[1], st)
    if all(p[0] == 'elem' for p in plan):
      vals = [p[1] for p in plan]
      if len(pos) > 2:
        vals = [pos[2]] + vals
      if vals:
        acc = vals[0]
        for v in vals[1:]:
          acc = I.call(pos[0], [acc, v], [], st, node)
        return acc
    it = I.reify(pos[1], st)
    b = I.fresh()
    if pos[0].op == 'ext' and pos[0].args[0] in (
        'operator.and_', 'builtins.set.intersection') and len(pos) == 2:
      return mk('fold_band', it)
    acc = mk('accv', I.fresh())
    init = I.reify(pos[2], st) if len(pos) > 2 else index(it, tm.ZERO)
    rest = it if len(pos) > 2 else index(
        it, mk('slice', tm.ONE, tm.NONE, tm.NONE))
    val = I.reify(I.call(pos[0], [acc, b], [], st, node), st)
    return I.fold(init, acc, val, b, rest, {acc: (init, val)}, st)
  if d == 'builtins.getattr' and len(pos) >= 2:
    n = I.reify(pos[1], st)
    if n.op == 'const' and n.args[0] == 'str':
      v = I.getattr(pos[0], n.args[1], st, node)
      if len(pos) == 3:
        has = mk('hasattr', I.reify(pos[0], st), n)
        if n.args[1] in COORD_ATTRS:
          has = mk('hascoord', I.reify(pos[0], st), n)
        return tm.ite(has, v, pos[2])
      return v
    return mk('call', fn, tuple(I.reify(p, st) for p in pos), ())
  if d == 'builtins.setattr' and len(pos) == 3:
    n = I.reify(pos[1], st)
    if n.op == 'const':
      I.setattr(pos[0], n.args[1], pos[2], st, node)
      return NONE
  if d == 'builtins.hasattr' and len(pos) == 2:
    x = I.deref(pos[0], st)
    n = pos[1]
    if x.op == 'new' and n.op == 'const':
      if any(k == n.args[1] for k, _ in x.args[1]):
        return TRUE
      f, _ = I.p.lookup(x.args[0], n.args[1])
      return TRUE if f is not None else FALSE
    if n.op == 'const' and n.args[1] in COORD_ATTRS:
      return mk('hascoord', I.reify(x, st), n)
    return mk('hasattr', I.reify(x, st), n)
  if d == 'builtins.isinstance' and len(pos) == 2:
    x = I.deref(pos[0], st)
    if x.op == 'new' or (pos[0].op == 'ref'):
      def test(ty):
        ty = I.deref(ty, st)
        if ty.op in ('tuple', 'typeunion'):
          its = tm.plain_items(ty) if ty.op == 'tuple' else ty.args
          return tm.lor(*[test(t) for t in its])
        if x.op == 'new':
          if ty.op == 'cls':
            return TRUE if I.p.isa(x.args[0], ty.args[0]) else FALSE
          if ty.op == 'ext' and ty.args[0].startswith('builtins.'):
            return FALSE
        return isinstance_(I.reify(x, st), ty)
      return test(pos[1])
  if d == 'builtins.type' and len(pos) == 1:
    c = I.class_of(pos[0], st)
    if c:
      x = I.deref(pos[0], st)
      if x.op == 'new':
        return mk('cls', c)
    return mk('attr', I.reify(pos[0], st), '__class__')
  if d == 'dataclasses.replace' and len(pos) == 1:
    x = I.deref(pos[0], st)
    if x.op == 'new':
      fields = dict(x.args[1])
      fields.update(kwd)
      return I.alloc(st, mk('new', x.args[0], tuple(sorted(fields.items()))))
    cls = I.class_of(pos[0], st)
    if cls and I.p.is_dataclass(cls) and not I.p.subclasses(cls) and all(
        k != '**' for k, _ in kw) and I.p.lookup(cls, '__post_init__')[0] is (
            None):
      fields = {n: I.getattr(pos[0], n, st, node)
                for n, _, _ in I.p.dataclass_fields(cls)}
      fields.update(kwd)
      return I.alloc(st, mk('new', cls, tuple(sorted(fields.items()))))
    return mk('replace', I.reify(x, st), _kwsort(
        [(k, I.reify(v, st)) for k, v in kw]))
  if d in ('copy.copy', 'copy.deepcopy') and len(pos) == 1:
    x = I.deref(pos[0], st)
    if x.op in ('list', 'dict', 'set', 'new'):
      return I.alloc(st, I.reify(x, st))
    return mk('call', fn, (I.reify(x, st),), ())
  if d == 'builtins.iter' and len(pos) == 1:
    return pos[0]
  if d == 'builtins.next' and pos:
    c = I.deref(pos[0], st)
    its = tm.plain_items(c) if c.op in ('list', 'tuple') else None
    if its:
      return its[0]
    segs = [I.reify(s, st) for s in I.splat_segs(pos[0], st)]
    r = mk('first', tm.seq('list', segs))
    if len(pos) > 1:
      return mk('first', tm.seq('list', segs), I.reify(pos[1], st))
    return r
  if d == 'builtins.reversed' and len(pos) == 1:
    c = I.deref(pos[0], st)
    its = tm.plain_items(c) if c.op in ('list', 'tuple') else None
    if its is not None:
      return tm.lst(*reversed(its))
    return index(I.reify(c, st), mk('slice', NONE, NONE, const(-1)))
  if d in ('builtins.property', 'builtins.staticmethod'):
    return pos[0]
  if d == 'contextlib.suppress':
    return None
  return None


def _pair_to_kv(s):
  if s.op == 'item':
    return mk('kv', index(s.args[0], const(0)), index(s.args[0], const(1)))
  if s.op == 'guard':
    return mk('guard', s.args[0], *[_pair_to_kv(x) for x in s.args[1:]])
  if s.op == 'comp':
    return mk('comp', s.args[0], s.args[1], *[_pair_to_kv(x)
                                              for x in s.args[2:]])
  return mk('dsplat', s.args[0])


def _neg_seg(s):
  if s.op == 'item':
    return mk('item', tm.lnot(tm.truth(s.args[0])))
  if s.op == 'guard':
    return mk('guard', s.args[0], *[_neg_seg(x) for x in s.args[1:]])
  if s.op == 'comp':
    return mk('comp', s.args[0], s.args[1], *[_neg_seg(x) for x in s.args[2:]])
  return mk('negated', s)


def any_of(segs):
  out = []
  for s in segs:
    if s.op == 'item':
      out.append(tm.truth(s.args[0]))
    elif s.op == 'guard':
      out.append(tm.land(s.args[0], any_of(s.args[1:])))
    elif s.op == 'comp':
      inner = any_of(s.args[2:])
      if inner is FALSE:
        continue
      out.append(mk('any', mk('comp', s.args[0], s.args[1],
                              mk('item', inner))))
    else:
      out.append(mk('any', s))
  return tm.lor(*out)


def container_method(I, fn, pos, kw, st, node):
  base, name = fn.args
  c = I.deref(base, st) if base.op == 'ref' else base
  kwd = dict(kw)
  if c.op in ('list', 'set', 'dict') and base.op == 'ref':
    r = base.args[0]
    if name in ('append', 'add') and len(pos) == 1:
      st.heap[r] = tm.seq(c.op, list(c.args) + [mk('item', I.reify(
          pos[0], st) if c.op == 'set' else pos[0])])
      return NONE
    if name in ('extend', 'update') and c.op in ('list', 'set') and pos:
      segs = list(c.args)
      for p in pos:
        segs += I.splat_segs(p, st)
      st.heap[r] = tm.seq(c.op, segs)
      return NONE
    if name == 'update' and c.op == 'dict':
      segs = list(c.args)
      for p in pos:
        x = I.deref(p, st)
        if x.op == 'dict_items':
          x = I.deref(x.args[0], st)
        segs.append(mk('dsplat', x))
      segs += [mk('kv', const(k), v) if k != '**' else mk('dsplat', v)
               for k, v in kw]
      st.heap[r] = tm.seq('dict', segs)
      return NONE
    if name == 'setdefault' and c.op == 'dict' and len(pos) == 2:
      k = I.reify(pos[0], st)
      v = dict_lookup(c, k)
      if v is not None and all(s.op == 'kv' for s in c.args):
        return v
      if contains(k, c) is FALSE:
        st.heap[r] = tm.seq('dict', list(c.args) + [mk('kv', k, pos[1])])
        return pos[1]
      return mk('index', base, k)
    if name == 'pop' and c.op == 'dict' and pos:
      k = I.reify(pos[0], st)
      v = dict_lookup(c, k)
      segs = [s for s in c.args if not (s.op == 'kv' and s.args[0] is k)]
      if v is not None and len(segs) != len(c.args):
        st.heap[r] = mk('dict', *segs)
        return v
      old = I.reify(c, st)
      st.heap[r] = mk('dict', mk('dsplat', mk('without', old, k)))
      if len(pos) > 1:
        return tm.ite(contains(k, old), index(old, k), I.reify(pos[1], st))
      return mk('index', old, k)
    if name in ('pop', 'remove', 'insert', 'sort', 'reverse', 'clear',
                'discard', 'popitem'):
      old = I.reify(c, st)
      args = tuple(I.reify(p, st) for p in pos)
      its = tm.plain_items(old) if c.op != 'dict' else None
      if name == 'pop' and its and c.op == 'list':
        i = -1 if not pos else (
            int(pos[0].args[0]) if pos[0].op == 'num' else None)
        if i is not None and -len(its) <= i < len(its):
          v = its.pop(i)
          st.heap[r] = tm.lst(*its)
          return v
      if name == 'insert' and its is not None and pos[0].op == 'num':
        its.insert(int(pos[0].args[0]), pos[1])
        st.heap[r] = tm.lst(*its)
        return NONE
      if name == 'clear':
        st.heap[r] = mk(c.op)
        return NONE
      st.heap[r] = mk(c.op, mk('dsplat' if c.op == 'dict' else 'splat', mk(
          'mutated', name, old, args)))
      return mk('popped', name, old, args) if name in (
          'pop', 'popitem') else NONE
    if name == 'copy' and not pos:
      return I.alloc(st, c)
    if name == 'get' and c.op == 'dict' and pos:
      k = I.reify(pos[0], st)
      v = table_lookup(c, k)
      has = contains(k, I.reify(c, st))
      d = pos[1] if len(pos) > 1 else NONE
      if has is TRUE and v is not None:
        return v
      if has is FALSE:
        return d
      return tm.ite(has, v if v is not None else mk('index', I.reify(
          c, st), k), I.reify(d, st))
    if name in ('items', 'keys', 'values') and not pos and c.op == 'dict':
      return mk('dict_' + name, base)
    if name == 'intersection' and c.op == 'set':
      x = intersection(I, [I.reify(c, st)] + [I.reify(p, st) for p in pos])
      if x is not None:
        return I.alloc(st, x) if x.op == 'set' else x
    if name in ('issubset', 'issuperset', 'intersection', 'union',
                'difference', 'index', 'count', 'isdisjoint'):
      return method(I.reify(c, st), name, [I.reify(p, st) for p in pos],
                    [(k, I.reify(v, st)) for k, v in kw])
    return None
  if c.op == 'ite' and name in ('items', 'keys', 'values', 'append', 'extend',
                                'add', 'update', 'get'):
    a = container_method(I, mk('attr', c.args[1], name), pos, kw, st, node)
    b = container_method(I, mk('attr', c.args[2], name), pos, kw, st, node)
    if a is not None and b is not None:
      return tm.ite(c.args[0], a, b)
    return None
  if base.op == 'ext' and False:
    return None
  if c.op == 'dict' and name in ('items', 'keys', 'values'):
    return mk('dict_' + name, c)
  if name in ('append', 'extend', 'add', 'update', 'pop', 'clear', 'insert',
              'setdefault', 'remove', 'sort', 'popitem', 'discard') and (
                  base.op not in ('ext', 'mod', 'func')):
    # mutation of an object we do not own
    I.event('mutcall', st, (I.reify(base, st), const(name)) + tuple(
        I.reify(p, st) for p in pos), node)
    return None
  return None
