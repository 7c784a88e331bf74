"""Hash-consed value-graph terms with local normalisation.

A term denotes the value of an expression as a function of the inputs of the
analysed function.  Two expressions that the smart constructors below map to the
same term have the same value (up to floating point re-association); the
constructors therefore *are* the congruence rules of the value numbering.
"""

from __future__ import annotations

from fractions import Fraction
import hashlib
import itertools

_TABLE = {}
_COUNT = itertools.count()


class T:
  __slots__ = ('op', 'args', 'uid', 'h', 'dig', 'kids', 'live', 'sig')

  def __repr__(self):
    return show(self)


def _enc(op, args):
  out = [op.encode(), b'(']
  for a in args:
    if isinstance(a, T):
      out.append(a.dig)
    elif isinstance(a, tuple):
      out.append(_enc('', a))
    else:
      out.append(type(a).__name__.encode() + repr(a).encode())
    out.append(b',')
  out.append(b')')
  return b''.join(out)


def _children(a):
  for x in a:
    if isinstance(x, T):
      yield x
    elif isinstance(x, tuple):
      yield from _children(x)


def mk(op, *args):
  key = (op, args)
  t = _TABLE.get(key)
  if t is None:
    t = T()
    t.op = op
    t.args = args
    t.uid = next(_COUNT)
    h = 0
    for a in args:
      if isinstance(a, T):
        if a.h > h:
          h = a.h
      elif isinstance(a, tuple):
        for b in a:
          if isinstance(b, T) and b.h > h:
            h = b.h
          elif isinstance(b, tuple):
            for c in b:
              if isinstance(c, T) and c.h > h:
                h = c.h
    # h = height of bound variables introduced strictly inside this term.
    if op in ('comp', 'lam', 'fold', 'first'):
      h += 1
    t.h = h
    t.kids = tuple(_children(args))
    sig = 1 << (t.uid & 2047)
    for k in t.kids:
      sig |= k.sig
    t.sig = sig  # over-approximates the set of sub-terms
    # mentions heap objects, closures or methods bound to objects
    t.live = op in ('ref', 'closure') or any(k.live for k in t.kids) or (
        op == 'bound' and t.kids[0].op == 'new')
    t.dig = hashlib.blake2b(_enc(op, args), digest_size=12).digest()
    _TABLE[key] = t
  return t


# ---------------------------------------------------------------------------
# Constants


def const(v):
  if isinstance(v, bool) or v is None or v is Ellipsis:
    return mk('const', type(v).__name__, repr(v) if v is Ellipsis else v)
  if isinstance(v, (int, Fraction)):
    f = Fraction(v)
    return mk('num', f)
  if isinstance(v, float):
    if v != v:
      return NAN
    if v in (float('inf'), float('-inf')):
      return mk('const', 'inf', '+' if v > 0 else '-')
    return mk('num', Fraction(repr(v)))
  if isinstance(v, str):
    return mk('const', 'str', v)
  if isinstance(v, bytes):
    return mk('const', 'bytes', v)
  if isinstance(v, complex):
    return mk('const', 'complex', repr(v))
  raise TypeError(v)


def is_const(t):
  return t.op in ('const', 'num')


def const_val(t):
  if t.op == 'num':
    f = t.args[0]
    return int(f) if f.denominator == 1 else float(f)
  return t.args[1]


NONE = mk('const', 'NoneType', None)
TRUE = mk('const', 'bool', True)
FALSE = mk('const', 'bool', False)
NAN = mk('const', 'nan', 'nan')
ELL = mk('const', 'ellipsis', 'Ellipsis')
UNDEF = mk('undef')
ZERO = const(0)
ONE = const(1)


def is_str(t):
  return (t.op == 'const' and t.args[0] == 'str') or t.op == 'fstr'


# ---------------------------------------------------------------------------
# Ordering key (structural digest, stable across runs).


def key(t):
  return t.dig


def _sorted(ts):
  return sorted(ts, key=key)


# ---------------------------------------------------------------------------
# Arithmetic: ('sum', const, ((mono, coef), ...)), ('prod', ((base, exp), ...))


def _as_sum(t):
  """-> (Fraction const, {mono: coef})."""
  if t.op == 'num':
    return t.args[0], {}
  if t.op == 'sum':
    return t.args[0], dict(t.args[1])
  return Fraction(0), {t: Fraction(1)}


def _mk_sum(c, d):
  items = [(m, k) for m, k in d.items() if k is not None]
  if not items:
    return mk('num', c)
  if len(items) == 1 and c == 0 and items[0][1] == 1:
    return items[0][0]
  items.sort(key=lambda mk_: key(mk_[0]))
  return mk('sum', c, tuple(items))


def add(*ts):
  c, d = Fraction(0), {}
  for t in ts:
    c2, d2 = _as_sum(t)
    c += c2
    for m, k in d2.items():
      if m in d:
        d[m] += k
        if d[m] == 0:
          del d[m]
      else:
        d[m] = k
  return _mk_sum(c, d)


def scale(t, k):
  k = Fraction(k)
  c, d = _as_sum(t)
  if k == 0 and d:
    return mk('zero_times', t)
  return _mk_sum(c * k, {m: x * k for m, x in d.items()})


def neg(t):
  return scale(t, -1)


def sub(a, b):
  return add(a, neg(b))


def _as_prod(t):
  """-> (coef, {base: exp})."""
  if t.op == 'num':
    return t.args[0], {}
  if t.op == 'prod':
    return Fraction(1), dict(t.args[0])
  if t.op == 'sum':
    c, items = t.args
    if c == 0 and len(items) == 1:
      m, k = items[0]
      _, d = _as_prod(m)
      return k, d
    # Make sums primitive: factor out the leading coefficient.
    lead = items[0][1]
    if lead != 1:
      return lead, {scale(t, 1 / lead): Fraction(1)}
  return Fraction(1), {t: Fraction(1)}


def _mk_prod(k, d):
  items = [(b, e) for b, e in d.items() if e != 0]
  if not items:
    return mk('num', k)
  if len(items) == 1 and items[0][1] == 1:
    return scale(items[0][0], k) if k != 1 else items[0][0]
  items.sort(key=lambda x: key(x[0]))
  p = mk('prod', tuple(items))
  return scale(p, k) if k != 1 else p


def mul(*ts):
  k, d = Fraction(1), {}
  for t in ts:
    k2, d2 = _as_prod(t)
    k *= k2
    for b, e in d2.items():
      d[b] = d.get(b, Fraction(0)) + e
  lg = [b for b, e in d.items() if logical(b) and e >= 1]
  if lg and (len(d) > 1 or k != 1 or d[lg[0]] != 1):
    # a product of conditions is their conjunction
    if len(lg) == len(d) and k == 1:
      return band(*lg)
    for b in lg:
      del d[b]
    for b in lg:
      for c in b.args if b.op == 'band' else (b,):
        d[c] = Fraction(1)
  if k == 0 and d:
    return mk('zero_times', _mk_prod(Fraction(1), d))
  return _mk_prod(k, d)


def power(a, e):
  if e.op == 'num':
    e = e.args[0]
    if logical(a) and e >= 1 and e.denominator == 1:
      return a
    if a.op == 'num' and e.denominator == 1 and (a.args[0] != 0 or e > 0):
      return mk('num', a.args[0] ** int(e))
    k, d = _as_prod(a)
    if e.denominator == 1:
      kk = k ** int(e) if (k != 0 or e > 0) else Fraction(1)
      if k == 0 and e <= 0:
        return mk('pow', a, mk('num', e))
      return _mk_prod(kk, {b: x * e for b, x in d.items()})
    # Fractional power: treat the whole as an atom with rational exponent when
    # it is not itself a pure integer power we could wrongly collapse.
    if len(d) == 1 and k == 1:
      (b, x), = d.items()
      if x == 1 or x.denominator != 1:
        return _mk_prod(Fraction(1), {b: x * e})
    return mk('prod', ((mk('group', a), e),))
  return mk('pow', a, e)


def div(a, b):
  if b.op == 'num' and b.args[0] == 0:
    return mk('div0', a)
  return mul(a, power(b, const(-1)))


def sqrt(a):
  return power(a, mk('num', Fraction(1, 2)))


# ---------------------------------------------------------------------------
# Strings


def fstr(parts):
  out = []
  for p in parts:
    sub_ = p.args[0] if p.op == 'fstr' else (p,)
    for q in sub_:
      if q.op == 'num':
        q = mk('const', 'str', str(const_val(q)))
      elif q.op == 'const' and q.args[0] in ('NoneType', 'bool'):
        q = mk('const', 'str', str(q.args[1]))
      if (q.op == 'const' and q.args[0] == 'str' and out
          and out[-1].op == 'const'):
        out[-1] = mk('const', 'str', out[-1].args[1] + q.args[1])
      elif q.op == 'const' and q.args[0] == 'str' and q.args[1] == '':
        continue
      else:
        out.append(q)
  if not out:
    return mk('const', 'str', '')
  if len(out) == 1 and out[0].op == 'const':
    return out[0]
  return mk('fstr', tuple(out))


# ---------------------------------------------------------------------------
# Booleans


def lnot(t):
  if t is TRUE:
    return FALSE
  if t is FALSE:
    return TRUE
  if t.op == 'not':
    return t.args[0]
  if t.op == 'and':
    return lor(*[lnot(a) for a in t.args])
  if t.op == 'or':
    return land(*[lnot(a) for a in t.args])
  if t.op == 'ne':
    return mk('eq', *t.args)
  if t.op == 'lt':
    return mk('le', t.args[1], t.args[0])
  if t.op == 'le':
    return mk('lt', t.args[1], t.args[0])
  return mk('not', t)


def land(*ts):
  out = []
  for t in ts:
    for u in (t.args if t.op == 'and' else (t,)):
      if u is TRUE or u in out:
        continue
      if u is FALSE or lnot(u) in out:
        return FALSE
      out.append(u)
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  if sum(u.op == 'eq' for u in out) > 1:
    out = _equal_star(out)
  return mk('and', *_sorted(out))


def _equal_star(conds):
  """a == b and b == c, written as equalities with the first of the class."""
  eqs = [u for u in conds if u.op == 'eq']
  classes = []
  for u in eqs:
    new = set(u.args)
    rest = []
    for c in classes:
      if c & new:
        new |= c
      else:
        rest.append(c)
    classes = rest + [new]
  if all(len(c) == 2 for c in classes):
    return conds
  out = [u for u in conds if u.op != 'eq']
  for c in classes:
    m, *others = _sorted(c)
    out += [mk('eq', *_sorted([m, x])) for x in others]
  return out


def lor(*ts):
  out = []
  for t in ts:
    for u in (t.args if t.op == 'or' else (t,)):
      if u is FALSE or u in out:
        continue
      if u is TRUE or lnot(u) in out:
        return TRUE
      out.append(u)
  if not out:
    return FALSE
  if len(out) == 1:
    return out[0]
  # absorption, (a and x) or (not a and x) -> x, a or (not a and y) -> a or y
  for i, u in enumerate(out):
    nu = lnot(u)
    for j, v in enumerate(out):
      if i == j or v.op != 'and':
        continue
      rest = out[:j] + out[j + 1:]
      if u in v.args:
        return lor(*rest)
      if nu in v.args:
        return lor(*rest, land(*[x for x in v.args if x is not nu]))
      if u.op == 'and' and len(u.args) == len(v.args):
        only_u = [x for x in u.args if x not in v.args]
        only_v = [x for x in v.args if x not in u.args]
        if len(only_u) == 1 and len(only_v) == 1 and lnot(
            only_u[0]) is only_v[0]:
          m = land(*[x for x in u.args if x in v.args])
          return lor(*[x for k, x in enumerate(out) if k not in (i, j)], m)
      if u.op == 'and' and len(u.args) < len(v.args):
        # (p and a) or (p and not a and b) -> (p and a) or (p and b)
        extra = [x for x in u.args if x not in v.args]
        if len(extra) == 1 and lnot(extra[0]) in v.args:
          return lor(*rest, land(*[x for x in v.args
                                   if x is not lnot(extra[0])]))
  return mk('or', *_sorted(set(out)))


BOOLISH = {'eq', 'ne', 'lt', 'le', 'is', 'memb', 'not', 'and', 'or', 'truth',
           'isinstance', 'hasattr', 'exc', 'exists', 'callable', 'issubset',
           'hascoord'}


def _drop_len(t):
  if t.op == 'len':
    return t.args[0]
  return None


def truth(t):
  """Truthiness in a Python boolean context."""
  if is_const(t):
    if t.op == 'num':
      return TRUE if t.args[0] != 0 else FALSE
    if t is NAN or t.args[0] == 'inf' or t is ELL:
      return TRUE
    return TRUE if t.args[1] else FALSE
  if t.op == 'ne':
    return lnot(truth(mk('eq', *t.args)))
  if t.op == 'eq':
    a, b = t.args
    for x, y in ((a, b), (b, a)):
      if x is ZERO and _drop_len(y) is not None:
        return lnot(truth(_drop_len(y)))
    return t
  if t.op == 'lt':
    if t.args[0] is ZERO and _drop_len(t.args[1]) is not None:
      return truth(_drop_len(t.args[1]))
    return t
  if t.op == 'le':
    if t.args[0] is ONE and _drop_len(t.args[1]) is not None:
      return truth(_drop_len(t.args[1]))
    return t
  if t.op == 'len':
    return truth(t.args[0])
  if t.op in BOOLISH:
    return t
  if t.op == 'ite':
    return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
  if t.op in ('list', 'tuple', 'dict', 'set'):
    if not t.args:
      return FALSE
    if any(s.op in ('item', 'kv') for s in t.args):
      return TRUE
    conds = []
    if len(t.args) == 1 and t.args[0].op == 'comp' and len(
        t.args[0].args) == 3:
      b, it, s = t.args[0].args
      if s.op in ('item', 'kv'):
        return truth(it)  # one entry per element
      if s.op == 'guard' and len(s.args) == 2 and (
          s.args[1].op in ('item', 'kv')):
        return mk('any', mk_comp(b, it, [mk('item', s.args[0])]))
    for s in t.args:
      if s.op == 'guard' and all(
          x.op in ('item', 'kv') for x in s.args[1:]):
        conds.append(s.args[0])
      else:
        conds = None
        break
    if conds is not None:
      return lor(*conds)
    return mk('truth', t)
  if t.op == 'any':
    return t
  if t.op in ('func', 'cls', 'ext', 'closure', 'new', 'lam'):
    return TRUE
  if t.op == 'fstr' and any(
      p.op == 'const' and p.args[0] == 'str' for p in t.args[0]):
    return TRUE
  return mk('truth', t)


def ite(c, a, b):
  c = truth(c) if c.op not in BOOLISH else c
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == 'not':
    return ite(c.args[0], b, a)
  if c.op == 'le':  # canonical polarity for scalar order tests
    n = lnot(c)
    return mk_ite(n, b, a)
  return mk_ite(c, a, b)


def mk_ite(c, a, b):
  if a is TRUE and b is FALSE:
    return c
  if a is FALSE and b is TRUE:
    return lnot(c)
  if a.op == 'ite' and a.args[0] is c:
    a = a.args[1]
  if b.op == 'ite' and b.args[0] is c:
    b = b.args[2]
  if a is b:
    return a
  if b is ZERO and a.op == 'len' and c.op == 'truth' and (
      c.args[0] is a.args[0]):
    return a  # an empty container has length 0
  if a is TRUE and _is_bool(b):
    return lor(c, b)
  if a is FALSE and _is_bool(b):
    return land(lnot(c), b)
  if b is TRUE and _is_bool(a):
    return lor(lnot(c), a)
  if b is FALSE and _is_bool(a):
    return land(c, a)
  return mk('ite', c, a, b)


def _is_bool(t):
  return t is TRUE or t is FALSE or t.op in (
      'not', 'and', 'or', 'is', 'memb', 'truth', 'isinstance', 'hasattr',
      'hascoord', 'issubset', 'any')


# Elementwise booleans.


def inv(t):
  if t.op == 'inv':
    return t.args[0]
  if t.op == 'band':
    return bor(*[inv(a) for a in t.args])
  if t.op == 'bor':
    return band(*[inv(a) for a in t.args])
  if t.op == 'ne':
    return mk('eq', *t.args)
  if t.op == 'eq':
    return mk('ne', *t.args)
  if t is TRUE:
    return FALSE
  if t is FALSE:
    return TRUE
  if t.op == 'call' and t.args[0].op == 'attr':
    # relabelling commutes with element-wise negation
    if t.args[0].args[1] in ('assign_coords', 'expand_dims'):
      return mk('call', mk('attr', inv(t.args[0].args[0]), t.args[0].args[1]),
                *t.args[1:])
    if t.args[0].args[1] == 'copy' and not t.args[1] and not t.args[2]:
      return inv(t.args[0].args[0])
  return mk('inv', t)


def band(*ts):
  out = []
  for t in ts:
    for u in (t.args if t.op == 'band' else (t,)):
      if u not in out and u is not TRUE:
        out.append(u)
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  return mk('band', *_sorted(out))


def bor(*ts):
  out = []
  if len(ts) == 2 and mk('dict') in ts:
    return ts[0] if ts[1] is mk('dict') else ts[1]  # {} | x
  for t in ts:
    for u in (t.args if t.op == 'bor' else (t,)):
      if u not in out and u is not FALSE:
        out.append(u)
  if not out:
    return FALSE
  if len(out) == 1:
    return out[0]
  return mk('bor', *_sorted(out))


def where(c, a, b):
  """Elementwise selection (xr.where / DataArray.where / np.where)."""
  if a is b or c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is NAN:
    return mask(c, b)
  if b is NAN:
    return mask(inv(c), a)
  if c.op == 'inv':
    return where(c.args[0], b, a)
  if c.op == 'ne':
    return where(mk('eq', *c.args), b, a)
  if all(p.op == 'isnull' and strict(a, p.args[0]) for p in _parts(c)):
    return mask(c, b)  # a is missing there
  if a is ONE and b is ZERO and logical(c):
    return astype(c, const('float'))
  if a is ZERO and b is ONE and logical(c):
    return astype(inv(c), const('float'))
  return mk('where', c, a, b)


LOGICAL = {'lt', 'le', 'eq', 'ne', 'inv', 'band', 'bor', 'isnull'}


def logical(t):
  return t.op in LOGICAL


def astype(x, dt):
  """x.astype(dt); conditions become 0.0 or 1.0 in any floating type."""
  kind = dt.args[1] if is_str(dt) and dt.op == 'const' else ''
  if kind == 'bool':
    return x if logical(x) else compare('!=', x, ZERO)
  if _is_float(dt):
    if x.op == 'where' and x.args[1] is NAN:
      return mask(x.args[0], astype(x.args[2], dt))
    if logical(x):
      dt = const('float')
    if x.op == 'astype' and x.args[1] is const('float') and logical(x.args[0]):
      return x
  return mk('astype', x, dt)


def mask(c, x):
  """x, missing where c holds."""
  parts = set(c.args if c.op == 'bor' else (c,))
  while x.op == 'where' and x.args[1] is NAN:
    parts |= set(x.args[0].args if x.args[0].op == 'bor' else (x.args[0],))
    x = x.args[2]
  if x is NAN or TRUE in parts:
    return NAN
  x = _extremum(x, parts)
  parts = [p for p in parts if not (p.op == 'isnull' and strict(
      x, p.args[0]))]
  c = bor(*parts)
  return x if c is FALSE else mk('where', c, NAN, x)


def _extremum(x, parts):
  """max(u, v) spelled as a selection, missing where u or v are."""
  if x.op == 'where' and x.args[0].op in ('lt', 'le') and set(
      x.args[1:]) == set(x.args[0].args):
    u, v = x.args[0].args
    null = [p for y in (u, v) for p in _parts(isnull(y))]
    if all(p in parts for p in null):
      return mk('fn', 'maximum' if x.args[1] is v else 'minimum',
                *_sorted([u, v]))
  return x


def _parts(c):
  return () if c is FALSE else c.args if c.op == 'bor' else (c,)


# Functions that are missing exactly where an argument is.
STRICT_FN = {'abs', 'exp', 'sin', 'cos', 'deg2rad', 'sign', 'floor', 'ceil',
             'maximum', 'minimum'}


def _is_float(t):
  return t.op == 'const' and t.args[0] == 'str' and t.args[1].startswith(
      'float')


def isnull(x):
  """Where x is missing, in terms of what x is made of (finite data)."""
  if x is NAN:
    return TRUE
  if x.op in ('num', 'isnull', 'inv', 'band', 'bor', 'eq', 'ne', 'lt', 'le'):
    return FALSE
  if x.op == 'sum':
    return bor(*[isnull(m) for m, _ in x.args[1]])
  if x.op == 'prod' and all(e > 0 and e.denominator == 1
                            for _, e in x.args[0]):
    return bor(*[isnull(b) for b, _ in x.args[0]])
  if x.op == 'zero_times':
    return isnull(x.args[0])
  if x.op == 'fn' and x.args[0] in STRICT_FN:
    return bor(*[isnull(a) for a in x.args[1:]])
  if x.op == 'astype':
    if _is_float(x.args[1]):
      return isnull(x.args[0])
  if x.op == 'where':
    c, a, b = x.args
    if a is NAN:
      return bor(c, isnull(b))
  return mk('isnull', x)


def strict(x, y):
  """x is missing wherever y is (at the same cell)."""
  if x is y or x is NAN:
    return True
  if x.op == 'sum':
    return any(strict(m, y) for m, _ in x.args[1])
  if x.op == 'prod':
    return any(strict(b, y) for b, e in x.args[0])
  if x.op in ('zero_times', 'group'):
    return strict(x.args[0], y)
  if x.op == 'fn' and x.args[0] in STRICT_FN:
    return any(strict(a, y) for a in x.args[1:])
  if x.op == 'astype' and _is_float(x.args[1]):
    return strict(x.args[0], y)
  if x.op == 'where':
    c, a, b = x.args
    if a is NAN:
      return mk('isnull', y) in _parts(c) or strict(b, y)
    return strict(a, y) and strict(b, y)
  return False


SCALAR_BOOL = {'is', 'isinstance', 'hasattr', 'hascoord', 'memb', 'truth', 'exc', 'exists',
               'callable', 'issubset', 'any'}


def scalar_bool(t):
  if t.op in ('not', 'and', 'or'):
    return all(scalar_bool(x) for x in t.args)
  return t is TRUE or t is FALSE or t.op in SCALAR_BOOL


SETS = ('set', 'setop')


def as_set(x):
  if x.op == 'dict_keys':
    return as_set(x.args[0])
  if x.op in ('list', 'tuple', 'set'):
    if len(x.args) == 1 and x.args[0].op == 'splat':
      return as_set(x.args[0].args[0])
    return seq('set', list(x.args))
  return x


def issubset(x, y):
  its = plain_items(x) if x.op == 'set' else None
  if its is not None and len(its) <= 4:
    return land(*[mk('memb', i, y) for i in its])
  return mk('issubset', x, y)


def _tally(t):
  """(constant, [(condition, amount if it holds)]) of a count, or None."""
  terms, const_ = [], 0
  if t.op == 'num':
    return t.args[0], []
  if t.op == 'sum':
    const_, terms = t.args[0], list(t.args[1])
  else:
    terms = [(t, 1)]
  out = []
  for m, c in terms:
    if m.op != 'ite' or m.args[1].op != 'num' or m.args[2].op != 'num':
      return None
    out.append((m.args[0], c * m.args[1].args[0], c * m.args[2].args[0]))
  return const_, out


def _by_cases(op, a, b):
  """A comparison of numbers of conditions that hold, as a condition."""
  x, y = _tally(a), _tally(b)
  if x is None or y is None or not 1 <= len(x[1]) + len(y[1]) <= 4:
    return None
  parts = []
  n = len(x[1]) + len(y[1])
  for bits in range(1 << n):
    u, v = x[0], y[0]
    conds = []
    for i, (c, yes, no) in enumerate(x[1] + y[1]):
      on = bits >> i & 1
      conds.append(c if on else lnot(c))
      if i < len(x[1]):
        u += yes if on else no
      else:
        v += yes if on else no
    if {'<': u < v, '<=': u <= v, '==': u == v, '!=': u != v,
        '>': u > v, '>=': u >= v}[op]:
      parts.append(land(*conds))
  return lor(*parts)


def compare(op, a, b):
  if op in ('<', '>', '<=', '>=') and (a.op in SETS or b.op in SETS):
    # inclusion, not an order
    x, y = (a, b) if op[0] == '<' else (b, a)
    x, y = as_set(x), as_set(y)
    sub = issubset(x, y)
    return sub if len(op) == 2 else land(sub, lnot(issubset(y, x)))
  if a.op in ('ite', 'sum') or b.op in ('ite', 'sum'):
    r = _by_cases(op, a, b)
    if r is not None:
      return r
  if op == '<':
    r = mk('lt', a, b)
  elif op == '>':
    r = mk('lt', b, a)
  elif op == '<=':
    r = mk('le', a, b)
  elif op == '>=':
    r = mk('le', b, a)
  elif op in ('==', '!='):
    x, y = _sorted([a, b])
    if scalar_bool(a) and scalar_bool(b) and not (is_const(a) and is_const(b)):
      # both true or both false
      r = lor(land(a, b), land(lnot(a), lnot(b)))
      return r if op == '==' else lnot(r)
    if is_const(a) and is_const(b):
      same = a is b
      return (TRUE if same else FALSE) if op == '==' else (
          FALSE if same else TRUE)
    for u, v in ((a, b), (b, a)):
      if u is ONE and v.op == 'len' and v.args[0].op == 'set' and len(
          v.args[0].args) > 1 and all(s.op == 'item' for s in v.args[0].args):
        # a set of one element: all of them are equal
        m, *others = [s.args[0] for s in v.args[0].args]
        r = land(*[compare('==', m, x) for x in others])
        return r if op == '==' else lnot(r)
    r = mk('eq' if op == '==' else 'ne', x, y)
  else:
    raise ValueError(op)
  if r.op in ('eq', 'ne'):
    # parity: x % 2 is 0 or 1
    for u, v in (r.args, r.args[::-1]):
      if u is ONE and v.op == 'mod' and v.args[1] is mk('num', Fraction(2)):
        return mk('ne' if r.op == 'eq' else 'eq', *_sorted([ZERO, v]))
  if r.op in ('lt', 'le') and ZERO in r.args:
    # 0 < a - b
    t = r.args[1] if r.args[0] is ZERO else r.args[0]
    if t.op == 'sum' and t.args[0] == 0 and len(t.args[1]) == 2 and sorted(
        c for _, c in t.args[1]) == [-1, 1]:
      hi, = (m for m, c in t.args[1] if c == 1)
      lo, = (m for m, c in t.args[1] if c == -1)
      return mk(r.op, lo, hi) if r.args[0] is ZERO else mk(r.op, hi, lo)
  if r.op in ('lt', 'le') and all(x.op == 'num' for x in r.args):
    u, v = r.args[0].args[0], r.args[1].args[0]
    return TRUE if (u < v if r.op == 'lt' else u <= v) else FALSE
  return r


NONNULL_METHODS = {
    'sel', 'isel', 'rename', 'expand_dims', 'compute', 'load', 'clip', 'copy',
    'fillna', 'drop_vars', 'assign_coords', 'transpose', 'squeeze', 'diff',
    'cumsum', 'quantile', 'where', 'interp', 'reindex', 'astype'}


def is_(a, b):
  if b is not NONE and a is NONE:
    a, b = b, a
  if a is b and is_const(a):
    return TRUE
  if b is NONE:
    if is_const(a) or a.op in (
        'list', 'tuple', 'dict', 'set', 'func', 'cls', 'ext', 'closure',
        'new', 'lam', 'fstr', 'ref', 'bound', 'sum', 'prod', 'where', 'reduce',
        'astype', 'lt', 'le', 'eq', 'ne', 'band', 'bor', 'inv', 'slice',
        'bv_arr', 'fn', 'len', 'isnull', 'setfield', 'withitem',
        'withitems', 'withattr', 'partial'):
      return FALSE
    if a.op == 'call' and a.args[0].op == 'attr' and (
        a.args[0].args[1] in NONNULL_METHODS):
      return FALSE
    if a.op == 'call' and a.args[0].op == 'ext' and a.args[0].args[
        0].startswith(('xarray.', 'numpy.', 'pandas.')):
      return FALSE
    if a.op == 'ite':
      return ite(a.args[0], is_(a.args[1], b), is_(a.args[2], b))
  return mk('is', *(_sorted([a, b]) if b is not NONE else (a, b)))


# ---------------------------------------------------------------------------
# Sequences.  list/tuple/set terms carry segments:
#   item(x) | splat(seq) | guard(c, seg...) | comp(binder, iter, seg...)
# dict terms carry kv(k, v) | dsplat(d) | guard | comp.


def guard(c, segs):
  c = truth(c)
  if c is TRUE:
    return list(segs)
  if c is FALSE or not segs:
    return []
  if len(segs) == 1 and segs[0].op == 'guard':
    return guard(land(c, segs[0].args[0]), segs[0].args[1:])
  return [mk('guard', c, *segs)]


def comp(binder, it, segs):
  if not segs:
    return []
  return [mk_comp(binder, it, segs)]


def mk_comp(binder, it, segs):
  h = 0
  for s in segs:
    h = max(h, s.h)
  b = mk('bv', h)
  m = {binder: b}
  segs = tuple(subst(s, m) for s in segs)
  return mk('comp', b, it, *segs)


def mk_lam(binders, body, star=False):
  h = body.h
  bs = tuple(mk('bv', h, i) for i in range(len(binders)))
  body = subst(body, dict(zip(binders, bs)))
  return mk('lam', '*' if star else len(binders), bs, body)


def seq(kind, segs):
  out = []
  for s in segs:
    if s.op == 'splat' and s.args[0].op in ('list', 'tuple') or (
        s.op == 'splat' and s.args[0].op == 'set' and kind == 'set'):
      out.extend(s.args[0].args)
    elif s.op == 'dsplat' and s.args[0].op == 'dict':
      for u in s.args[0].args:
        out = _dict_put(out, u)
    elif s.op == 'kv':
      out = _dict_put(out, s)
    elif kind == 'dict' and s.op == 'comp' and len(out) == 1 and (
        out[0].op == 'dsplat') and len(s.args) == 3:
      out = _override_all(out[0], s)
    else:
      out.append(s)
  if kind == 'set':
    uniq = []
    for s in out:
      if s not in uniq:
        uniq.append(s)
    out = _sorted(uniq)
  if kind == 'tuple' and len(out) == 1 and out[0].op == 'splat' and (
      out[0].args[0].op in ('in', 'param')) and str(
          out[0].args[0].args[0]).startswith('*'):
    return out[0].args[0]  # *args is a tuple already
  if kind == 'tuple' and len(out) == 1 and out[0].op == 'splat' and (
      out[0].args[0].op == 'attr' and out[0].args[0].args[1] == 'dims'):
    return out[0].args[0]  # so are dims
  return mk(kind, *out)


def _override_all(base, c):
  """{**d, **{k: f(k) for k in d}} rebinds every key of d."""
  b, it, seg = c.args
  d = base.args[0]
  src = it.args[0] if it.op == 'dict_keys' else it
  if src is d:
    if seg.op == 'kv' and seg.args[0] is b:
      return [c]
    if seg.op == 'guard' and len(seg.args) == 2 and (
        seg.args[1].op == 'kv') and seg.args[1].args[0] is b:
      old = mk('index', d, b)
      return [mk('comp', b, it, mk('kv', b, ite(
          seg.args[0], seg.args[1].args[1], old)))]
  return [base, c]


def _dict_put(segs, s):
  if s.op == 'kv':
    for i, u in enumerate(segs):
      if u.op == 'kv' and u.args[0] is s.args[0]:
        # later binding wins if nothing in between can rebind it
        if all(v.op == 'kv' for v in segs[i + 1:]):
          return segs[:i] + [s] + segs[i + 1:]
  return segs + [s]


def items(*ts):
  return [mk('item', t) for t in ts]


def tup(*ts):
  return mk('tuple', *[mk('item', t) for t in ts])


def lst(*ts):
  return mk('list', *[mk('item', t) for t in ts])


def plain_items(t):
  """The element terms of a fully concrete sequence term, else None."""
  if t.op in ('list', 'tuple', 'set') and all(s.op == 'item' for s in t.args):
    return [s.args[0] for s in t.args]
  return None


def merge_seq(c, a, b):
  """ite(c, a, b) on two sequence terms of the same kind."""
  i = 0
  while i < len(a.args) and i < len(b.args) and a.args[i] is b.args[i]:
    i += 1
  pre = list(a.args[:i])
  return seq(a.op, pre + guard(c, a.args[i:]) + guard(lnot(c), b.args[i:]))


# ---------------------------------------------------------------------------
# Traversal / substitution


def children(t):
  return list(t.kids)


def walk_live(t):
  """The distinct sub-terms that mention heap objects, closures or methods."""
  seen = set()
  stack = [t]
  while stack:
    u = stack.pop()
    if u in seen or not u.live:
      continue
    seen.add(u)
    yield u
    stack.extend(u.kids)


def walk(t, seen=None):
  """All distinct sub-terms of t (including t)."""
  seen = set() if seen is None else seen
  stack = [t]
  while stack:
    u = stack.pop()
    if u in seen:
      continue
    seen.add(u)
    yield u
    stack.extend(u.kids)


def contains(t, x):
  return bool(t.sig & (1 << (x.uid & 2047))) and any(u is x for u in walk(t))


def contains_any(t, xs):
  return any(u in xs for u in walk(t))


def subst(t, m):
  """Capture-free substitution, re-normalising along the way."""
  sig = 0
  for k in m:
    sig |= 1 << (k.uid & 2047)
  return _subst(t, dict(m), sig)


def _sub_tuple(a, memo, sig):
  return tuple(
      (_subst(x, memo, sig) if x.sig & sig else x) if isinstance(x, T)
      else (_sub_tuple(x, memo, sig) if isinstance(x, tuple) else x)
      for x in a)


def _subst(t, memo, sig):
  r = memo.get(t)
  if r is not None:
    return r
  if not t.args or is_const(t) or not t.sig & sig:
    return t
  args = _sub_tuple(t.args, memo, sig)
  r = t if args == t.args else rebuild(t.op, args)
  memo[t] = r
  return r


def _flat_segs(segs):
  out = []
  for s in segs:
    if s.op == 'guard':
      out.extend(guard(s.args[0], s.args[1:]))
    elif s.op == 'comp' and len(s.args) == 2:
      pass
    else:
      out.append(s)
  return out


def rebuild(op, args):
  """Re-apply the smart constructor for op."""
  if op == 'sum':
    return add(const(args[0]), *[scale(m, k) for m, k in args[1]])
  if op == 'prod':
    return mul(*[power(b, const(e)) for b, e in args[0]])
  if op == 'pow':
    return power(*args)
  if op == 'group':
    return args[0] if args[0].op == 'num' else mk('group', *args)
  if op == 'ite':
    return ite(*args)
  if op == 'and':
    return land(*args)
  if op == 'or':
    return lor(*args)
  if op == 'not':
    return lnot(args[0])
  if op == 'truth':
    return truth(args[0])
  if op == 'is':
    return is_(*args)
  if op == 'eq':
    return compare('==', *args)
  if op == 'ne':
    return compare('!=', *args)
  if op == 'lt':
    return compare('<', *args)
  if op == 'le':
    return compare('<=', *args)
  if op == 'band':
    return band(*args)
  if op == 'bor':
    return bor(*args)
  if op == 'inv':
    return inv(args[0])
  if op == 'astype':
    return astype(*args)
  if op == 'where':
    return where(*args)
  if op == 'isnull':
    return isnull(*args)
  if op == 'fstr':
    return fstr(args[0])
  if op in ('list', 'tuple', 'set', 'dict'):
    return seq(op, _flat_segs(args))
  if op == 'comp':
    segs = _flat_segs(args[2:])
    return mk_comp(args[0], args[1], segs) if segs else mk('comp', *args[:2])
  if op == 'fold' and args[1].op == 'comp' and len(args[1].args) == 2:
    return args[0][0]  # nothing to go through
  if op == 'guard':
    return mk('guard', args[0], *_flat_segs(args[1:]))
  if op == 'zero_times':
    return mul(ZERO, *args)
  if op in HOOKED:
    return REBUILD_HOOK(op, args)
  return mk(op, *args)


HOOKED = {'attr', 'index', 'call', 'memb', 'isinstance', 'fn', 'reduce', 'len',
          'floordiv', 'mod'}


def _default_hook(op, args):
  return mk(op, *args)


REBUILD_HOOK = _default_hook


def set_rebuild_hook(f):
  global REBUILD_HOOK
  REBUILD_HOOK = f


# ---------------------------------------------------------------------------
# Case analysis on ite conditions


_CONDS = {}


def ite_conditions(t, acc=None, atoms=True):
  """Atomic conditions guarding ite/guard nodes anywhere in t."""
  r = _CONDS.get(t)
  if r is not None:
    return list(r)
  out = {}
  for u in walk(t):
    if u.op in ('ite', 'guard'):
      for a in cond_atoms(u.args[0]):
        out[a] = True
  if len(_CONDS) > 20000:
    _CONDS.clear()
  _CONDS[t] = tuple(out)
  return list(out)


def cond_atoms(c):
  if c.op in ('and', 'or'):
    r = []
    for a in c.args:
      r.extend(cond_atoms(a))
    return r
  if c.op == 'not':
    return cond_atoms(c.args[0])
  if c.op == 'ite':
    return [x for a in c.args for x in cond_atoms(a)]
  if c.op == 'le':
    return [lnot(c)]
  if c is TRUE or c is FALSE:
    return []
  return [c]


EXCLUSIVE = {'xarray.DataArray', 'xarray.Dataset', 'numpy.ndarray',
             'builtins.str', 'builtins.list', 'builtins.tuple',
             'builtins.dict', 'builtins.set', 'builtins.slice',
             'builtins.float', 'builtins.int'}
IMPLIED_ABC = {}  # filled by lib


FACT_OPS = {'isinstance', 'is', 'truth', 'eq', 'lt', 'le', 'memb', 'issubset'}
_FACTS = {}


def facts(t):
  """Sub-terms of t that knowing another condition may settle."""
  r = _FACTS.get(t)
  if r is None:
    if len(_FACTS) > 20000:
      _FACTS.clear()
    r = _FACTS[t] = tuple(u for u in walk(t) if u.op in FACT_OPS)
  return r


def implied(t, a, v):
  """Further conditions of t settled by knowing that atom a has value v."""
  out = {}
  if a.op == 'isinstance' and v:
    x, ty = a.args
    name = ty.args[0] if ty.op == 'ext' else None
    for u in facts(t):
      if u.op == 'isinstance' and u.args[0] is x and u is not a:
        n2 = u.args[1].args[0] if u.args[1].op == 'ext' else None
        if name in EXCLUSIVE and n2 in EXCLUSIVE:
          out[u] = False
        elif name in IMPLIED_ABC and n2 and n2.startswith(
            ('typing.', 'collections.abc.')):
          out[u] = n2 in IMPLIED_ABC[name]
      elif u.op == 'is' and u.args[0] is x and u.args[1] is NONE:
        out[u] = False
  elif a.op == 'is' and v and a.args[1] is NONE:
    x = a.args[0]
    for u in facts(t):
      if u.op in ('isinstance', 'truth') and u.args[0] is x:
        out[u] = False
  elif a.op == 'is' and v and is_const(a.args[1]):
    x, c = a.args
    for u in facts(t):
      if u.op == 'truth' and u.args[0] is x:
        out[u] = truth(c) is TRUE
      elif u.op == 'is' and u.args[0] is x and u is not a and is_const(
          u.args[1]):
        out[u] = False
  elif a.op == 'truth':
    x = a.args[0]
    for u in facts(t):
      if u.op == 'is' and u.args[0] is x and is_const(u.args[1]) and (
          truth(u.args[1]) is (FALSE if v else TRUE)):
        out[u] = False
  elif a.op == 'eq' and v:
    for x, y in (a.args, a.args[::-1]):
      if not is_const(y):
        continue
      for u in facts(t):
        if u.op == 'eq' and u is not a and x in u.args:
          z = u.args[1] if u.args[0] is x else u.args[0]
          if is_const(z):
            out[u] = z is y
        elif u.op == 'is' and u.args[0] is x and u.args[1] is NONE:
          out[u] = False
        elif u.op in ('lt', 'le') and x in u.args and all(
            z is x or z.op == 'num' for z in u.args) and y.op == 'num':
          r = compare('<' if u.op == 'lt' else '<=',
                      *[y if z is x else z for z in u.args])
          if r is TRUE or r is FALSE:
            out[u] = r is TRUE
  elif a.op == 'issubset' and v:
    x, ty = a.args
    its = plain_items(x)
    for u in facts(t):
      if its and u.op == 'memb' and u.args[1] is ty and u.args[0] in its:
        out[u] = True
  elif a.op == 'memb' and not v:
    for u in facts(t):
      if u.op == 'issubset' and u.args[1] is a.args[1]:
        its = plain_items(u.args[0])
        if its and a.args[0] in its:
          out[u] = False
  return out


def assume(t, lits):
  """Simplify t under {atom: bool}."""
  m = {}
  more = {}
  for a, v in lits.items():
    more.update(implied(t, a, v))
  for a, v in more.items():
    if a not in lits:
      m[a] = TRUE if v else FALSE
      n = lnot(a)
      if n.op != 'not':
        m[n] = FALSE if v else TRUE
  for a, v in lits.items():
    m[a] = TRUE if v else FALSE
    n = lnot(a)
    if n.op != 'not':
      m[n] = FALSE if v else TRUE
    if not v and a.op == 'truth':
      # there is nothing in it to go through
      for u in walk(t):
        if u.op == 'comp' and u.args[1] is a.args[0] and len(u.args) > 2:
          m[u] = mk('comp', *u.args[:2])
  return subst(t, m)


_FREE = {}


def free_binders(t):
  """Bound variables of t whose binder lies outside t."""
  r = _FREE.get(t)
  if r is not None:
    return r
  if t.op == 'bv':
    r = frozenset((t,))
  elif not t.args or is_const(t):
    r = frozenset()
  elif t.op == 'comp':
    inner = frozenset().union(*[free_binders(s) for s in t.args[2:]])
    r = (inner - {t.args[0]}) | free_binders(t.args[1])
  elif t.op == 'lam':
    r = free_binders(t.args[2]) - frozenset(t.args[1])
  else:
    r = frozenset()
    for c in children(t):
      f = free_binders(c)
      if f:
        r = r | f
  _FREE[t] = r
  return r


def free_of_binders(t):
  return not free_binders(t)


def cases(t, limit=12, extra=()):
  """Yield (lits, term) for each combination of the ite conditions in t.

  Conditions that mention bound variables are left alone (they stay as guards).
  Conditions are re-discovered after each split, so dead conditions do not
  multiply cases.
  """
  def rec(t, lits, depth):
    cs = [c for c in ite_conditions(t) if free_of_binders(c)]
    if not cs or depth >= limit:
      yield dict(lits), t
      return
    # innermost conditions first: an atom that itself contains a branch is
    # simplified by deciding that branch
    c = next((x for x in cs if not ite_conditions(x)), cs[0])
    for v in (True, False):
      l2 = dict(lits)
      l2[c] = v
      # a decided atom can reappear once a branch inside it is simplified
      t2 = assume(t, l2)
      while True:
        t3 = assume(t2, l2)
        if t3 is t2:
          break
        t2 = t3
      yield from rec(t2, l2, depth + 1)
  yield from rec(t, {}, 0)


def equiv(a, b, limit=10):
  """Equality under every assignment of their branch conditions."""
  if a is b:
    return True
  return all(x is y for _, x, y in paired_cases(a, b, limit))


def paired_cases(a, b, limit=10):
  pair = tup(a, b)
  for lits, p in cases(pair, limit):
    x, y = plain_items(p)
    yield lits, x, y


# ---------------------------------------------------------------------------
# Display


def show(t):
  if isinstance(t, T):
    return _show(t)
  if isinstance(t, tuple):
    return '(' + ', '.join(show(x) for x in t) + ')'
  return str(t) if not isinstance(t, str) else t


def _show(t):
  op, a = t.op, t.args
  if op == 'const':
    return repr(a[1]) if a[0] in ('str', 'bool', 'NoneType') else str(
        a[0] + ':' + str(a[1]))
  if op == 'num':
    f = a[0]
    return str(f)
  if op == 'memb':
    return f'({show(a[0])} in {show(a[1])})'
  if op == 'in':
    return str(a[0])
  if op == 'param':
    return '$' + str(a[-1])
  if op == 'bv':
    return '%' + '_'.join(str(x) for x in a)
  if op == 'fresh':
    return '?' + str(a[0])
  if op == 'ext':
    return a[0]
  if op in ('func', 'cls'):
    return a[0]
  if op == 'attr':
    return f'{show(a[0])}.{a[1]}'
  if op == 'index':
    return f'{show(a[0])}[{show(a[1])}]'
  if op == 'call':
    f, pos, kw = a
    parts = [show(x) for x in pos] + [f'{k}={show(v)}' for k, v in kw]
    return f'{show(f)}({", ".join(parts)})'
  if op == 'sum':
    parts = [] if a[0] == 0 else [str(a[0])]
    for m, k in a[1]:
      parts.append(show(m) if k == 1 else f'{k}*{show(m)}')
    return '(' + ' + '.join(parts) + ')'
  if op == 'prod':
    return '*'.join(
        show(b) if e == 1 else f'{show(b)}^({e})' for b, e in a[0])
  if op == 'item':
    return show(a[0])
  if op == 'splat':
    return '*' + show(a[0])
  if op == 'dsplat':
    return '**' + show(a[0])
  if op == 'kv':
    return f'{show(a[0])}: {show(a[1])}'
  if op == 'guard':
    return f'<{", ".join(show(x) for x in a[1:])} if {show(a[0])}>'
  if op == 'comp':
    return f'<{", ".join(show(x) for x in a[2:])} for {show(a[0])} in {show(a[1])}>'
  if op in ('list', 'tuple', 'dict', 'set'):
    o, c = {'list': '[]', 'tuple': '()', 'dict': '{}', 'set': ('set{', '}')}[op]
    return o + ', '.join(show(x) for x in a) + c
  if op == 'fstr':
    return 'f"' + ''.join(
        x.args[1] if x.op == 'const' else '{' + show(x) + '}' for x in a[0]
    ) + '"'
  if op == 'reduce':
    parts = [show(a[1])] + [f'{k}={show(v)}' for k, v in a[2]]
    return f'{a[0]}({", ".join(parts)})'
  return f'{op}({", ".join(show(x) for x in a)})'
