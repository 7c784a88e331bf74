"""Deciding whether two value terms denote the same value, and where they differ."""

from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from .terms import T, mk

# ---------------------------------------------------------------------------
# Exact rational-function comparison over atoms (cross multiplication).

MAX_MONO = 400


class TooBig(Exception):
  pass


def _pmul(a, b):
  if len(a) * len(b) > 4 * MAX_MONO:
    raise TooBig()
  out = {}
  for m1, k1 in a.items():
    d1 = dict(m1)
    for m2, k2 in b.items():
      d = dict(d1)
      for x, e in m2:
        d[x] = d.get(x, 0) + e
      m = tuple(sorted(((x, e) for x, e in d.items() if e != 0),
                       key=lambda p: p[0].dig))
      out[m] = out.get(m, 0) + k1 * k2
      if out[m] == 0:
        del out[m]
  if len(out) > MAX_MONO:
    raise TooBig()
  return out


def _padd(a, b, kb=1):
  out = dict(a)
  for m, k in b.items():
    out[m] = out.get(m, 0) + kb * k
    if out[m] == 0:
      del out[m]
  return out


ONE = {(): Fraction(1)}


def rat(t):
  """(numerator, denominator) polynomials of an arithmetic term."""
  if t.op == 'num':
    return ({(): t.args[0]} if t.args[0] else {}), ONE
  if t.op == 'sum':
    c, items = t.args
    num, den = ({(): c} if c else {}), ONE
    for m, k in items:
      n2, d2 = rat(m)
      if d2 == den:
        num = _padd(num, n2, k)
      else:
        num = _padd(_pmul(num, d2), _pmul(n2, den), k)
        den = _pmul(den, d2)
    return num, den
  if t.op == 'prod':
    num, den = ONE, ONE
    for b, e in t.args[0]:
      if e.denominator == 1 and abs(e) <= 8:
        n, d = rat(b)
        if e < 0:
          n, d = d, n
        for _ in range(int(abs(e))):
          num, den = _pmul(num, n), _pmul(den, d)
      else:
        num = _pmul(num, {((b, e),): Fraction(1)})
    return num, den
  return {((t, Fraction(1)),): Fraction(1)}, ONE


def rat_equal(a, b):
  try:
    n1, d1 = rat(a)
    n2, d2 = rat(b)
    if not d1 or not d2:
      return False
    return _pmul(n1, d2) == _pmul(n2, d1)
  except TooBig:
    return False


ARITH = ('sum', 'prod', 'num')


def same(a, b):
  """Equality: identical normal form, rationally equal, or equal by parts."""
  if a is b:
    return True
  return not diff(a, b, limit=1)


# ---------------------------------------------------------------------------
# Structural difference.


def _kids(t):
  """Labelled children for structural descent."""
  out = []

  def go(x, label):
    if isinstance(x, T):
      out.append((label, x))
    elif isinstance(x, tuple):
      for i, y in enumerate(x):
        go(y, f'{label}.{i}' if label else str(i))
  for i, x in enumerate(t.args):
    go(x, str(i))
  return out


def _shape(t):
  def go(x):
    if isinstance(x, T):
      return '_'
    if isinstance(x, tuple):
      return tuple(go(y) for y in x)
    return x
  return (t.op, go(t.args))


UNORDERED = {'and', 'or', 'band', 'bor', 'set', 'max', 'min'}


def _call_key(t):
  """Function identity of a call-like node."""
  if t.op == 'call':
    return ('call', t.args[0].dig, len(t.args[1]),
            tuple(k for k, _ in t.args[2]))
  if t.op == 'reduce':
    return ('reduce', t.args[0], tuple(k for k, _ in t.args[2]))
  return None


def diff(a, b, path='', limit=6, depth=0):
  """Minimal differing positions of two terms: [(path, a_sub, b_sub)]."""
  if a is b:
    return []
  if a.op in ARITH or b.op in ARITH:
    if rat_equal(a, b):
      return []
  if depth > 60:
    return [(path, a, b)]
  sa, sb = _shape(a), _shape(b)
  if a.op == 'dict' and b.op == 'dict':
    return _diff_dict(a, b, path, limit, depth)
  if sa != sb:
    if a.op in ARITH and b.op in ARITH:
      return _diff_bag(_parts(a), _parts(b), a, b, path, limit, depth)
    return [(path, a, b)]
  if a.op in UNORDERED:
    return _diff_bag(list(a.args), list(b.args), a, b, path, limit, depth)
  if a.op in ('sum', 'prod'):
    return _diff_bag(_parts(a), _parts(b), a, b, path, limit, depth)
  out = []
  for (l, x), (_, y) in zip(_kids(a), _kids(b)):
    out.extend(diff(x, y, f'{path}/{a.op}.{l}', limit, depth + 1))
    if len(out) >= limit:
      break
  if not out:
    # children pairwise equal up to rational normalisation
    return []
  return out[:limit]


def _parts(t):
  """Addends/factors as terms (coefficient folded in)."""
  if t.op == 'sum':
    out = [tm.scale(m, k) for m, k in t.args[1]]
    if t.args[0]:
      out.append(mk('num', t.args[0]))
    return out
  if t.op == 'prod':
    return [tm.power(b, mk('num', e)) for b, e in t.args[0]]
  return [t]


def _diff_bag(pa, pb, a, b, path, limit, depth):
  la, lb = list(pa), list(pb)
  for x in list(la):
    if x in lb:
      la.remove(x)
      lb.remove(x)
  for x in list(la):
    for y in list(lb):
      if x.op == y.op and not diff(x, y, path, 1, depth + 1):
        la.remove(x)
        lb.remove(y)
        break
  if not la and not lb:
    return []
  if len(la) == 1 and len(lb) == 1 and la[0].op == lb[0].op and not (
      la[0] is a and lb[0] is b):
    if la[0].op in ARITH and la[0].h >= a.h:
      return [(path, a, b)]
    return diff(la[0], lb[0], f'{path}/{a.op}', limit, depth + 1)
  if len(pa) == len(la) and len(pb) == len(lb):
    return [(path, a, b)]
  return [(f'{path}/{a.op}', mk('parts', *la), mk('parts', *lb))]


def _diff_dict(a, b, path, limit, depth):
  def split(d):
    kv, rest = {}, []
    for s in d.args:
      if s.op == 'kv' and s.args[0] not in kv:
        kv[s.args[0]] = s.args[1]
      else:
        rest.append(s)
    return kv, rest
  ka, ra = split(a)
  kb, rb = split(b)
  out = []
  for k in ka:
    if k in kb:
      out.extend(diff(ka[k], kb[k], f'{path}/[{tm.show(k)[:40]}]', limit,
                      depth + 1))
    else:
      out.append((f'{path}/key', k, mk('absent')))
  for k in kb:
    if k not in ka:
      out.append((f'{path}/key', mk('absent'), k))
  if len(ra) != len(rb):
    if ra != rb:
      out.append((path, mk('dict', *ra), mk('dict', *rb)))
  else:
    for x, y in zip(ra, rb):
      out.extend(diff(x, y, path + '/*', limit, depth + 1))
  return out[:limit]


def _false_under(g, lits):
  while True:
    h = tm.assume(g, lits)
    if h is g:
      return h is tm.FALSE
    g = h


def contradictory(lits):
  """The assumptions exclude one another."""
  empty = {c: v for c, v in lits.items() if c.op == 'truth' and not v}
  if empty:
    seen = {}
    for c, v in lits.items():
      if c in empty:
        continue
      d = tm.assume(c, empty)
      if d.op == 'not':
        d, v = d.args[0], not v
      if d in (tm.TRUE, tm.FALSE) and (d is tm.TRUE) != v or (
          seen.setdefault(d, v) != v):
        return True
  eqs = [(c, v) for c, v in lits.items() if c.op == 'eq' and len(c.args) == 2]
  if len(eqs) < 2:
    return False
  root = {}

  def find(x):
    while x in root:
      x = root[x]
    return x
  for c, v in eqs:
    if v:
      a, b = find(c.args[0]), find(c.args[1])
      if a is not b:
        if tm.is_const(b):
          a, b = b, a
        if tm.is_const(b):
          return True
        root[b] = a
  return any(not v and find(c.args[0]) is find(c.args[1]) for c, v in eqs)


class CaseLimit(Exception):
  """The case analysis was cut off before it could decide."""


def canon(t, depth=0, memo=None):
  """Branches inside callbacks and loops as ordered decision trees."""
  memo = {} if memo is None else memo
  r = memo.get((t, depth))
  if r is not None:
    return r
  if t.op == 'lam':
    n, bs, body = t.args
    fs = [mk('cb', depth, i) for i in range(len(bs))]
    body = tm.subst(body, dict(zip(bs, fs)))
    body = canon(tree(body), depth + 1, memo)
    r = tm.mk_lam(fs, body, n == '*')
  elif t.op == 'comp':
    f = mk('cb', depth, 0)
    m = {t.args[0]: f}
    body = tree(mk('tuple', *[tm.subst(s, m) for s in t.args[2:]]))
    segs = []
    flatten(body, tm.TRUE, segs)
    segs = [canon(s, depth + 1, memo) for s in segs]
    r = tm.mk_comp(f, canon(t.args[1], depth, memo), segs)
  elif not t.args or tm.is_const(t):
    r = t
  else:
    def go(a):
      return tuple(canon(x, depth, memo) if isinstance(x, T) else
                   go(x) if isinstance(x, tuple) else x for x in a)
    args = go(t.args)
    r = t if args == t.args else tm.rebuild(t.op, args)
  memo[(t, depth)] = r
  return r


def tree(t, limit=7):
  """The term as a decision tree over its conditions, in a fixed order."""
  cs = [c for c in tm.ite_conditions(t) if tm.free_of_binders(c)]
  if not cs:
    return t
  if limit == 0:
    raise CaseLimit('branches nested too deeply in a callback')
  cs = [c for c in cs if not tm.ite_conditions(c)] or cs
  c = min(cs, key=tm.key)
  a = tree(tm.assume(t, {c: True}), limit - 1)
  b = tree(tm.assume(t, {c: False}), limit - 1)
  return a if a is b else mk('ite', c, a, b)


def flatten(t, c, out):
  if t.op == 'ite':
    flatten(t.args[1], tm.land(c, t.args[0]), out)
    flatten(t.args[2], tm.land(c, tm.lnot(t.args[0])), out)
  elif t.op == 'tuple':
    out.extend(tm.guard(c, t.args))


def same(x, y):
  """Equal up to the order of branches inside callbacks and loops."""
  try:
    a, b = canon(x), canon(y)
  except CaseLimit:
    return False
  return a is b or not diff(a, b, limit=1)


FREE = {'call', 'tuple', 'list', 'kv', 'item', 'new', 'dict', 'guard', 'attr',
        'index', 'enter', 'ite'}


def components(a, b):
  """Pairs of parts whose equality means a and b are equal, or None."""
  if a.op != b.op or a.op not in FREE or _shape(a) != _shape(b):
    return None
  if a.op == 'dict' and any(
      s.op != 'kv' or s.args[0] is not u.args[0]
      for s, u in zip(a.args, b.args)):
    return None
  pairs = [(x, y) for (_, x), (_, y) in zip(_kids(a), _kids(b))
           if x is not y]
  if a.op in ('guard', 'ite') and a.args[0] is not b.args[0]:
    return None
  if a.op == 'ite':
    c = a.args[0]
    if c.op in ('and', 'or', 'not', 'le'):
      return None
    return [(tm.assume(a.args[i], {c: v}), tm.assume(b.args[i], {c: v}))
            for i, v in ((1, True), (2, False))]
  if a.op == 'guard':
    c = a.args[0]
    known = {}
    for u in c.args if c.op == 'and' else (c,):
      if u.op == 'not':
        known[u.args[0]] = False
      elif u.op != 'or':
        known[u] = True
    pairs = [(tm.assume(x, known), tm.assume(y, known)) for x, y in pairs]
  return pairs


def plain(t, memo):
  """Spellings that mean the same in a result, though not to every analysis."""
  r = memo.get(t)
  if r is not None:
    return r
  if not t.args or tm.is_const(t):
    r = t
  else:
    def go(a):
      return tuple(plain(x, memo) if isinstance(x, T) else
                   go(x) if isinstance(x, tuple) else x for x in a)
    args = go(t.args)
    if t.op == 'product':
      r = _nested(args)
    elif t.op == 'fn' and args[0] in ('max2', 'min2'):
      r = mk('fn', args[0][:3] + 'imum', *args[1:])
    elif t.op == 'index' and args[1] is ALL:
      r = args[0]
    else:
      r = t if args == t.args else tm.rebuild(t.op, args)
  memo[t] = r
  return r


ALL = mk('slice', tm.NONE, tm.NONE, tm.NONE)


def _nested(seqs, acc=(), depth=0):
  """The pairs of itertools.product as nested loops."""
  if not seqs:
    return mk('item', tm.tup(*acc))
  for i, x in enumerate(seqs):
    if x.op == 'ite':
      return tm.ite(x.args[0], *[_nested(
          seqs[:i] + (v,) + seqs[i + 1:], acc, depth) for v in x.args[1:]])
  def rec(v):
    r = _nested(seqs[1:], acc + (v,), depth + 1)
    return [r] if r.op == 'item' else list(r.args)
  x, out = seqs[0], []
  b = mk('cb', 'product', depth)
  if x.op in ('list', 'tuple'):
    for s in x.args:
      if s.op == 'item':
        out += rec(s.args[0])
      elif s.op == 'comp' and all(u.op == 'item' for u in s.args[2:]):
        m = {s.args[0]: b}
        out += tm.comp(b, s.args[1], [
            v for u in s.args[2:] for v in rec(tm.subst(u.args[0], m))])
      else:
        out += tm.comp(b, mk('list', s), rec(b))
  else:
    out += tm.comp(b, x, rec(b))
  return tm.seq('list', out)


def compare(a, b, limit=10, given=()):
  memo = {}
  a, b = plain(a, memo), plain(b, memo)
  given = tuple(plain(g, memo) for g in given)
  for g in given:
    for x in odd(g):
      m = {mk('floordiv', tm.add(x, tm.const(-1)), tm.const(2)):
           mk('floordiv', x, tm.const(2))}
      a, b = tm.subst(a, m), tm.subst(b, m)
  return _compare(a, b, limit, given)


def odd(g):
  """Integers that a fact says are odd."""
  out = None
  for d in g.args if g.op == 'or' else (g,):
    xs = set()
    if d.op in ('eq', 'ne'):
      for x, y in (d.args, d.args[::-1]):
        if x.op == 'mod' and x.args[1] is tm.const(2) and y is (
            tm.ZERO if d.op == 'ne' else tm.ONE):
          xs.add(x.args[0])
        if d.op == 'eq' and y.op == 'num' and y.args[0] % 2 == 1:
          xs.add(x)
    elif d.op == 'not' and d.args[0].op == 'eq':
      for x, y in (d.args[0].args, d.args[0].args[::-1]):
        if x.op == 'mod' and x.args[1] is tm.const(2) and y is tm.ZERO:
          xs.add(x.args[0])
    out = xs if out is None else out & xs
  return out or ()


def _compare(a, b, limit=10, given=()):
  """[] if equal under every branch assignment, else [(lits, diffs)]."""
  if a is b:
    return []
  if not diff(a, b, limit=1):
    return []
  pairs = components(a, b)
  found = []
  if pairs is not None:
    cut = False
    for x, y in pairs:
      try:
        found += _compare(x, y, limit, given)
      except CaseLimit:
        cut = True
      if len(found) >= 3:
        break
    if not cut and not found:
      return []
    if found and (len(pairs) == 1 or a.op == 'list'):
      return found
  try:
    return by_cases(a, b, limit, given, 400 if found else 4000)
  except CaseLimit:
    if found:
      return found
    raise


def directed(x, y, lits, given, most=300):
  """The same case analysis, splitting only on what separates the two terms."""
  out = []
  left = [most]

  def go(x, y, lits):
    left[0] -= 1
    if left[0] < 0:
      raise CaseLimit('too many branch combinations')
    d = diff(x, y, limit=1)
    if not d or contradictory(lits) or any(
        _false_under(g, lits) for g in given):
      return
    c = None if settled(x, y) else deciding(x, y)
    if c is None:
      if not same(x, y):
        out.append((lits, d))
      return
    for v in (True, False):
      l2 = dict(lits)
      l2[c] = v
      go(fixpoint(x, l2), fixpoint(y, l2), l2)
      if len(out) >= 3:
        return
  go(x, y, dict(lits))
  return out


def fixpoint(t, lits):
  while True:
    u = tm.assume(t, lits)
    if u is t:
      return t
    t = u


def settled(x, y, memo=None):
  """They differ in a part that no branch condition can still change."""
  memo = {} if memo is None else memo
  r = memo.get((x, y))
  if r is not None or x is y:
    return bool(r)
  memo[x, y] = False
  if x.op in ('ite', 'guard') or y.op in ('ite', 'guard') or not diff(
      x, y, limit=1):
    return False
  if (x.op == y.op and x.op not in UNORDERED and x.op not in ARITH
      and _shape(x) == _shape(y)):
    r = any(settled(p, q, memo) for (_, p), (_, q) in zip(_kids(x), _kids(y)))
  if not r and not any(tm.free_of_binders(c) for t in (x, y)
                       for c in tm.ite_conditions(t)):
    r = not same(x, y)
  memo[x, y] = bool(r)
  return bool(r)


def deciding(x, y):
  """A condition above, or else below, the first place where they differ."""
  if x is y:
    return None
  for t in (x, y):
    if t.op in ('ite', 'guard'):
      for c in tm.cond_atoms(t.args[0]):
        if tm.free_of_binders(c):
          return next((z for z in tm.ite_conditions(c)
                       if tm.free_of_binders(z)), c)
  if (x.op == y.op and x.op not in UNORDERED and x.op not in ARITH
      and _shape(x) == _shape(y)):
    for (_, p), (_, q) in zip(_kids(x), _kids(y)):
      if p is not q and diff(p, q, limit=1):
        c = deciding(p, q)
        if c is not None:
          return c
    return None
  cs = [c for t in (x, y) for c in tm.ite_conditions(t)
        if tm.free_of_binders(c)]
  return next((c for c in cs if not tm.ite_conditions(c)),
              cs[0] if cs else None)


def by_cases(a, b, limit, given, most):
  out = []
  n = 0
  partial = False
  for lits, x, y in tm.paired_cases(a, b, limit):
    n += 1
    if n > most:
      if out:
        return out
      raise CaseLimit('too many branch combinations')
    d = diff(x, y)
    if d:
      if contradictory(lits):
        continue
      if given and any(_false_under(g, lits) for g in given):
        continue
      if same(x, y):
        continue
      if any(tm.free_of_binders(c) for t in (x, y)
             for c in tm.ite_conditions(t)):
        try:
          deep = directed(x, y, lits, given)
        except CaseLimit:
          if partial:
            break
          partial = True
          continue
        if deep:
          out += deep
        if len(out) >= 3:
          break
        continue
      out.append((lits, d))
      if len(out) >= 3:
        break
  if partial and not out:
    raise CaseLimit('branch conditions nested too deeply')
  return out


# ---------------------------------------------------------------------------
# Modelled vocabulary.

OPAQUE_OPS = {'unknown', 'loopvar', 'cyclic', 'closure_of', 'foreign', 'fresh',
              'undef'}


def unmodelled(t):
  """Sub-terms the analysis has no meaning for."""
  out = []
  for u in tm.walk(t):
    if u.op in OPAQUE_OPS and u.op != 'undef':
      out.append(u)
    elif u.op != 'kwget':  # there it stands for "no default"
      out += [a for a in flat(u.args) if a.op == 'undef']
  return out + ([t] if t.op == 'undef' else [])


def flat(args):
  for a in args:
    if isinstance(a, tm.T):
      yield a
    elif isinstance(a, tuple):
      yield from flat(a)


def flat_loops(t):
  """Loops over the flattened index of a product, which are not unflattened."""
  out = []
  for u in tm.walk(t):
    if u.op == 'range' and u.args[1].op == 'prod' and sum(
        1 for b, e in u.args[1].args[0] if not tm.is_const(b)) > 1:
      out.append(u)
  return out
