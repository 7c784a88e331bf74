"""C24: results depend on inputs and configuration, not on process or history."""

from __future__ import annotations

import ast

from .. import compare as cmp
from .. import entries, lib, metrics, spec
from .. import terms as tm
from ..interp import harmless
from ..program import Func
from ..terms import mk

EXPLANATION = (
    'Source-and-state analysis. The values and effects of every public entry '
    'point are searched for readings of clocks, unseeded or global random '
    'state, object addresses, hash() of text, environment, and iteration over '
    'sets or directory listings whose order can reach a result (rules clock, '
    'randomness, order). Mutable default arguments and module-level objects '
    'must not be written to (rule defaults). State an object keeps between '
    'calls (caches included) must be a function of its configuration: a '
    'second call sees the same values as a first one (rule history), also '
    'when an earlier call failed after any of its writes to the object, as '
    'when a worker retries after a read error (rule retry).')
ASSUMPTIONS = (
    'Logging, counters and time measurements that reach no result are not '
    'part of the result.',
)

PKG = 'weatherbenchX.'
# The one part of the library that is random by design.
RANDOM_HOME = 'weatherbenchX.statistical_inference.'
NUMPY_DRAWS = frozenset('''
rand randn randint random random_sample ranf sample choice permutation
multinomial normal uniform binomial poisson exponential geometric
standard_normal shuffle integers gamma beta
'''.split())
LISTING = frozenset('''
os.listdir os.scandir os.walk glob.glob glob.iglob
'''.split())
LISTING_METHODS = frozenset({'glob', 'iterdir', 'listdir', 'rglob', 'ls'})
MUTATORS = frozenset('''
append extend add update pop clear insert setdefault remove popitem discard
sort appendleft
'''.split())
ORDERING = frozenset({'builtins.sorted', 'builtins.set', 'builtins.len',
                      'builtins.frozenset', 'builtins.min', 'builtins.max',
                      'builtins.sum', 'builtins.any', 'builtins.all',
                      'numpy.sort', 'numpy.unique'})


def check(ctx):
  sources(ctx)
  module_state(ctx)
  defaults(ctx)
  flows(ctx)
  history(ctx)


def modules(ctx):
  return [m for n, m in sorted(ctx.prog.modules.items())
          if n == 'weatherbenchX' or n.startswith(PKG)]


def functions_of(m):
  """(qualified name, node) of every function of a module, nested included."""
  out = []

  def rec(body, q):
    for n in body:
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        out.append((q + n.name, n))
      elif isinstance(n, ast.ClassDef):
        rec(n.body, q + n.name + '.')
  rec(m.tree.body, '')
  return out


def resolver(ctx, m, fnode=None):
  """Dotted name of an expression, with the imports of the function too."""
  table = {}
  if fnode is not None:
    for n in ast.walk(fnode):
      if isinstance(n, (ast.Import, ast.ImportFrom)):
        m.add_import(n, table)
  bound = set()
  if fnode is not None:
    a = fnode.args
    bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    bound |= {n.id for n in ast.walk(fnode) if isinstance(n, ast.Name)
              and isinstance(n.ctx, ast.Store)}

  def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
      parts.append(e.attr)
      e = e.value
    if not isinstance(e, ast.Name) or e.id in bound:
      return None
    if e.id in table:
      d = table[e.id]
      base = d if isinstance(d, str) else '.'.join(x for x in d if x)
    else:
      base = ctx.prog.resolve_dotted_expr(m, e)
      if base is None:
        base = 'builtins.' + e.id
    return '.'.join([base] + parts[::-1])
  return dotted


# ------------------------------------------------------------------- sources


def sources(ctx):
  ctx.rule('randomness', 'random numbers are drawn only by the bootstrap '
           'methods, and only from the generator of numpy that the caller can '
           'seed; the library never seeds it', 1)
  ctx.rule('order', 'file listings are ordered before they are used', 0)
  n = 0
  for m in modules(ctx):
    fns = functions_of(m)
    inside = {id(x) for _, f in fns for x in ast.walk(f)}
    regions = fns + [('<module>', m.tree)]
    for name, f in regions:
      d = resolver(ctx, m, f if name != '<module>' else None)
      parents = {}
      for x in ast.walk(f):
        for c in ast.iter_child_nodes(x):
          parents[c] = x
      for x in ast.walk(f):
        if name == '<module>' and id(x) in inside:
          continue
        if not isinstance(x, ast.Call):
          continue
        n += 1
        q = d(x.func) or ''
        where = f'{m.name}.{name}'
        loc = f'{m.relpath}:{x.lineno}'
        source(ctx, x, q, where, loc, parents)
  ctx.ok('randomness', f'{len(modules(ctx))} modules', f'{n} calls resolved')


def source(ctx, x, q, where, loc, parents):
  if q.startswith('random.') or q.startswith('secrets.'):
    ctx.bad('randomness', f'{where}: {q}',
            f'{where} draws from {q}, which is not the generator of numpy',
            loc)
    return
  if q.startswith('numpy.random.'):
    f = q[len('numpy.random.'):]
    if f in NUMPY_DRAWS:
      if where.startswith(RANDOM_HOME):
        ctx.ok('randomness', f'{where}: {q}', 'bootstrap', loc)
      else:
        ctx.bad('randomness', f'{where}: {q}',
                f'{where} draws random numbers outside the bootstrap', loc)
    elif f in ('seed', 'set_state'):
      ctx.bad('randomness', f'{where}: {q}',
              f'{where} resets the generator of the caller', loc)
    elif f in ('default_rng', 'RandomState', 'Generator', 'PCG64',
               'SeedSequence', 'MT19937'):
      ctx.bad('randomness', f'{where}: {q}',
              f'{where} draws from a generator of its own, which the caller '
              'cannot seed', loc)
    return
  if q.endswith('.rvs') and q.startswith('scipy.'):
    ctx.bad('randomness', f'{where}: {q}', f'{where} draws from scipy', loc)
    return
  if isinstance(x.func, ast.Attribute) and x.func.attr == 'sample' and any(
      k.arg in ('frac', 'n', 'replace') for k in x.keywords):
    ctx.bad('randomness', f'{where}: sample', f'{where} samples at random',
            loc)
  if q in LISTING or (isinstance(x.func, ast.Attribute)
                      and x.func.attr in LISTING_METHODS and not q):
    p = parents.get(x)
    while p is not None and not isinstance(p, ast.stmt):
      if isinstance(p, ast.Call) and q is not None:
        pq = p.func.id if isinstance(p.func, ast.Name) else (
            p.func.attr if isinstance(p.func, ast.Attribute) else '')
        if any(pq == o.rsplit('.', 1)[1] for o in ORDERING):
          ctx.ok('order', f'{where}: {q or x.func.attr}', 'ordered', loc)
          return
      p = parents.get(p)
    ctx.bad('order', f'{where}: {q or x.func.attr}',
            f'{where} uses a listing in the order the system returns it', loc)


# -------------------------------------------------------------- module state


def module_state(ctx):
  ctx.rule('module-state', 'no function changes a module or class variable, '
           'and nothing is memoised per module', 10)
  for m in modules(ctx):
    fns = functions_of(m)
    # names bound at module level to something that can be changed in place
    held = {}
    for s in m.tree.body:
      ts = s.targets if isinstance(s, ast.Assign) else (
          [s.target] if isinstance(s, ast.AnnAssign) else [])
      for t in ts:
        if isinstance(t, ast.Name):
          held[t.id] = s
    class_held = {}
    for c in ast.walk(m.tree):
      if isinstance(c, ast.ClassDef):
        for s in c.body:
          ts = s.targets if isinstance(s, ast.Assign) else (
              [s.target] if isinstance(s, ast.AnnAssign) and s.value else [])
          for t in ts:
            if isinstance(t, ast.Name) and mutable_literal(s.value):
              class_held.setdefault(t.id, c.name)
    bad = []
    for name, f in fns:
      for x in ast.walk(f):
        if isinstance(x, ast.Global):
          bad.append((name, x, f'declares {", ".join(x.names)} global'))
      local = {a.arg for a in f.args.posonlyargs + f.args.args +
               f.args.kwonlyargs}
      local |= {n.id for n in ast.walk(f) if isinstance(n, ast.Name)
                and isinstance(n.ctx, ast.Store)}
      for x in ast.walk(f):
        t = mutated(x)
        if t is None:
          continue
        if isinstance(t, ast.Name) and t.id in held and t.id not in local:
          bad.append((name, x, f'changes the module variable {t.id}'))
        if isinstance(t, ast.Attribute) and t.attr in class_held and (
            isinstance(t.value, ast.Name)) and not assigned_self(
                m, f, t.attr):
          bad.append((name, x, 'changes the class variable '
                      f'{class_held[t.attr]}.{t.attr}'))
      for x in ast.walk(f):
        if isinstance(x, (ast.Assign, ast.AugAssign)):
          for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
            if isinstance(t, ast.Attribute):
              b = t.value
              if isinstance(b, ast.Attribute) and b.attr == '__class__' or (
                  isinstance(b, ast.Call) and isinstance(b.func, ast.Name)
                  and b.func.id == 'type') or (
                      isinstance(b, ast.Name) and b.id == 'cls') or (
                          isinstance(b, ast.Name) and b.id not in local and (
                              b.id in {c.name for c in m.tree.body
                                       if isinstance(c, ast.ClassDef)} |
                              {g.name for g in m.tree.body if isinstance(
                                  g, ast.FunctionDef)})):
                bad.append((name, x, f'sets {ast.unparse(t)}, which all '
                            'objects share'))
      d = resolver(ctx, m)
      for dec in f.decorator_list:
        q = d(dec.func if isinstance(dec, ast.Call) else dec) or ''
        if q in ('functools.lru_cache', 'functools.cache') and not (
            scalar_result(f)):
          bad.append((name, dec, f'is memoised by {q} for all callers, which '
                      'then share one result object and one random draw'))
    # memoised module-level names
    d = resolver(ctx, m)
    for s in m.tree.body:
      if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        for x in ast.walk(s.value):
          if isinstance(x, (ast.Attribute, ast.Name)) and d(x) in (
              'functools.lru_cache', 'functools.cache'):
            bad.append(('<module>', s, 'memoises a function for all callers'))
            break
    for name, x, why in bad:
      ctx.bad('module-state', f'{m.name}.{name}: {why}',
              f'{m.name}.{name} {why}', f'{m.relpath}:{x.lineno}')
    if not bad:
      ctx.ok('module-state', m.name, f'{len(fns)} functions')


def scalar_result(f):
  if f.returns is None:
    return False
  return ast.unparse(f.returns) in ('str', 'int', 'float', 'bool')


def assigned_self(m, f, attr):
  """The class of the method gives every object its own value."""
  for c in ast.walk(m.tree):
    if isinstance(c, ast.ClassDef) and f in c.body:
      for x in ast.walk(c):
        if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(
            x.ctx, ast.Store) and isinstance(x.value, ast.Name) and (
                x.value.id == 'self'):
          return True
  return False


def mutable_literal(v):
  return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                        ast.DictComp, ast.SetComp)) or (
      isinstance(v, ast.Call) and (getattr(v.func, 'id', '') in (
          'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter')
          or getattr(v.func, 'attr', '') in (
              'defaultdict', 'OrderedDict', 'Counter', 'array', 'zeros',
              'ones', 'Dataset', 'DataArray')))


def mutated(x):
  """The expression a node changes in place."""
  if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
      x.func.attr in MUTATORS):
    return x.func.value
  if isinstance(x, ast.AugAssign):
    t = x.target
    return t.value if isinstance(t, ast.Subscript) else (
        t if isinstance(t, ast.Attribute) else None)
  if isinstance(x, (ast.Assign, ast.Delete)):
    for t in x.targets:
      if isinstance(t, ast.Subscript):
        return t.value
  return None


# ----------------------------------------------------------- mutable defaults


def defaults(ctx):
  ctx.rule('defaults', 'a default value shared by all calls is never changed '
           'in place', 0)
  n = 0
  for m in modules(ctx):
    for name, f in functions_of(m):
      for g in [x for x in ast.walk(f) if isinstance(
          x, (ast.FunctionDef, ast.Lambda))]:
        a = g.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
            (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        for p, d in pairs:
          n += 1
          if not mutable_literal(d):
            continue
          why = default_changed(m, g, p.arg)
          where = f'{m.name}.{name}({p.arg})'
          if why:
            ctx.bad('defaults', where, f'{where}: the shared default '
                    f'{ast.unparse(d)} is {why}', f'{m.relpath}:{d.lineno}')
          else:
            ctx.ok('defaults', where)
  ctx.ok('defaults', 'all signatures', f'{n} defaults')


def default_changed(m, f, arg):
  body = f.body if isinstance(f.body, list) else [f.body]
  rebound = False
  names = {arg}
  attrs = set()
  for s in body:
    for x in ast.walk(s):
      if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and (
          x.value.id in names):
        for t in x.targets:
          if isinstance(t, ast.Name):
            names.add(t.id)
          elif isinstance(t, ast.Attribute):
            attrs.add(t.attr)
  for s in body:
    for x in ast.walk(s):
      t = mutated(x)
      if isinstance(t, ast.Name) and t.id in names:
        return 'changed in place'
      if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and (
          x.target.id in names):
        return 'updated in place'
      if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and (
          x.value.id in names):
        return 'returned to the caller, who may change it'
  for c in ast.walk(m.tree):
    if isinstance(c, ast.ClassDef) and f in c.body:
      for x in ast.walk(c):
        t = mutated(x)
        if isinstance(t, ast.Attribute) and t.attr in attrs:
          return 'kept on the object and changed there'
  del rebound
  return None


# ---------------------------------------------------------------------- flows


def flows(ctx):
  ctx.rule('clock', 'nothing computed, stored or decided depends on the clock, '
           'the process, object addresses or hash values', 100)
  ctx.rule('set-order', 'no ordered result takes its order from a set', 100)
  es = entries.entries(ctx.prog)
  done = {t for _, t in es}
  es += [(f.qual[len(PKG):], f.qual) for f in ctx.prog.repo_funcs()
         if f.qual not in done and not f.is_abstract]
  for label, target in es:
    with ctx.guard('clock', label):
      r = spec.analyse_code(ctx, target, {}, [], None)
      flow(ctx, label, r)


def readings(t):
  out = []
  skip = set()
  for u in tm.walk(t):
    if u.op == 'exc':
      # that a call may fail is no dependence on the values it is given
      skip.update(tm.walk(u))
  for u in tm.walk(t):
    if u in skip:
      continue
    if u.op == 'call' and u.args[0].op == 'ext' and (
        u.args[0].args[0] in lib.NONDET):
      out.append(u.args[0].args[0])
    elif u.op == 'ext' and (u.args[0] == 'os.environ' or u.args[0].startswith(
        'os.environ.')):
      out.append('os.environ')
    elif u.op == 'call' and u.args[0].op == 'ext' and u.args[0].args[0] in (
        'numpy.datetime64', 'pandas.to_datetime', 'pandas.Timestamp') and any(
            p.op == 'const' and p.args[1] in ('now', 'today')
            for p in u.args[1]):
      out.append(u.args[0].args[0] + "('now')")
  return out


def flow(ctx, label, r):
  bad = []
  terms = [('its result', r.value, None)]
  st = getattr(r, 'self_term', None)
  if st is not None:
    terms.append(('the state of the object', st, None))
  for e in r.events:
    if e.kind == 'yield':
      terms.append(('what it yields', e.data[0], e))
    elif e.kind in ('setattr', 'setitem', 'setpath'):
      terms.append(('what it stores', e.data[-1], e))
    elif e.kind in ('raise', 'assert'):
      for c in e.pc:
        terms.append(('whether it fails', c, e))
  for what, t, e in terms:
    if not isinstance(t, tm.T):
      continue
    for src in readings(t):
      bad.append((what, src, e))
  f = getattr(r, 'func', None)
  loc = f'{f.module.relpath}:{f.node.lineno}' if f is not None else ''
  for what, src, e in bad:
    ctx.bad('clock', f'{label}: {src} in {what}',
            f'{label}: {what} depends on {src}', loc)
  if not bad:
    ctx.ok('clock', label, f'{len(terms)} values')
  hits = set()
  seen = set()
  for what, t, e in terms:
    if isinstance(t, tm.T):
      hits |= set_ordered(t, seen)
  for h in hits:
    ctx.bad('set-order', f'{label}: {h}', f'{label}: the order of {h} is the '
            'order of a set, which differs between processes', loc)
  if not hits:
    ctx.ok('set-order', label)


def is_set(t):
  if t.op == 'set':
    return len(t.args) > 1 or any(s.op != 'item' for s in t.args)
  if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in (
      'intersection', 'union', 'difference', 'symmetric_difference'):
    return True
  if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in (
      'builtins.set', 'builtins.frozenset'):
    return True
  return False


# consumers for which the order of a list does not matter
UNORDERED = frozenset('''
drop_vars drop drop_dims sum mean max min any all isel sel dot count std var
median transpose_like issubset issuperset squeeze stack_dims reset_coords
set_coords reduce
'''.split())


def set_ordered(t, seen):
  """Lists and strings built by walking a set, where the order shows."""
  out = set()
  stack = [(t, False)]
  while stack:
    u, free = stack.pop()
    if (u, free) in seen:
      continue
    seen.add((u, free))
    if not free and u.op in ('list', 'tuple'):
      for s in u.args:
        if s.op == 'splat' and is_set(s.args[0]) or (
            s.op == 'comp' and is_set(s.args[1])):
          out.add(tm.show(u)[:80])
    if not free and u.op == 'join' and any(is_set(k) for k in u.kids):
      out.add(tm.show(u)[:80])
    for k in u.kids:
      f = free
      if u.op == 'call':
        fn = u.args[0]
        n = fn.args[-1] if fn.op in ('attr', 'func', 'ext') else ''
        n = str(n).rsplit('.', 1)[-1]
        f = k is not fn and (n in UNORDERED or n in (
            'sorted', 'set', 'len', 'frozenset', 'unique', 'sort'))
      elif u.op == 'set' or u.op == 'reduce' or u.op == 'memb' or (
          u.op == 'sorted'):
        f = True
      stack.append((k, f))
  return out


# -------------------------------------------------------------------- history


def history(ctx):
  """Objects that keep state give the same answers whatever was asked before."""
  ctx.rule('history', 'after any earlier call on the same object, a method '
           'gives the result it gives on a new object', 5)
  ctx.rule('retry', 'after an earlier call that failed part of the way, a '
           'method gives the result it gives on a new object', 0)
  for c in ctx.prog.repo_classes():
    if metrics.abstract(ctx.prog, c.qual):
      continue
    ms = [t.rsplit('.', 1)[1] for l, t in entries.entries(ctx.prog)
          if t.rsplit('.', 1)[0] == c.qual]
    ms = [n for n in ms if n != '__init__' and ctx.prog.lookup(
        c.qual, n)[0].kind not in ('staticmethod', 'classmethod')]
    writers = []
    for n in ms:
      with ctx.guard('history', f'{c.name}.{n}'):
        it = ctx.interp()
        r = it.analyse_method(c.qual, n)
        if writes_self(r):
          writers.append(n)
    for w in writers:
      for n in ms:
        label = f'{c.name}.{n} after {w}'
        with ctx.guard('history', label):
          one_history(ctx, c, w, n, label)
      with ctx.guard('retry', f'{c.name}.{w}'):
        failures(ctx, c, w, ms)


def writes_self(r):
  ref = r.self_ref
  for e in r.events:
    if e.kind == 'setfield' and e.data[0] is ref:
      return True
    if e.kind == 'setattr':
      return True
  return False


def fallible(e):
  """Could the method fail here?"""
  return e.kind in ('raise', 'assert') or (
      e.kind == 'call' and not harmless(e.data[0]))


def failures(ctx, c, first, ms):
  """The same after an earlier call that failed half way."""
  it = ctx.interp()
  it.snaps = []
  f1, _ = ctx.prog.lookup(c.qual, first)
  pos, kw = it.sym_args(f1, prefix='earlier_')
  r1 = it.analyse_method(c.qual, first, args=pos, kwargs=kw)
  snaps, it.snaps = it.snaps, None
  log = list(r1.events)
  partial = False
  for n, (at, st0) in enumerate(snaps):
    nxt = snaps[n + 1][0] if n + 1 < len(snaps) else len(log)
    after = [e for e in log[at:nxt] if fallible(e) and tm.land(
        *e.pc, *st0.pc) is not tm.FALSE]
    if not after or r1.self_ref.args[0] not in st0.heap:
      continue
    partial = True
    where = log[at - 1]
    name = where.data[1].args[1]
    for then in ms:
      label = f'{c.name}.{then} after {first} failed at {name} ({n})'
      with ctx.guard('retry', label):
        given = tuple(st0.pc) + tuple(st0.assumed)
        st = it.new_state(c.module)
        st.heap = dict(st0.heap)
        f2, _ = ctx.prog.lookup(c.qual, then)
        alone = ctx.interp().analyse_method(c.qual, then)
        it.log = []
        if f2.kind == 'property':
          v = it.call_func(f2, [r1.self_ref], [], st, f2.node)
        else:
          p2, k2 = it.sym_args(f2)
          v = it.call_func(f2, [r1.self_ref] + p2, k2, st, f2.node)
        v = it.reify(v, st)
        try:
          d = cmp.compare(v, alone.value, given=given + tuple(alone.given))
        except cmp.CaseLimit as e:
          ctx.undecided('retry', label, str(e))
          continue
        loc = f'{f1.module.relpath}:{where.node.lineno}'
        if d:
          ctx.bad('retry', label, f'{label}: differs from a first call: '
                  + spec.describe(d), loc)
        else:
          ctx.ok('retry', label)
  if not partial:
    ctx.ok('retry', f'{c.name}.{first}: nothing can fail between its first '
           'write to the object and its end')


def one_history(ctx, c, first, then, label):
  it = ctx.interp()
  alone = it.analyse_method(c.qual, then)
  it2 = ctx.interp()
  f1, _ = ctx.prog.lookup(c.qual, first)
  f2, _ = ctx.prog.lookup(c.qual, then)
  pos, kw = it2.sym_args(f1, prefix='earlier_')
  r1 = it2.analyse_method(c.qual, first, args=pos, kwargs=kw)
  st = r1.st
  given = tuple(st.pc)
  st.pc = ()
  it2.log = []
  if f2.kind == 'property':
    v = it2.call_func(f2, [r1.self_ref], [], st, f2.node)
  else:
    p2, k2 = it2.sym_args(f2)
    v = it2.call_func(f2, [r1.self_ref] + p2, k2, st, f2.node)
  v = it2.reify(v, st)
  try:
    d = cmp.compare(v, alone.value, given=given + tuple(alone.given))
  except cmp.CaseLimit as e:
    ctx.undecided('history', label, str(e))
    return
  loc = f'{f2.module.relpath}:{f2.node.lineno}'
  if d:
    ctx.bad('history', label, f'{label} differs from a first call: '
            + spec.describe(d), loc)
  else:
    ctx.ok('history', label)
