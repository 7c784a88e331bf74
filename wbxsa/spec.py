"""Reference definitions (in /verif/spec) compared with the code's value graphs.

A reference definition is a Python function that states what a function of the
repository has to compute. Both are turned into value-graph normal form by the
same dataflow analysis, over the same symbolic inputs, and compared. Neither is
executed.
"""

from __future__ import annotations

import ast

from . import compare as cmp
from . import terms as tm
from .interp import Budget
from .program import AnalysisError, Func
from .terms import T, mk, const


def to_term(v):
  if isinstance(v, T):
    return v
  if isinstance(v, (list, tuple)):
    return tm.seq('list' if isinstance(v, list) else 'tuple',
                  [mk('item', to_term(x)) for x in v])
  if isinstance(v, dict):
    return tm.seq('dict', [mk('kv', to_term(k), to_term(x))
                           for k, x in v.items()])
  return const(v)


def literal(f, node):
  """A literal, or the name of one bound at the top of the spec module."""
  if isinstance(node, ast.Name):
    return literal(f, f.module.globals[node.id])
  if isinstance(node, (ast.List, ast.Tuple)):
    out = [literal(f, x) for x in node.elts]
    return out if isinstance(node, ast.List) else tuple(out)
  if isinstance(node, ast.Dict):
    return {literal(f, k): literal(f, v) for k, v in zip(
        node.keys, node.values)}
  if isinstance(node, ast.BinOp):
    return literal(f, node.left) + literal(f, node.right)
  return ast.literal_eval(node)


class Spec:

  def __init__(self, func, target, props, opts):
    self.func = func
    self.target = target
    self.props = props
    self.opts = opts


def load(prog):
  """All reference definitions: functions decorated with @behaves(...)."""
  out = []
  for f in prog.spec_funcs():
    for d in f.node.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'behaves':
        args = [literal(f, a) for a in d.args]
        opts = {k.arg: literal(f, k.value) for k in d.keywords}
        for t in args[0].split():
          out.append(Spec(f, t, args[1].split(), dict(opts)))
  return out


def resolve_target(prog, target):
  """(class qual or None, Func)."""
  if target in prog.funcs:
    f = prog.funcs[target]
    return (f.cls.qual if f.cls else None), f
  if '.' in target:
    c, m = target.rsplit('.', 1)
    cls = prog.cls(c, required=False)
    if cls is not None:
      f, _ = prog.lookup(cls.qual, m)
      if not isinstance(f, Func):
        raise AnalysisError(f'{target}: no such method')
      return cls.qual, f
  f = prog.func(target)
  return (f.cls.qual if f.cls else None), f


def analyse_code(ctx, target, fix, opaque, argnames, argfix=None):
  cls, f = resolve_target(ctx.prog, target)
  it = ctx.interp(opaque=opaque)
  fixt = {k: to_term(v) for k, v in (fix or {}).items()}
  argfix = {k: to_term(v) for k, v in (argfix or {}).items()}
  a = f.node.args
  params = a.posonlyargs + a.args
  if f.cls is not None and f.kind != 'staticmethod':
    params = params[1:]
  args = []
  if argnames and set(argnames) <= {x.arg for x in params + a.kwonlyargs}:
    argnames = ()  # bound by name
  for i, p in enumerate(params):
    n = argnames[i] if argnames and i < len(argnames) else p.arg
    t = argfix.get(n, mk('in', n))
    if t.op == 'in':
      it.set_type(t, p.annotation, f.module)
    args.append(t)
  kw = []
  if a.vararg:
    t = mk('in', '*' + a.vararg.arg)
    if a.vararg.annotation is not None:
      it.types[t] = (ast.Subscript(
          value=ast.Name(id='list', ctx=ast.Load()),
          slice=a.vararg.annotation, ctx=ast.Load()), f.module)
    args.append(mk('splat', t))
  for p in a.kwonlyargs:
    t = argfix.get(p.arg, mk('in', p.arg))
    if t.op == 'in':
      it.set_type(t, p.annotation, f.module)
    kw.append((p.arg, t))
  if a.kwarg:
    kw.append(('**', mk('in', '**' + a.kwarg.arg)))
  if cls is not None and f.kind not in ('staticmethod', 'classmethod'):
    r = it.analyse_method(cls, f.node.name, fixt, args, kw)
  elif cls is not None:
    r = it.analyse_method(cls, f.node.name, fixt, args, kw) if (
        f.kind == 'classmethod') else _static(it, f, args, kw)
  else:
    r = _static(it, f, args, kw)
  r.func = f
  r.module = f.module.name
  r.cls = cls
  r.interp = it
  return r


def _static(it, f, args, kw):
  from .interp import Result
  it.log = []
  st = it.new_state(f.module)
  v = it.call_func(f, args, kw, st, f.node)
  return Result(it.reify(v, st), st, it.log)


def ctor_namespace(ctx, cls, fix):
  """Constructor parameters of the code class as a record."""
  if cls is None:
    return ()
  init, _ = ctx.prog.lookup(cls, '__init__')
  names = []
  star = []
  if isinstance(init, Func):
    a = init.node.args
    names = [p.arg for p in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
    if a.vararg:
      star.append(a.vararg.arg)
  elif ctx.prog.is_dataclass(cls):
    names = [n for n, _, _ in ctx.prog.dataclass_fields(cls)]
  out = [(n, to_term(fix[n]) if n in fix else mk('param', n)) for n in names]
  out += [(n, mk('param', '*' + n)) for n in star]
  return tuple(sorted(out))


def analyse_spec(ctx, spec, fix, opaque, code, argfix=None):
  it = ctx.interp(opaque=opaque)
  f = spec.func
  it.log = []
  st = it.new_state(f.module)
  args = []
  fixt = {k: to_term(v) for k, v in (fix or {}).items()}
  argfix = {k: to_term(v) for k, v in (argfix or {}).items()}
  codeparams = code.func.node.args
  cp = codeparams.posonlyargs + codeparams.args
  if code.func.cls is not None and code.func.kind != 'staticmethod':
    cp = cp[1:]
  i = 0
  for p in f.node.args.args:
    n = p.arg
    if n == 'p':
      ref = it.alloc(st, mk('new', 'wbxspec.P', ctor_namespace(
          ctx, code.cls, fixt)))
      args.append(ref)
      init, _ = ctx.prog.lookup(code.cls, '__init__')
      if isinstance(init, Func):
        it.sym_args(init, kind='param')
    elif n == 'self':
      args.append(it.instantiate_symbolic(code.cls, st, fixt))
      st.pc = ()
    elif n.startswith('star_'):
      t = mk('in', '*' + n[5:])
      args.append(t)
      if codeparams.vararg and codeparams.vararg.annotation is not None:
        it.types[t] = (ast.Subscript(
            value=ast.Name(id='list', ctx=ast.Load()),
            slice=codeparams.vararg.annotation, ctx=ast.Load()),
                       code.func.module)
    else:
      t = argfix.get(n, mk('in', n))
      if t.op == 'in':
        ann = cp[i].annotation if i < len(cp) else None
        for k in cp + codeparams.kwonlyargs:
          if k.arg == n:
            ann = k.annotation
        it.set_type(t, ann, code.func.module)
      i += 1
      args.append(t)
  it.log = []
  v = it.call_func(f, args, [], st, f.node)
  from .interp import Result
  r = Result(it.reify(v, st), st, it.log)
  r.module = f.module.name
  return r


def rejection(events, kinds=('raise', 'assert')):
  """The condition under which the function refuses its input.

  Raised errors and failed assertions alike, whatever their type and order.
  """
  at = {}
  for e in events:
    if e.kind in kinds:
      at.setdefault(e.loops, []).append(
          elementwise(tm.land(*e.pc), [lp[0] for lp in e.loops]))
  out = []
  for loops, cs in at.items():
    c = tm.lor(*cs)
    for lp in reversed(loops):
      c = any_over(lp[0], lp[1], c)
    out.append(c)
  return one_carried(tm.lor(*out))


def both_refuse(events, due):
  """When code and definition both raise: their values do not matter there."""
  r = rejection(due)
  return r if r is tm.FALSE else tm.land(r, rejection(events))


def elementwise(c, bound):
  """The condition for some argument of a callback, whichever it is called."""
  free = [u for u in tm.walk(c) if u.op == 'fresh' and u not in bound]
  if not free:
    return c
  return tm.subst(c, {u: mk('elem', i) for i, u in enumerate(
      dict.fromkeys(free))})


def any_over(b, it, c):
  """Some element of the iterable fulfils the condition."""
  if c.op == 'or':
    return tm.lor(*[any_over(b, it, x) for x in c.args])
  parts = c.args if c.op == 'and' else (c,)
  here = [x for x in parts if tm.contains(x, b)]
  for x in here:
    if x.op == 'or' and len(x.args) <= 6:
      return tm.lor(*[any_over(b, it, tm.land(
          *[y for y in parts if y is not x], z)) for z in x.args])
  rest = [x for x in parts if not tm.contains(x, b)]
  if not here:
    return tm.land(tm.truth(it), *rest)
  return tm.land(mk('any', tm.mk_comp(b, it, [mk('item', tm.land(*here))])),
                 *rest)


def argnames_of(spec):
  return [a.arg for a in spec.func.node.args.args
          if a.arg not in ('p', 'self') and not a.arg.startswith('star_')]


def variants(opts):
  """Constant settings under which the definition is compared."""
  base = opts.get('fix', {})
  cs = opts.get('each', [{}])
  return [dict(base, **c) for c in cs]


def with_defaults(ctx, cls, fix):
  """(settings of the code, settings shown to the definition).

  '__defaults__': parameters take the default values of the code; the
  definition has to state those values itself.
  """
  if '__defaults__' not in fix:
    return fix, fix
  fix = {k: v for k, v in fix.items() if k != '__defaults__'}
  full = dict(fix)
  init, _ = ctx.prog.lookup(cls, '__init__')
  if isinstance(init, Func):
    a = init.node.args
    ps = a.posonlyargs + a.args
    ds = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
        (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    it = ctx.interp()
    for p, d in ds:
      if p.arg not in full:
        full[p.arg] = it.eval_in_module(d, init.module)
  return full, fix


class Verdicts:
  """Collects the verdicts of one attempt."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.prop = ctx.prop
    self.items = []

  def ok(self, *a, **k):
    self.items.append(('ok', a, k))

  def bad(self, *a, **k):
    self.items.append(('bad', a, k))

  def undecided(self, *a, **k):
    self.items.append(('undecided', a, k))

  @property
  def clean(self):
    return all(x[0] == 'ok' for x in self.items)

  def commit(self):
    for kind, a, k in self.items:
      getattr(self.ctx, kind)(*a, **k)


def settle(ctx, opaque, attempt, keep=()):
  """Agreement may be shown with helpers kept opaque or looked into.

  Either is a proof; a difference counts only if neither succeeds. Private
  helpers may be renamed, merged or re-parametrised freely that way.
  """
  first = Verdicts(ctx)
  attempt(first, opaque)
  if first.clean or not opaque:
    first.commit()
    return
  seen = [tuple(opaque)]
  for hide in ([q for q in opaque if not private(q)], [
      q for q in opaque if q in ALWAYS_OPAQUE], []):
    hide = hide + [q for q in opaque if q in keep and q not in hide]
    if tuple(hide) in seen:
      continue
    seen.append(tuple(hide))
    v = Verdicts(ctx)
    try:
      attempt(v, hide)
    except (RecursionError, cmp.CaseLimit, Budget, AnalysisError):
      continue
    if v.clean:
      v.commit()
      return
  first.commit()


ALWAYS_OPAQUE = {'weatherbenchX.xarray_tree.map_structure'}


def private(q):
  return any(x.startswith('_') for x in q.split('.')[1:])


def run_spec(ctx, spec, rule):
  prog = ctx.prog
  opaque = spec.opts.get('opaque', [])
  for fix in variants(spec.opts):
    for argfix in spec.opts.get('args', [{}]):
      name = ' '.join([spec.target, *([spec.opts['name']] if 'name' in
                                      spec.opts else [])])
      tag = ','.join(f'{k}={v}' for k, v in {**fix, **argfix}.items())
      name += f'[{tag}]' if tag else ''
      with ctx.guard(rule, name):
        cls, _ = resolve_target(prog, spec.target)
        cfix, sfix = with_defaults(ctx, cls, fix)

        def both(hide):
          code = analyse_code(ctx, spec.target, cfix, hide, argnames_of(spec),
                              argfix)
          return code, analyse_spec(ctx, spec, sfix, hide, code, argfix)

        settle(ctx, opaque, lambda out, hide: judge(
            out, rule, name, *both(hide), spec.opts, prog),
               # the calls that are compared have to stay calls
               spec.opts.get('effects', ()))


def effects(events, names):
  """The calls with the given names, in order, each under its condition."""
  calls = []
  for e in events:
    if e.kind != 'call':
      continue
    t = e.data[0]
    if t.op == 'pipe':
      if 'pipe' in names:
        calls = [(u, x) for u, x in calls if u.op != 'pipe' or not tm.contains(
            t, u)]
        calls.append((t, e))
    elif t.op == 'call' and t.args[0].op in (
        'attr', 'func', 'ext', 'in', 'param') and t.args[0].args[-1] in names:
      calls.append((t, e))
  segs = []
  for t, e in calls:
    seg = tm.guard(tm.land(*e.pc), [mk('item', t)])
    for lp in reversed(e.loops):
      seg = tm.comp(lp[0], lp[1], seg)
    segs.extend(seg)
  return tm.seq('list', segs)


def judge(ctx, rule, name, code, ref, opts, prog):
  loc = code.func.loc() if callable(code.func.loc) else code.func.loc
  a, b = code.value, ref.value
  if opts.get('effects'):
    names = opts['effects']
    done, due = effects(code.events, names), effects(ref.events, names)
    if not due.args:
      ctx.undecided(rule, name, 'the definition has no effect to compare', loc)
      return
    a = tm.seq('tuple', [mk('item', a), mk('item', done)])
    b = tm.seq('tuple', [mk('item', b), mk('item', due)])
  if any(g is tm.FALSE for g in code.given):
    ctx.undecided(rule, name, 'the constructor fails for every argument in '
                  'the model', loc)
    return
  if opts.get('value', True):
    given = tuple(code.given)
    if opts.get('raises'):
      given += (tm.lnot(rejection(mine(ref, opts))),)
    bad = cmp.compare(a, b, opts.get('limit', 10), given)
    if bad:
      r = both_refuse(code.events, ref.events)
      if r is not tm.FALSE:
        bad = cmp.compare(a, b, opts.get('limit', 10), given + (tm.lnot(r),))
    if not bad:
      ctx.ok(rule, name, loc=loc)
    else:
      un = [u for _, ds in bad for _, x, _ in ds for u in cmp.unmodelled(x)]
      un += vanished(b) + iterated_by_hand(a, b)
      if not cmp.flat_loops(b):
        un += cmp.flat_loops(a)
      msg = describe(bad)
      if un:
        ctx.undecided(rule, name, f'unmodelled {tm.show(un[0])[:80]}: {msg}',
                      loc, diff=(a, b, bad))
      elif caught_only(a, b, bad) and getattr(ctx, 'prop', '') != 'C18':
        ctx.undecided(rule, name, f'only after a caught error: {msg}', loc,
                      diff=(a, b, bad))
      else:
        ctx.bad(rule, name, msg, loc, diff=(a, b, bad))
  if opts.get('raises'):
    x, y = rejection(mine(code, opts)), rejection(mine(ref, opts))
    # further assertions (internal consistency) are harmless
    only = rejection(mine(code, opts), ('raise',))
    miss = implies(y, x)
    extra = [] if opts.get('at_least') else implies(only, y)
    bad = miss + extra
    msg = '\n'.join(
        [f'accepted but must be refused when {cases(d)}' for d in miss]
        + [f'refused but must be accepted when {cases(d)}' for d in extra]
        + [f'code refuses when {tm.show(x)[:600]}',
           f'must refuse when  {tm.show(y)[:600]}'])
    un = [] if not bad else (
        cmp.unmodelled(x) + cmp.unmodelled(y) + vanished(y) + (
            carried(x) + carried(y) if set(carried(x)) != set(carried(y))
            else []))
    if un:
      ctx.undecided(rule, f'{name} raises', f'unmodelled {tm.show(un[0])[:80]}'
                    f': {msg}', loc)
    elif bad:
      ctx.bad(rule, f'{name} raises', msg, loc)
    else:
      ctx.ok(rule, f'{name} raises', loc=loc)


def mine(r, opts):
  """The events; with option `own`, those of the function's own module."""
  if not opts.get('own'):
    return r.events
  return [e for e in r.events if e.func.startswith(r.module + '.')]


def implies(a, b, limit=12):
  """[] if b holds whenever a does."""
  if a is b or a is tm.FALSE or b is tm.TRUE:
    return []
  return cmp.compare(tm.ite(tm.land(a, tm.lnot(b)), const(1), const(0)),
                     const(0), limit)


def caught_only(a, b, bad):
  """Every difference needs an error that only the code catches (C18)."""
  mine = {u for u in tm.walk(b) if u.op == 'exc'}
  new = {u for u in tm.walk(a) if u.op == 'exc'} - mine
  return bool(new) and all(any(lits.get(u) is True for u in new)
                           for lits, _ in bad)


def iterated_by_hand(a, b):
  """next() in a loop that could not be read as a loop over the iterator."""
  return [u for u in set(tm.walk(a)) - set(tm.walk(b)) if u.op == 'exc'
          and str(u.args[-1]).endswith('StopIteration')]


def carried(t):
  """State carried from one iteration to the next inside a condition."""
  return [u for u in tm.walk(t) if u.op in ('acc', 'accref', 'carried')]


def one_carried(c):
  """A single carried variable may have any name."""
  us = list(dict.fromkeys(u for u in tm.walk(c) if u.op == 'acc'))
  return tm.subst(c, {us[0]: mk('carried')}) if len(us) == 1 else c


def vanished(t):
  """Names of the repository a definition uses that do not exist there."""
  return [u for u in tm.walk(t) if u.op == 'ext' and isinstance(
      u.args[0], str) and u.args[0].startswith('weatherbenchX.')]


def cases(case):
  return ', '.join(('' if v else 'not ') + tm.show(c)[:120]
                   for c, v in case[0].items())


def describe(bad, width=400):
  out = []
  for lits, ds in bad[:2]:
    if lits:
      out.append('when ' + cases((lits, ds)))
    for path, x, y in ds[:3]:
      out.append(f'code computes   {tm.show(x)[:width]}')
      out.append(f'must compute    {tm.show(y)[:width]}')
  return '\n'.join(out)


# ---------------------------------------------------------------------------
# Laws: functions over the repository's API returning pairs that must agree.


def load_laws(prog):
  out = []
  for f in prog.spec_funcs():
    for d in f.node.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'law':
        args = [literal(f, a) for a in d.args]
        opts = {k.arg: literal(f, k.value) for k in d.keywords}
        out.append(Spec(f, 'law:' + f.node.name, args[0].split(), dict(opts)))
  return out


def run_law(ctx, spec, rule):
  """Both sides of the law, for arbitrary arguments, have one normal form."""
  from .interp import Result
  for fix in variants(spec.opts):
    tag = ','.join(f'{k}={v}' for k, v in fix.items())
    name = spec.target + (f'[{tag}]' if tag else '')
    with ctx.guard(rule, name):
      settle(ctx, spec.opts.get('opaque', []), lambda out, hide: judge_law(
          ctx, out, spec, rule, name, fix, hide))


def judge_law(ctx, out, spec, rule, name, fix, hide):
  from .interp import Result
  it = ctx.interp(opaque=hide)
  f = spec.func
  it.log = []
  st = it.new_state(f.module)
  args = []
  for a in f.node.args.args:
    if a.arg in fix:
      args.append(to_term(fix[a.arg]))
      continue
    t = mk('in', a.arg)
    if a.annotation is not None:
      it.set_type(t, a.annotation, f.module)
    args.append(t)
  v = it.call_func(f, args, [], st, f.node)
  v = Result(it.reify(v, st), st, it.log).value
  given = tuple(st.pc) + tuple(st.assumed)
  pairs = law_pairs(v)
  loc = spec.opts.get('anchor', '')
  if pairs is None:
    out.undecided(rule, name, f'no pair of values: {tm.show(v)[:200]}')
    return
  bad = [x for a, b in pairs
         for x in cmp.compare(a, b, spec.opts.get('limit', 10), given)]
  if not bad:
    out.ok(rule, name, loc=loc)
    return
  un = [u for _, ds in bad for _, x, y in ds
        for u in cmp.unmodelled(x) + cmp.unmodelled(y)]
  un += [u for a, b in pairs for u in vanished(a) + vanished(b)]
  if un:
    out.undecided(rule, name, f'unmodelled {tm.show(un[0])[:80]}: '
                  + describe(bad), loc)
  else:
    out.bad(rule, name, describe(bad), loc)


def law_pairs(v):
  its = tm.plain_items(v) if v.op in ('tuple', 'list') else None
  if its is not None and len(its) == 2:
    return [(its[0], its[1])]
  if v.op == 'ite':
    a, b = law_pairs(v.args[1]), law_pairs(v.args[2])
    if a is None or b is None:
      return None
    return [(tm.ite(v.args[0], a[0][0], b[0][0]),
             tm.ite(v.args[0], a[0][1], b[0][1]))]
  return None


# ---------------------------------------------------------------------------
# Metrics.


def load_metric_specs(prog):
  out = []
  for f in prog.spec_funcs():
    for d in f.node.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'metric':
        args = [literal(f, a) for a in d.args]
        opts = {k.arg: literal(f, k.value) for k in d.keywords}
        for t in args[0].split():
          out.append(Spec(f, t, args[1].split(), dict(opts)))
  return out


def run_metric_spec(ctx, spec, rule):
  from . import metrics as mt
  prog = ctx.prog
  names = tuple(spec.opts.get('names', ('v',)))
  for fix in variants(spec.opts):
    name = spec.target
    tag = ','.join(f'{k}={v}' for k, v in fix.items())
    name += f'[{tag}]' if tag else ''
    with ctx.guard(rule, name):
      settle(ctx, list(spec.opts.get('opaque', ())), lambda out, hide: (
          judge_metric(ctx, out, spec, rule, name, fix, names, hide)))


def judge_metric(ctx, out, spec, rule, name, fix, names, hide):
  from . import metrics as mt
  cls = ctx.prog.cls(spec.target)
  cfix, fix = with_defaults(ctx, cls.qual, fix)
  code = mt.analyse(ctx, cls.qual, cfix, names, hide)
  want, log = analyse_metric_spec(ctx, spec, fix, cls.qual, names, hide)
  got = code.values
  if want.op != 'dict':
    want = tm.seq('dict', [mk('kv', const('v'), want)])
  bad = cmp.compare(got, want, spec.opts.get('limit', 10))
  if bad:
    r = both_refuse(code.events, log)
    if r is not tm.FALSE:
      bad = cmp.compare(got, want, spec.opts.get('limit', 10), (tm.lnot(r),))
  if not bad:
    out.ok(rule, name, loc=code.loc)
    return
  un = [u for _, ds in bad for _, x, _ in ds for u in cmp.unmodelled(x)]
  un += vanished(want)
  msg = describe(bad)
  if un:
    out.undecided(rule, name, f'unmodelled {tm.show(un[0])[:80]}: {msg}',
                  code.loc, diff=(got, want, bad))
  elif caught_only(got, want, bad) and out.prop != 'C18':
    out.undecided(rule, name, f'only after a caught error: {msg}', code.loc,
                  diff=(got, want, bad))
  else:
    out.bad(rule, name, msg, code.loc, diff=(got, want, bad))


def analyse_metric_spec(ctx, spec, fix, cls, names, opaque=()):
  from . import metrics as mt
  prog = ctx.prog
  it = ctx.interp(opaque=[mt.MEAN, *opaque])
  f = spec.func
  it.log = []
  st = it.new_state(f.module)
  fixt = {k: to_term(v) for k, v in (fix or {}).items()}
  args = []
  for a in f.node.args.args:
    n = a.arg
    if n == 'p':
      args.append(it.alloc(st, mk('new', 'wbxspec.P',
                                  ctor_namespace(ctx, cls, fixt))))
      init, _ = prog.lookup(cls, '__init__')
      if isinstance(init, Func):
        it.sym_args(init, kind='param')
    else:
      t = mk('in', n)
      it.set_type(t, mt.DA, prog.modules[mt.BASE])
      args.append(t)
  v = it.reify(it.call_func(f, args, [], st, f.node), st)
  return v, it.log
