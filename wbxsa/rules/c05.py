"""c05: identity of statistics.

Information flow. For every concrete statistic and input transform (and every
statistic a metric declares) two value graphs are built in terms of the
constructor options: U, the identity, and V, the values. Options that U pins
down are found by following the text-building operations that lose nothing
(formatting, joining, hashing). What is pinned is then blanked out of V; an
option still occurring in V changes values without changing the identity.
"""

import ast

from . import generic
from .. import metrics
from .. import terms as tm
from ..interp import AnalysisError, Budget
from ..program import Func
from ..terms import mk

EXPLANATION = (
    'Every concrete Statistic and InputTransform, and every statistic that a '
    'metric declares, is analysed as two value graphs over its constructor '
    'options: the identity (unique_name / unique_name_suffix) and the computed '
    'values. Going through the identity from the outside in, along operations '
    'that preserve information (f-strings, join, repr, hashing, to_dict), gives '
    'the options the identity pins down; number formats, rounding, lengths and '
    'the printed form of arrays do not pin their argument. The values, with the '
    'pinned options blanked out, must not mention any option. Branches of the '
    'identity are treated case by case. In addition: identities of different '
    'classes have different literal text, identities are built from options '
    'only (no object addresses, hash(), clocks, set order), and statistics are '
    'shared exactly by identity (definition rule).')

ASSUMPTIONS = (
    'Where a class takes a suffix that the documentation makes the caller '
    'responsible for (table CALLER_NAMED), the options it stands for count as '
    'identified by it.',
    'Options that documentation calls pure performance or strictness options '
    '(use_sort, skip_if_ensemble_dim_missing) do not change values.',
    'Separators used when names are joined do not occur in the names.',
)

METRICS = 'weatherbenchX.metrics.'
# (class, option): identified by the suffix the caller supplies.
CALLER_NAMED = {
    'Inline': {'transform_fn'},
    'ShiftAlongNewDim': {'shift_value', 'shift_dim'},
    'RenamedStatistic': {'statistic'},
    'ContinuousToBinary': {'threshold_value'},
    'ContinuousToBins': {'bin_values'},
    'ContinuousToCDF': {'threshold_values'},
    'EnsembleRankedProbabilityScore': {'prediction_bin_thresholds',
                                       'target_bin_thresholds'},
    'Reliability': {'bin_values'},
    'RelativeEconomicValue': {'ensemble_size', 'probability_thresholds'},
    'WrappedMetric': {'metric', 'transforms'},
}
NO_EFFECT = {
    'use_sort': 'chooses between two algorithms for the same quantity',
    'skip_if_ensemble_dim_missing': 'only decides whether data without the '
                                    'dimension is an error',
    'enforce_monotonicity': 'only decides whether an error is raised',
}
IMPURE = ('builtins.id', 'builtins.hash', 'builtins.object', 'time.', 'random.',
          'numpy.random.', 'uuid.', 'datetime.datetime.now', 'os.getpid',
          'threading.', 'builtins.vars', 'builtins.dir')
TRANSPARENT = ('builtins.str', 'builtins.repr', 'builtins.tuple',
               'builtins.list', 'builtins.sorted', 'builtins.frozenset',
               'builtins.dict', 'builtins.float', 'builtins.ascii',
               'json.dumps', 'dask.base.tokenize', 'xarray.DataArray',
               'numpy.array', 'numpy.asarray', 'pickle.dumps')
KEEPING = ('encode', 'hexdigest', 'digest', 'to_dict', 'items', 'copy',
           'tobytes')


class Pinned:
  """Terms whose value follows from the identity U."""

  def __init__(self, prog, notes, lits):
    self.prog = prog
    self.notes = notes  # param name -> annotation source
    self.lits = lits
    self.terms = set()
    self.lost = []  # (term, why)

  def array(self, t):
    if t.op != 'param':
      return False
    note = self.notes.get(t.args[0], '')
    kinds = [k for k in ('DataArray', 'Dataset', 'ndarray') if k in note]
    left = []
    for k in kinds:
      out = any(not v and a.op == 'isinstance' and a.args[0] is t and
                a.args[1].op == 'ext' and a.args[1].args[0].endswith('.' + k)
                for a, v in self.lits.items())
      # known to be something else
      other = any(v and a.op == 'isinstance' and a.args[0] is t and
                  a.args[1].op == 'ext' and not a.args[1].args[0].endswith(
                      '.' + k) for a, v in self.lits.items())
      if not out and not other:
        left.append(k)
    return left

  def pin(self, t, printed=False):
    if t in self.terms:
      return
    if printed and self.array(t):
      self.lost.append((t, 'the printed form of an array is abbreviated'))
      return
    self.terms.add(t)
    op, a = t.op, t.args
    if op == 'fstr':
      for i, p in enumerate(a[0]):
        if any(open_ended(q) for q in (a[0][i - 1:i] + a[0][i + 1:i + 2])
               ) and open_ended(p):
          self.lost.append((p, 'it runs together with the text next to it'))
          continue
        self.pin(p, True)
    elif op == 'repr':
      self.pin(a[0], True)
    elif op == 'join':
      if a[0].op == 'const' and not str(a[0].args[1]).strip('0123456789.+-e'):
        self.lost.append((a[1], 'it is joined without a separator that could '
                          'not be part of a number'))
      else:
        self.pin(a[1])
    elif op in ('list', 'tuple', 'dict', 'set'):
      for s in a:
        self.segment(s)
    elif op == 'comp':
      self.segment(t)
    elif op == 'index':
      if a[1].op == 'slice':
        lo, hi = a[1].args[0], a[1].args[1]
        if lo is tm.NONE and (hi is tm.NONE or hi.op == 'num' and
                              hi.args[0] >= 8):
          if a[0].op == 'call' and a[0].args[0].op == 'attr' and (
              a[0].args[0].args[1] == 'hexdigest'):
            self.pin(a[0])
    elif op == 'attr':
      if a[1] == 'unique_name':
        self.pin(a[0])
      elif a[1] == 'unique_name_suffix':
        self.terms.add(mk('attr', a[0], 'transform_fn'))
    elif op == 'call':
      f = a[0]
      if f.op == 'attr' and f.args[1] in KEEPING:
        self.pin(f.args[0])
      elif f.op == 'ext' and (f.args[0] in TRANSPARENT or
                              f.args[0].startswith('hashlib.')):
        printed = f.args[0] in ('builtins.str', 'builtins.repr')
        for x in a[1]:
          self.pin(x, printed)
        for _, x in a[2]:
          self.pin(x, printed)

  def segment(self, s):
    if s.op in ('item', 'splat'):
      self.pin(s.args[0])
    elif s.op == 'kv':
      self.pin(s.args[0])
      self.pin(s.args[1])
    elif s.op == 'guard':
      for x in s.args[1:]:
        self.segment(x)
    elif s.op == 'comp':
      binder, it = s.args[:2]
      for x in s.args[2:]:
        self.segment(x)
      if binder in self.terms or all(
          mk('index', binder, tm.const(i)) in self.terms for i in (0, 1)):
        self.iterated(it)

  def iterated(self, it):
    if it.op == 'call' and it.args[0].op == 'ext' and it.args[0].args[0] in (
        'builtins.zip', 'builtins.enumerate', 'builtins.sorted'):
      for x in it.args[1]:
        self.pin(x)
    self.pin(it)


def open_ended(t):
  """A piece of text whose end (or beginning) cannot be told."""
  return t.op != 'const' and not (t.op == 'repr' or t.op == 'fstr' and
                                  t.args[0] and any(p.op == 'const' for p in
                                                    t.args[0]))


def parts(u):
  return u.args[0] if u.op == 'fstr' else (u,)


def annotations(prog, cls):
  init, _ = prog.lookup(cls, '__init__')
  out = {}
  if isinstance(init, Func):
    a = init.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      if p.annotation is not None:
        out[p.arg] = ast.unparse(p.annotation)
  elif prog.is_dataclass(cls):
    for n, _, c in prog.dataclass_fields(cls):
      out[n] = ast.unparse(c.field_nodes[n].annotation)
  return out


def params(t):
  return {x.args[0] for x in tm.walk(t) if x.op == 'param'}


def describe(lits):
  return ', '.join(f'{tm.show(a)}={v}' for a, v in list(lits.items())[:4])


def known_case(given, lits):
  """The constructor's own checks under the case; None when contradictory."""
  more = dict(lits)
  for g in given:
    g = tm.assume(g, lits)
    if g is tm.FALSE:
      return None
    for c in (g.args if g.op == 'and' else (g,)):
      if c.op == 'not' and c.args[0].op == 'isinstance':
        more[c.args[0]] = False
      elif c.op == 'not' and c.args[0].op == 'is':
        more[c.args[0]] = False
      elif c.op == 'isinstance':
        more[c] = True
  return more


def determined(ctx, cls, u, v, given, construct, loc, skip=(), subject=''):
  """Options occurring in v are pinned by u."""
  prog = ctx.prog
  short = cls.rsplit('.', 1)[-1]
  notes = annotations(prog, cls)
  everywhere = params(v)
  named = CALLER_NAMED.get(short, set())
  missing = {}
  n = 0
  for lits, uc in tm.cases(u, limit=8):
    full = known_case(given, lits)
    if full is None:
      continue
    n += 1
    vc = tm.assume(v, lits)
    absent = {a.args[0]: tm.NONE for a, val in full.items()
              if val and a.op == 'is' and a.args[1] is tm.NONE}
    if absent:
      uc = tm.subst(uc, absent)  # an option not given names nothing
    pinned = Pinned(prog, notes, full)
    pinned.pin(uc)
    m = {t: mk('known', t.uid) for t in pinned.terms if not tm.is_const(t)}
    for a, val in lits.items():
      # the case itself settles the option
      if a.op == 'truth' and notes.get(a.args[0].args[0] if a.args[
          0].op == 'param' else None) == 'bool' or val and a.op in (
              'is', 'eq'):
        for x in a.args:
          if x.op == 'param':
            m[x] = mk('known', x.uid)
    left = params(tm.subst(vc, m))
    # identity given by the caller in this case
    if named:
      own = params(uc)
      for a, val in full.items():
        if a.op == 'is' and not val and a.args[1] is tm.NONE:
          own |= params(a)
      if own - everywhere:
        left -= named
    for p in left:
      missing.setdefault(p, (lits, pinned))
  if not n:
    ctx.undecided('pinned', construct, 'no consistent case of the identity')
    return
  for p in sorted(everywhere):
    if p in skip:
      continue
    c = f'{construct} {p}'
    if p in NO_EFFECT:
      ctx.ok('pinned', c, NO_EFFECT[p], loc)
    elif p in missing:
      lits, pinned = missing[p]
      why = [w for t, w in pinned.lost if p in params(t)]
      ctx.bad('pinned', c, (
          f'option {p!r} changes the values of {subject or short} but the '
          f'identity {tm.show(u)[:300]} does not tell its values apart'
          + (f' ({why[0]})' if why else '')
          + (f' when {describe(lits)}' if lits else '')), loc)
    else:
      ctx.ok('pinned', c, '', loc)


def stable(ctx, u, cls, construct, loc):
  """The identity is made of options only."""
  notes = annotations(ctx.prog, cls)
  bad = []
  for x in tm.walk(u):
    if x.op == 'call' and x.args[0].op in ('ext', 'attr'):
      f = x.args[0]
      name = f.args[0] if f.op == 'ext' else ''
      if any(name == i or i.endswith('.') and name.startswith(i)
             for i in IMPURE):
        bad.append(f'{name}() differs between runs')
    elif x.op in ('fstr', 'repr'):
      for p in (x.args[0] if x.op == 'fstr' else (x.args[0],)):
        if p.op == 'param' and 'Callable' in notes.get(p.args[0], ''):
          bad.append(f'printing the function {p.args[0]} gives an address')
        elif p.op == 'param' and addressed(ctx.prog, cls, notes.get(
            p.args[0], '')):
          bad.append(f'printing the object {p.args[0]} gives an address')
        elif p.op == 'new' and not printable(ctx.prog, p.args[0]):
          bad.append(f'printing a {p.args[0]} gives an address')
        elif p.op in ('set', 'frozenset'):
          bad.append('printing a set depends on hash order')
    elif x.op == 'join' and x.args[1].op in ('set', 'setcomp'):
      bad.append('joining a set depends on hash order')
  for b in bad:
    ctx.bad('stable', construct, f'the identity is not a function of the '
            f'options: {b}', loc)
  if not bad:
    ctx.ok('stable', construct, '', loc)


def printable(prog, cls):
  for q in prog.mro(cls):
    c = prog.classes.get(q)
    if c is None:
      continue
    if '__str__' in c.methods or '__repr__' in c.methods:
      return True
  return prog.is_dataclass(cls)


def addressed(prog, cls, note):
  """The annotation names a class of the repository without printed form."""
  if not note:
    return False
  mod = prog.classes[cls].module
  try:
    tree = ast.parse(note, mode='eval').body
  except SyntaxError:
    return False
  d = ast.unparse(tree)
  for q in (f'{mod.name}.{d}', f'weatherbenchX.{d}', f'weatherbenchX.metrics.{d}'):
    if q in prog.classes:
      return not printable(prog, q)
  return False


def skeleton(u):
  """Literal text of the identity with its gaps."""
  out = []
  for p in parts(u):
    out.append(p.args[1] if p.op == 'const' else None)
  return tuple(out)


def identity_of(ctx, cls, name):
  it = ctx.interp()
  r = it.analyse_method(cls, name)
  return r.value, r.given


def values_of(ctx, cls, name):
  it = ctx.interp()
  return it.analyse_method(cls, name).value


def check(ctx):
  prog = ctx.prog
  root = prog.cls('weatherbenchX.metrics.wrappers.InputTransform').qual
  trans = [c for c in prog.repo_classes() if prog.isa(c.qual, root)
           and not metrics.abstract(prog, c.qual)]
  stats = metrics.statistic_classes(prog)
  ctx.rule('pinned', 'an option that occurs in the values is pinned down by '
           'the identity', 25)
  ctx.rule('stable', 'the identity is a function of the options only', 15)
  ctx.rule('distinct', 'identities of different classes differ in their '
           'literal text', 15)
  skel = {}
  for kind, cs, uname, vname in (
      ('statistic', stats, 'unique_name', 'compute'),
      ('transform', trans, 'unique_name_suffix', 'transform_fn')):
    for c in cs:
      q = c.qual
      loc = f'{c.module.path}:{c.node.lineno}'
      with ctx.guard('pinned', q):
        u, given = identity_of(ctx, q, uname)
        v = values_of(ctx, q, vname)
        stable(ctx, u, q, q, loc)
        determined(ctx, q, u, v, given, q, loc)
        for _, uc in tm.cases(u, limit=6):
          s = skeleton(uc)
          if any(s):
            skel.setdefault((kind, s), {})[q] = loc
  clash = {}
  for (kind, s), who in skel.items():
    if len(who) > 1:
      for q in who:
        clash[q] = (s, who)
  for q, loc in {q: l for w in skel.values() for q, l in w.items()}.items():
    if q in clash:
      s, who = clash[q]
      ctx.bad('distinct', q, 'shares the identity '
              f'{"".join(x if x is not None else "{}" for x in s)!r} with '
              f'{", ".join(sorted(set(who) - {q}))}', loc)
    else:
      ctx.ok('distinct', q, '', loc)
  composites(ctx, stats)
  generic.formulas(ctx)


def composites(ctx, stats):
  """Statistics a metric declares, in terms of the metric's options."""
  prog = ctx.prog
  ctx.rule('declared', 'an option of a metric that occurs in the values of a '
           'statistic it declares is pinned down by that statistic\'s '
           'identity', 8)
  skip = {c.qual for c in stats}
  for c in metrics.metric_classes(prog):
    if c.qual in skip or not annotations(prog, c.qual):
      continue
    loc = f'{c.module.path}:{c.node.lineno}'
    try:
      rows, given = declared(ctx, c)
    except metrics.Unenumerable:
      continue  # wrappers of any metric: see the definition rule
    except (Budget, RecursionError, AnalysisError) as e:
      ctx.undecided('declared', c.qual, f'{e!r}'[:200])
      continue
    for k, u, v in rows:
      before = len(ctx.obligations)
      determined(ctx, c.qual, u, v, given, f'{c.qual} {k}', loc,
                 skip=('climatology',), subject=f'its statistic {k}')
      ctx.obligations[before:] = [
          ('declared',) + o[1:] for o in ctx.obligations[before:]]
      if len(ctx.obligations) == before:
        ctx.ok('declared', f'{c.qual} {k}', 'no option reaches it', loc)


def entries(stats):
  """[(name, statistic)] of a declaration, conditional ones included."""
  out = []

  def rec(segs):
    for s in segs:
      if s.op == 'kv':
        out.append(s.args)
      elif s.op == 'guard':
        rec(s.args[1:])
      else:
        raise metrics.Unenumerable(tm.show(stats)[:100])
  if stats.op != 'dict':
    raise metrics.Unenumerable(tm.show(stats)[:100])
  rec(stats.args)
  return out


def declared(ctx, c):
  prog = ctx.prog
  it = ctx.interp()
  it.log = []
  st = it.new_state(c.module)
  m = it.instantiate_symbolic(c.qual, st)
  given = st.pc + st.assumed
  st.pc = ()
  stats = it.deref(it.getattr(m, 'statistics', st, c.node), st)
  items = entries(stats)
  out = []
  pred = metrics.data(it, prog, 'f', ('v',))
  targ = metrics.data(it, prog, 'o', ('v',))
  for k, obj in items:
    u = it.reify(it.getattr(obj, 'unique_name', st, c.node), st)
    v = it.reify(metrics.call_method(it, st, obj, 'compute', [pred, targ],
                                     c.node), st)
    out.append((tm.show(k), u, v))
  return out, given
