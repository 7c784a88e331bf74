"""Metrics as formulas over means of per-cell statistics.

The value of a metric for one variable is built only from the public
interface: statistics (declared), compute (per cell) and
values_from_mean_statistics (after averaging). The average is an
uninterpreted function mean(.), so a formula that takes a root before
averaging differs from one that takes it after.
"""

from __future__ import annotations

import ast

from . import lib
from . import terms as tm
from .interp import Result
from .program import Func
from .spec import to_term
from .terms import T, mk, const

BASE = 'weatherbenchX.metrics.base'
MEAN = 'wbxspec.prelude.mean'
DA = ast.parse('xr.DataArray', mode='eval').body


def metric_classes(prog):
  """Concrete Metric subclasses of the repository, by qualified name."""
  out = []
  root = prog.cls('weatherbenchX.metrics.base.Metric').qual
  for c in prog.repo_classes():
    if prog.isa(c.qual, root) and not abstract(prog, c.qual):
      out.append(c)
  return sorted(out, key=lambda c: c.qual)


def statistic_classes(prog):
  root = prog.cls('weatherbenchX.metrics.base.Statistic').qual
  return [c for c in metric_classes(prog) if prog.isa(c.qual, root)]


def abstract(prog, cls):
  first = {}
  declared = set()
  for q in prog.mro(cls):
    c = prog.classes.get(q)
    if c is None:
      continue
    for n, m in c.methods.items():
      if not isinstance(m, Func):
        continue
      if n not in first:
        first[n] = m
      elif any('abstract' in d for d in m.decorators):
        declared.add(n)  # overridden, if only to be refused
  left = [n for n, m in first.items() if m.is_abstract]
  # An abstract method overridden by a refusal that no subclass replaces.
  return any(n not in declared or any(
      c.qual != cls and cls in prog.mro(c.qual) and n in c.methods
      for c in prog.repo_classes()) for n in left)


def data(it, prog, side, names):
  mod = prog.modules[BASE] if BASE in prog.modules else None
  segs = []
  for n in names:
    t = mk('in', side if len(names) == 1 else f'{side}_{n}')
    if mod is not None:
      it.set_type(t, DA, mod)
    segs.append(mk('kv', const(n), t))
  return tm.seq('dict', segs)


def mean_of(t):
  return mk('call', mk('func', MEAN), (t,), ())


def call_method(it, st, obj, name, args, node):
  return it.call(it.getattr(obj, name, st, node), args, [], st, node)


def dict_items(t):
  """[(key term, value term)] of a fully enumerated dict, or None."""
  if t.op != 'dict':
    return None
  out = []
  for s in t.args:
    if s.op != 'kv':
      return None
    out.append((s.args[0], s.args[1]))
  return out


class MetricValue:

  def __init__(self):
    self.stats = []  # (internal name, object term, per-variable cell terms)
    self.values = None  # dict term
    self.events = []
    self.cls = None
    self.loc = ''


def analyse(ctx, cls, fix=None, names=('v',), opaque=(), keep=False):
  """Value of metric class `cls` for data with the given variables."""
  prog = ctx.prog
  it = ctx.interp(opaque=[MEAN, *opaque])
  c = prog.classes[cls]
  it.log = []
  st = it.new_state(c.module)
  fixt = {k: to_term(v) for k, v in (fix or {}).items()}
  m = it.instantiate_symbolic(cls, st, fixt)
  st.pc = ()
  out = MetricValue()
  out.cls = cls
  out.loc = f'{c.module.path}:{c.node.lineno}'
  out.ctor_events = it.log
  it.log = []
  pred = data(it, prog, 'f', names)
  targ = data(it, prog, 'o', names)
  stats = it.deref(it.getattr(m, 'statistics', st, c.node), st)
  items = dict_items(stats)
  if items is None:
    raise Unenumerable(f'statistics of {cls}: {tm.show(stats)[:200]}')
  segs = []
  for k, obj in items:
    cells = it.reify(
        call_method(it, st, obj, 'compute', [pred, targ], c.node), st)
    out.stats.append((k, it.reify(obj, st), cells))
    means = map_values(cells, mean_of)
    segs.append(mk('kv', k, means))
  it.obs = None
  v = call_method(it, st, m, 'values_from_mean_statistics',
                  [tm.seq('dict', segs)], c.node)
  out.values = it.reify(v, st)
  out.events = it.log
  out.interp = it
  out.st = st
  return out


def map_values(t, fn):
  if t.op == 'ite':
    return tm.ite(t.args[0], map_values(t.args[1], fn),
                  map_values(t.args[2], fn))
  if t.op == 'dict':
    out = []
    for s in t.args:
      if s.op == 'kv':
        out.append(mk('kv', s.args[0], fn(s.args[1])))
      elif s.op == 'guard':
        inner = map_values(tm.seq('dict', list(s.args[1:])), fn)
        out.append(mk('guard', s.args[0], *inner.args))
      else:
        raise Unenumerable(f'statistic values {tm.show(t)[:200]}')
    return tm.seq('dict', out)
  raise Unenumerable(f'statistic values {tm.show(t)[:200]}')


class Unenumerable(Exception):
  pass
