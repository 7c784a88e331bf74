"""C03: missing values stay visible.

statistic  every statistic, as a function of forecasts and of observations, is
           missing where a value it uses is missing.
transform  so is every input transform, and every regridding.
metric     a metric is missing where a mean it is computed from is missing.
"""

from . import generic
from .. import metrics
from .. import missing
from .. import terms as tm
from ..interp import AnalysisError, Budget
from ..program import Func
from .c23 import options

EXPLANATION = (
    'Abstract interpretation of value graphs over a lattice of what a term is '
    'when an input cell is missing (wbxsa/missing.py): missing, independent '
    'of that input, true or false (for conditions: comparisons with NaN are '
    'false, isnull is true), or an ordinary value. Applied to compute() of '
    'every Statistic class for forecasts and for observations, to every input '
    'transform and interpolation, and to every metric as a function of each '
    'mean statistic it reads, for all options with the skip options (skipna*) '
    'at False; a result that depends on the input and can be an ordinary '
    'value where the input is missing is a violation and names the operation '
    'that replaced the missing value. Reductions without an explicit '
    'skipna=False on xarray data count as skipping. In addition the '
    'definitions tagged with this property have to be computed exactly.')

ASSUMPTIONS = (
    'Missing means NaN in floating point data.',
    'The tables of third-party functions in wbxsa/missing.py (which give NaN '
    'for NaN) are right for the installed versions.',
    'Components and functions supplied by the caller propagate missing '
    'values.',
    'Cells excluded by a mask coordinate or by a selection that does not '
    'depend on the values are not used, as documented.',
)

STAT = 'weatherbenchX.metrics.base.Statistic'


def no_skip(prog, cls):
  return {o: tm.FALSE for o in options(prog, cls)[0] if o.startswith('skipna')}


def check(ctx):
  prog = ctx.prog
  ctx.rule('statistic', 'a statistic is missing wherever a forecast or '
           'observation it is computed from is missing', 20)
  ctx.rule('transform', 'a transformed or regridded input is missing where '
           'the input is missing', 6)
  ctx.rule('metric', 'a metric is missing where a mean statistic it is '
           'computed from is missing', 15)
  for c in metrics.statistic_classes(prog):
    with ctx.guard('statistic', c.qual):
      statistic(ctx, c)
  for root, method in (
      ('weatherbenchX.metrics.wrappers.InputTransform', 'transform_fn'),
      ('weatherbenchX.interpolations.Interpolation', 'interpolate_data_array'),
  ):
    base = prog.cls(root)
    for c in prog.repo_classes():
      if prog.isa(c.qual, base.qual) and not metrics.abstract(prog, c.qual):
        with ctx.guard('transform', c.qual):
          transform(ctx, c, method)
  for c in metrics.metric_classes(prog):
    with ctx.guard('metric', c.qual):
      metric(ctx, c)
  generic.formulas(ctx)


def decide(ctx, rule, construct, x, value, what, loc, tree=False):
  m = missing.Missing(x, tree)
  v = m.value(value)
  if v == 'bad':
    why = '; '.join(sorted({f'{w}: {tm.show(t)[:160]}'
                            for t, w in m.why.items()}))
    ctx.bad(rule, construct, f'{what} is an ordinary value where its input is '
            f'missing ({why[:700]})', loc)
  elif v == 'unk':
    ctx.undecided(rule, construct, f'{what}: uses a function whose treatment '
                  'of missing values is not known')
  else:
    ctx.ok(rule, construct, {'clean': 'does not use it'}.get(v, 'missing'),
           loc)


def loc_of(c):
  return f'{c.module.path}:{c.node.lineno}'


def statistic(ctx, c):
  prog = ctx.prog
  it = ctx.interp()
  st = it.new_state(c.module)
  obj = it.instantiate_symbolic(c.qual, st, no_skip(prog, c.qual))
  st.pc = ()
  sides = {s: metrics.data(it, prog, s, ['v'])
           for s in ('forecast', 'observation')}
  v = it.reify(metrics.call_method(it, st, obj, 'compute',
                                   list(sides.values()), c.node), st)
  for s, d in sides.items():
    decide(ctx, 'statistic', f'{c.qual} {s}', d.args[0].args[1], v,
           f'{c.qual.rsplit(".", 1)[-1]}', loc_of(c))


def transform(ctx, c, method):
  it = ctx.interp()
  r = it.analyse_method(c.qual, method, no_skip(ctx.prog, c.qual))
  f, _ = ctx.prog.lookup(c.qual, method)
  x = tm.mk('in', f.node.args.args[1].arg)
  if not tm.contains(r.value, x):
    return
  decide(ctx, 'transform', f'{c.qual} {method}', x, r.value,
         f'{c.qual.rsplit(".", 1)[-1]}.{method}', loc_of(c))


def metric(ctx, c):
  init, _ = ctx.prog.lookup(c.qual, 'values_from_mean_statistics')
  if not isinstance(init, Func) or ctx.prog.isa(c.qual, STAT):
    return  # a statistic is its own mean
  try:
    m = metrics.analyse(ctx, c.qual, no_skip(ctx.prog, c.qual))
  except metrics.Unenumerable:
    return
  means = sorted({t for t in tm.walk(m.values) if t.op == 'call' and
                  t.args[0].op == 'func' and t.args[0].args[0] == metrics.MEAN},
                 key=tm.key)
  sub = {t: tm.mk('in', f'mean{i}') for i, t in enumerate(means)}
  value = tm.subst(m.values, sub)
  names = {}
  for k, _, cells in m.stats:
    for t in tm.walk(metrics.map_values(cells, metrics.mean_of)):
      names.setdefault(t, k.args[1] if tm.is_str(k) else tm.show(k))
  for t, x in sub.items():
    decide(ctx, 'metric', f'{c.qual} {names.get(t, "?")}', x, value,
           c.qual.rsplit('.', 1)[-1], loc_of(c))
