"""C04: every averaged statistic is a real-valued field.

kind       the cells of every statistic are floating point for floating point
           inputs, on every path and for every option.
"""

from . import generic
from .. import dtypes
from .. import metrics
from .. import terms as tm

EXPLANATION = (
    'Type inference over value graphs: the cells compute() of every Statistic '
    'class returns are classified as floating point, integer or logical '
    '(wbxsa/dtypes.py: comparisons are logical, products and sums promote, '
    'sums count, means are floating point, casts are what they say), for '
    'floating point inputs and on every branch over the options; a branch '
    'that is logical or integer is a violation. The same for the transforms '
    'that feed them. In addition the definitions tagged with this property, '
    'with their casts, have to be computed exactly.')

ASSUMPTIONS = (
    'Forecasts and observations are floating point.',
    'Statistics and functions supplied by the caller return floating point.',
    'The type tables in wbxsa/dtypes.py are right for the installed versions '
    'of numpy and xarray.',
)


def check(ctx):
  prog = ctx.prog
  ctx.rule('kind', 'the cells of a statistic are floating point, never '
           'logical or integer', 12)
  for c in metrics.statistic_classes(prog):
    with ctx.guard('kind', c.qual):
      it = ctx.interp()
      st = it.new_state(c.module)
      obj = it.instantiate_symbolic(c.qual, st)
      st.pc = ()
      sides = [metrics.data(it, prog, s, ['v'])
               for s in ('forecast', 'observation')]
      v = it.reify(metrics.call_method(it, st, obj, 'compute', sides, c.node),
                   st)
      decide(ctx, c, 'cells', [d.args[0].args[1] for d in sides], v)
  base = prog.cls('weatherbenchX.metrics.wrappers.InputTransform')
  for c in prog.repo_classes():
    if prog.isa(c.qual, base.qual) and not metrics.abstract(prog, c.qual):
      with ctx.guard('kind', c.qual):
        r = ctx.interp().analyse_method(c.qual, 'transform_fn')
        f, _ = prog.lookup(c.qual, 'transform_fn')
        decide(ctx, c, 'transformed', [tm.mk('in', f.node.args.args[1].arg)],
               r.value)
  generic.formulas(ctx)


def decide(ctx, c, what, inputs, value):
  d = dtypes.Dtypes(inputs)
  got = d.value(value)
  loc = f'{c.module.path}:{c.node.lineno}'
  kinds = sorted(got & {'bool', 'int'})
  if kinds:
    worst = d.why.get(kinds[0], [value])
    ctx.bad('kind', f'{c.qual} {what}', f'{c.qual.rsplit(".", 1)[-1]} can '
            f'return {" or ".join({"bool": "logical", "int": "integer"}[k] for k in kinds)}'
            f' cells: {tm.show(worst[-1])[:300]}', loc)
  elif 'unk' in got:
    ctx.undecided('kind', f'{c.qual} {what}', 'the type of some branch is not '
                  'known')
  else:
    ctx.ok('kind', f'{c.qual} {what}', 'float', loc)
