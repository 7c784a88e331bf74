"""Checks driven by the reference definitions tagged with a property."""

from .. import spec

COMMON = (
    'The functions named in the obligations are turned into value graphs '
    '(what is returned, under which condition it raises, which effects it '
    'has; helpers inlined, loops as comprehensions or folds, containers, '
    'xarray and numpy calls in normal form) for symbolic inputs and '
    'options, and compared with reference definitions in /verif/spec, '
    'branch by branch, until the two graphs are identical or differ in a '
    'stated construct. ')


def floor(n):
  """At least a third of the written definitions have to be decided."""
  return (n + 2) // 3


def formulas(ctx):
  metrics = [s for s in spec.load_metric_specs(ctx.prog) if ctx.prop in s.props]
  fns = [s for s in spec.load(ctx.prog) if ctx.prop in s.props]
  laws = [s for s in spec.load_laws(ctx.prog) if ctx.prop in s.props]
  if metrics:
    ctx.rule('formula', 'the metric, expressed over means of its per-cell '
             'statistics, equals its definition for all inputs and options',
             floor(len(metrics)))
    for s in metrics:
      spec.run_metric_spec(ctx, s, 'formula')
  if fns:
    ctx.rule('definition', 'the function computes its reference definition '
             'for all inputs and options', floor(len(fns)))
    for s in fns:
      spec.run_spec(ctx, s, 'definition')
  if laws:
    ctx.rule('law', 'the two sides of the law agree for all inputs and '
             'options', floor(len(laws)))
    for s in laws:
      spec.run_law(ctx, s, 'law')
