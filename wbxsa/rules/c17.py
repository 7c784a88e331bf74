"""C17: see EXPLANATION."""

from . import generic

EXPLANATION = generic.COMMON + (
    'Every probabilistic and ensemble score, expressed over means of its '
    'per-cell statistics, equals its definition for all inputs and '
    'options, including fair and unbiased corrections, missing members '
    'and the equivalent sort-based forms. ')


def check(ctx):
  generic.formulas(ctx)
