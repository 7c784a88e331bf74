"""C15: see EXPLANATION."""

from . import generic

EXPLANATION = generic.COMMON + (
    'Every categorical score, expressed over means of its per-cell '
    'statistics, equals its textbook definition over the contingency '
    'table as a rational function, for all inputs and options. ')


def check(ctx):
  generic.formulas(ctx)
