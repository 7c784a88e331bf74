"""C20: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'In every baseline comparison the value graph is followed from the '
    'two sides: each statistic of the difference is main minus baseline '
    'of the same quantity, paired unit by unit. ')


def check(ctx):
  generic.formulas(ctx)
