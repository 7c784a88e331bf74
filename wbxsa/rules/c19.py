"""C19: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'to_dataset and from_dataset are composed: reading what was written '
    'gives the state that was written, for every statistic, variable and '
    'separator; both directions are also compared with a definition of '
    'the layout. ')


def check(ctx):
  generic.formulas(ctx)
