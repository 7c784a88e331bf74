"""C14: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The mask of every binning is compared with the condition its label '
    'describes: bounds, their closedness, wrap-around, complements, '
    'global bins, units of time, and labels of coordinates. ')


def check(ctx):
  generic.formulas(ctx)
