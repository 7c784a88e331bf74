"""C13: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The selection each loader and each climatology-based statistic makes '
    'is compared with selection at init + lead time in the coordinates of '
    'the source (time, or day of year and hour), including years, leap '
    'days and clamped indices. ')


def check(ctx):
  generic.formulas(ctx)
