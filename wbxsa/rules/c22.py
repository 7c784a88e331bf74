"""C22: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The weights are compared with differences of the sine of the cell '
    'bounds, with bounds half way between points and clipped at the '
    'poles, for increasing and decreasing, global and regional latitudes. ')


def check(ctx):
  generic.formulas(ctx)
