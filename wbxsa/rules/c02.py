"""C02: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The aggregation of a statistic is compared, for every combination of '
    'mask, skipna, weighting and binning, with a definition that applies '
    'one and the same selection of cells to the weighted sum and to the '
    'sum of weights. ')


def check(ctx):
  generic.formulas(ctx)
