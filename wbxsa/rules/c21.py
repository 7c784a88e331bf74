"""C21: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'Test statistics, critical values, p-values, intervals, degrees of '
    'freedom, autocorrelation corrections, bootstrap resampling and its '
    'block length are compared with their definitions as value graphs; '
    'symmetric conventions (two-sided tails, ties, normalisation of sums '
    'and weights by the same replicate) are part of the definitions. ')


def check(ctx):
  generic.formulas(ctx)
