"""C06: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The statistics a metric declares and those it reads are compared by '
    'key, and the metric expressed over the means of its declared '
    'statistics is compared with its definition; the generic drivers that '
    'compute statistics once and hand them to metrics are compared with '
    'theirs. ')


def check(ctx):
  generic.formulas(ctx)
