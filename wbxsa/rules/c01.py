"""C01: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'AggregationState addition, sum over states, and the aggregation of a '
    'chunk are compared with a definition in which every state is a pair '
    'of sums, so that adding states in any order and grouping is the same '
    'as summing the parts; Aggregator results depend on a chunk only '
    'through those sums. ')


def check(ctx):
  generic.formulas(ctx)
