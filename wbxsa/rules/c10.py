"""C10: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The constructed Beam graphs are reduced to stages (type, function, '
    'keys) and compared with the in-memory evaluation: same loading, '
    'statistics, aggregation, combination and metrics, same keys and '
    'chunk layout, same files. ')


def check(ctx):
  generic.formulas(ctx)
