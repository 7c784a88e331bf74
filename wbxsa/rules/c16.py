"""C16: see EXPLANATION."""

from . import generic

EXPLANATION = generic.COMMON + (
    'Every deterministic and spatial score, expressed over means of its '
    'per-cell statistics, equals its definition for all inputs and '
    'options (exact rational-function comparison; loops over windows and '
    'neighbourhoods in normal form). ')


def check(ctx):
  generic.formulas(ctx)
