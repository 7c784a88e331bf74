"""C26: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'Every wrapper and input transform is compared with a definition that '
    'states the side(s) it applies to, what it leaves alone, and how '
    'nested wrappers compose. ')


def check(ctx):
  generic.formulas(ctx)
