"""C32: the programs evaluate the experiment they are asked for."""

from . import generic

EXPLANATION = (
    'The main functions of the programs are reduced to what they hand to the '
    'pipeline or write (and under which condition they refuse), as a value '
    'graph over the flag values, and compared for all flag values with a '
    'definition; likewise the parts of the result combiner.')


def check(ctx):
  generic.formulas(ctx)
