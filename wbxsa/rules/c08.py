"""C08: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'TimeChunks is compared with a definition of chunk boundaries and '
    'offsets as slices of the given times; iteration, length, indexing '
    'and offsets are derived from the same definition, so that they agree '
    'for every chunk size and every length. ')


def check(ctx):
  generic.formulas(ctx)
