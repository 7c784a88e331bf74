"""C11: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'The path of a chunk through each loader (selection, renaming, '
    'processing, masking, interpolation, computing) is a value graph over '
    'the source and the options, compared with a definition that fixes '
    'which step happens, in which order, and once. ')


def check(ctx):
  generic.formulas(ctx)
