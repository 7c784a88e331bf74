"""C27: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'Every interpolation is compared with a definition whose target '
    "coordinates are the reference's (or the configured) coordinates, "
    'including wrapping, clipping, extrapolation, empty references and '
    'altitude correction. ')


def check(ctx):
  generic.formulas(ctx)
