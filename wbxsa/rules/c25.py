"""C25: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'Which files are read, which rows are kept, what preprocessing does '
    'to them (METAR quality flags, longitudes and fill elevations '
    'included), how duplicates are resolved, how rows are labelled and '
    'what is dropped are compared with a definition over the data frames, '
    'assignments into frames included. ')


def check(ctx):
  generic.formulas(ctx)
