"""C12: see EXPLANATION."""
from . import generic

EXPLANATION = generic.COMMON + (
    'Issue-time arithmetic of the latency wrappers (which nominal init '
    'time is the latest available, which lead time remains, which loader '
    'serves it, and what the chunk is labelled with) is compared with its '
    'definition for all latencies and times. ')


def check(ctx):
  generic.formulas(ctx)
