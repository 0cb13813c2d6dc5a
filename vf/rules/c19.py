"""C19: block numbers go through the journal's map exactly once per read.
Lookups in the map are counted from the start of each operation; the block
read is shown to look up the block it was asked for once and to deliver the
mapped block's bytes; no caller maps a number before passing it on, and no
other function reads the device after loading."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C19", ["api_", "op_"] + an.UNITS + an.CLASSES,
                       "every device read after loading is at the block returned by exactly one lookup of the requested block in the journal's map",
                       need=("content", "mapped once", "block looked up"))
    return v
