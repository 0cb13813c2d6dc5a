"""C06: a device error is always reported, as the reader's own I/O error. A
ghost flag records that a device read (or a unit that reports one) failed;
whenever an operation returns, its result must be the I/O error carrying the
reader's error exactly if the flag is set."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C06", ["api_", "op_", "alt_open_str", "alt_read_str"] + an.UNITS + an.CLASSES,
                       "at every return of an operation: I/O error with the reader's own error <=> a device read failed")
    return v
