"""C16: positions, counts and ends of reads and seeks, at every successful exit."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C16", ["pr_read", "pr_seek", "unit:File::read_bytes"],
                       "at every successful exit: count at most the buffer and the rest of the file, position advanced by the count, zero only at the end; seeks give exactly the requested position",
                       need=("position",))
    return v
