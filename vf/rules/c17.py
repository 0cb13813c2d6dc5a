"""C17: block number zero is never read as file data."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C17", ["pr_read", "unit:File::read_bytes"],
                       "every block read for file data is for a block number other than zero",
                       need=())
    return v
