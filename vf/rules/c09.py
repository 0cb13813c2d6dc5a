"""C09: what loading accepts. At every successful exit of loading the facts of
the path imply the conditions on the superblock's fields."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C09", ["api_load", "api_load_from_path"],
                       "every path on which loading succeeds has established the magic, the block size, every required feature and the absence of every unsupported one; every path refusing one reports corruption or incompatibility",
                       need=("magic", "feature"))
    return v
