"""C07: a failed read or seek leaves the file where it was. At every failing
exit the file's position (and for seeks the file object) equals its value at entry."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C07", ["pr_read", "pr_seek"],
                       "at every exit with an error of a read the position, and of a seek the position and the file object, are those at entry",
                       need=())
    return v
