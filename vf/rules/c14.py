"""C14: what a directory iterator gives after an error or the end, and what it gives at all."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C14", ["pr_readdir_done", "unit:DirEntry::from_bytes"],
                       "after next() gave an error or the end the following two calls give the end, on every path and for every state of the iterator; every entry made from a record has the record's non-zero inode number",
                       need=("finished", "entry in use"))
    return v
