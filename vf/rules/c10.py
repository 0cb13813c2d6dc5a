"""C10: the operation's outcome by the type of the inode: at every exit of every
path operation the facts about the inode's type are those the result needs."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C10", ["api_", "alt_", "unit:resolve::resolve_path"],
                       "every exit of a path operation agrees with the type of the inode it worked on",
                       need=())
    return v
