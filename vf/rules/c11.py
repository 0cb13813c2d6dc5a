"""C11: bounded following of symbolic links, in the documented mode. Counts the
links followed and the working path's length along every path of the resolver."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C11", ["api_", "alt_", "unit:resolve::resolve_path"],
                       "at most 40 links followed, the working path at most 4096 bytes at every lookup, each operation resolves in its documented mode",
                       need=("link",))
    return v
