"""C12: entries of an encrypted directory are not reachable: every success of a
lookup or listing has established that the flag is clear."""
from .. import analysis as an


def run(ctx):
    v, res = an.decide(ctx, "C12", ["unit:dir::get_dir_entry_inode_by_name", "unit:ReadDir::new", "api_read_dir"],
                       "every successful exit of a lookup or listing implies that the directory is not encrypted",
                       need=())
    return v
