"""C04: with metadata checksums enabled, metadata is used only after its
checksum has been verified."""
from .. import analysis as an

ROOTS = ["api_load", "unit:inode::Inode::read", "unit:DirBlock::<'_>::read", "class:Extents", "class:ReadDir",
         "unit:get_dir_entry_via_htree", "unit:get_dir_entry_inode_by_name", "unit:Ext4::read_inode_file"]
# The checksum seed is stored, or made of the UUID.
SEEDS = [(["api_load"], "C04,C04s"), (["api_load"], "C04,C04s,C04s1")]


def run(ctx):
    v, res = an.decide(ctx, "C04", ROOTS,
                       "where a superblock, group descriptor, inode, extent node or directory block is accepted, the facts of the path must imply that "
                       "the checksum of exactly its checksummed bytes, from the right seed, equals the one stored",
                       need=("superblock", "group descriptor", "read: inode", "read: base", "extent node", "directory block (leaf)",
                             "directory block (root)", "directory block (index)", "base handed on", "stored seed", "seed of the uuid"), more=SEEDS)
    return v
