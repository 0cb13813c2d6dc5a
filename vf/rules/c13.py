"""C13: every name and path made is well formed (no null byte, no slash in a
name, no component or name longer than 255 bytes, no empty name)."""
from .. import analysis as an

ROOTS = ["val_name", "val_component", "val_path", "val_pathbuf", "doc_path", "op_components_next", "op_direntry_path",
         "api_read_link", "api_canonicalize", "alt_", "unit:DirEntry::from_bytes", "unit:Inode::symlink_target", "unit:resolve::resolve_path"]


def run(ctx):
    v, res = an.decide(ctx, "C13", ROOTS,
                       "wherever a name or path is made or handed out, the facts of its path must imply that the bytes are those of a well-formed one",
                       need=("DirEntryName: empty", "DirEntryName: length", "DirEntryName: slash", "DirEntryName: null byte",
                             "Path: null", "Path: components", "PathBuf: null", "PathBuf: components", "name of an entry: slash"))
    return v
