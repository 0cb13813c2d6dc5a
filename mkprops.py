#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "No filesystem image or argument makes the public API panic",
 "For every device content, every reader behaviour and every argument, no public operation panics: no out-of-range index or slice, no unwrap of a missing value, no integer overflow, no division by zero, no conflicting borrow and no failed assertion. The only exceptions are the constructors and methods whose documentation has a \"Panics\" section, and those only for the documented arguments.",
 ["inputs", "histories", "fault_sequences"], "all images, readers (including failing ones), arguments and sequences of calls on one object",
 "Tests run a handful of well-formed images and a few hand-made corrupt structures; the values that make an index or an addition go wrong are chosen by whoever writes the image.",
 ["src/lib.rs", "src/superblock.rs", "src/block_group.rs", "src/inode.rs", "src/iters/extents.rs", "src/dir_htree.rs", "src/dir_block.rs", "src/journal/block_map.rs", "src/file.rs", "src/path.rs", "src/resolve.rs", "src/util.rs"],
 [("checked arithmetic and slice accesses that return an error", "src/util.rs read_*; src/lib.rs read_from_block; src/iters/extents.rs; src/dir_entry.rs from_bytes"),
  ("validation of on-disk sizes before they are used as offsets", "src/superblock.rs from_bytes; src/block_size.rs; src/dir_htree.rs")])

prop("C02", "Every operation terminates after bounded work",
 "Every public operation terminates for every device content: each loop either consumes a finite input, advances a counter towards a bound, or leaves. In particular a cyclic extent tree, a directory record of length zero, a symbolic-link cycle and a self-referencing directory cannot make an operation run forever.",
 ["inputs"], "all images and arguments",
 "A test that hangs for one image says nothing about the others; the images that loop are the malformed ones nobody generated.",
 ["src/iters/extents.rs", "src/iters/file_blocks/block_map.rs", "src/iters/read_dir.rs", "src/dir_htree.rs", "src/resolve.rs", "src/journal/block_map.rs", "src/file.rs"],
 [("extent depth strictly decreases", "src/iters/extents.rs"), ("record lengths are at least the header size", "src/dir_entry.rs from_bytes"),
  ("symlink and iteration limits", "src/resolve.rs"), ("htree depth limit", "src/dir_htree.rs")])

prop("C03", "Device reads stay inside the filesystem",
 "Every read of the underlying device that an operation issues after the filesystem is loaded lies inside the filesystem (below block count times block size) and is a whole number of blocks starting at a block boundary. A request for part of a block is refused with a corruption error, before the device is touched, when it would touch the reserved first 1024 bytes, start at or after the last block, or cross a block boundary.",
 ["inputs", "histories"], "all images (so all block numbers found in extents, block maps, group descriptors and the journal) and operation sequences",
 "Tests use block numbers that exist; which block numbers appear in corrupt metadata is unbounded.",
 ["src/lib.rs", "src/block_cache.rs"],
 [("range checks before the device read", "src/lib.rs read_from_block"), ("read-ahead clamped to the end of the filesystem", "src/block_cache.rs num_blocks_to_read")],
 observe=["Ext4Read::read calls"])

prop("C04", "Metadata is used only after its checksum has been verified",
 "On a filesystem with metadata checksums, no operation succeeds in using the contents of the superblock, a block group descriptor, an inode, an extent-tree block, a directory block or a directory index block whose stored checksum differs from the checksum computed over that structure (seeded as the format requires); the operation returns a corruption error instead.",
 ["inputs"], "all images with the metadata checksum feature and all operations",
 "Tests flip a byte in a few structures; a code path that forgets the comparison, or compares a checksum computed from the wrong seed or range, passes every test on valid images.",
 ["src/superblock.rs", "src/block_group.rs", "src/inode.rs", "src/iters/extents.rs", "src/dir_block.rs", "src/iters/read_dir.rs", "src/dir_htree.rs", "src/checksum.rs"],
 [("superblock checksum", "src/superblock.rs from_bytes"), ("group descriptor checksum", "src/block_group.rs"), ("inode checksum", "src/inode.rs from_bytes"),
  ("extent block checksum", "src/iters/extents.rs"), ("directory block checksum", "src/dir_block.rs read")])

prop("C05", "Journal replay applies exactly the committed, unrevoked blocks",
 "When the filesystem needs journal recovery, the content of a block is taken from the journal only if it was recorded by a descriptor block whose own checksum, data checksum and transaction's commit block (with its checksum and the expected sequence number) were all verified; blocks of a transaction without such a commit block are never used. When several committed transactions contain the block the last one wins, and a block revoked by a later or the same transaction is not replaced. When recovery is not needed the journal has no effect.",
 ["inputs", "crash_points"], "all journal contents, in particular every point at which a writer may have stopped",
 "The tests replay one recorded journal; the crash points are the transactions and blocks at which it could have ended.",
 ["src/journal/block_map.rs", "src/journal/descriptor_block.rs", "src/journal/revocation_block.rs", "src/journal/commit_block.rs", "src/journal/superblock.rs", "src/journal.rs"],
 [("uncommitted map merged at the commit block only", "src/journal/block_map.rs"), ("checksums", "src/journal/descriptor_block.rs, commit_block.rs, revocation_block.rs"), ("sequence numbers", "src/journal/block_map.rs")])

prop("C06", "A device error is always reported, as an I/O error",
 "If a device read issued by an operation fails, that operation fails, and its error is the I/O variant carrying the reader's own error: it is never swallowed, never turned into success, end of data, \"not found\" or a corruption or other error. An I/O error is returned only when a device read or opening the host file failed.",
 ["inputs", "fault_sequences"], "every device read of every operation as the one that fails",
 "Fault sequences: one failing read among all the reads of all operations on all images; tests inject almost none.",
 ["src/lib.rs", "src/file.rs", "src/iters.rs", "src/iters/read_dir.rs", "src/dir_htree.rs", "src/resolve.rs", "src/journal/block_map.rs", "src/block_cache.rs", "src/reader.rs"],
 [("errors propagated with ?", "every caller of read_from_block"), ("only NotFound is converted", "src/lib.rs exists")])

prop("C07", "A failed operation changes nothing",
 "An operation that returns an error leaves the object it was called on as it was: a failed seek or read does not move a file's position, and a failed block read does not leave wrong data behind for later reads. Repeating a successful operation gives the same result.",
 ["histories", "fault_sequences"], "all sequences of operations with failures in between",
 "Histories in which an error occurs in the middle and the object is used again are not sampled by the tests.",
 ["src/file.rs", "src/block_cache.rs", "src/lib.rs"],
 [("the block is inserted only after the read succeeded", "src/block_cache.rs get_or_insert_blocks"), ("position assigned last", "src/file.rs seek_to, read_bytes")])

prop("C08", "The library only reads: no side effects, no unsafe code, no hidden state",
 "No operation writes to the reader, to a host file or stream, spawns work, or reads hidden inputs such as time or the environment; a host path is opened, read-only, only by the load-from-path constructor. The library keeps no global mutable state, contains no unsafe code and, without its std feature, uses nothing of the standard library beyond core and alloc.",
 ["programs", "inputs", "configurations"], "all programs using the public API, in both feature configurations",
 "A test observes the effects it looks for on the paths it runs; absence of an effect on every path is not observable by sampling.",
 ["src/lib.rs", "src/reader.rs", "Cargo.toml"],
 [("reader trait offers only reads", "src/reader.rs Ext4Read"), ("forbid(unsafe_code), no_std", "src/lib.rs"), ("File::open", "src/lib.rs load_from_path")])

prop("C09", "Loading accepts exactly the supported feature sets",
 "Loading succeeds only if the superblock magic matches, every incompatible feature flag is one the library supports, all incompatible features it requires are present and the block size is valid; otherwise it reports corruption or incompatibility. No other operation is possible on a filesystem that was refused.",
 ["configurations", "inputs"], "all combinations of feature flags and superblock parameters",
 "The feature words have 2^32 values each; tests use the few that mkfs produced.",
 ["src/superblock.rs", "src/features.rs", "src/block_size.rs", "src/journal/superblock.rs"],
 [("check_incompat_features", "src/superblock.rs"), ("block size", "src/block_size.rs from_superblock_value"), ("journal features", "src/journal/superblock.rs")])

prop("C10", "Each operation accepts only the file types it documents",
 "Opening or reading as a file succeeds only for regular files (a directory gives the is-a-directory error, other types the special-file error), listing succeeds only for directories (otherwise the not-a-directory error), reading a link succeeds only for symbolic links (otherwise the not-a-symlink error), and a relative path is refused with the not-absolute error by every path operation. A path argument that cannot be a path gives the malformed-path error, and an existence query turns the not-found error, and only that one, into a negative answer.",
 ["inputs"], "all inodes (so all type bits) and all path arguments",
 "Tests cover a few type/operation pairs out of the full product and only paths that exist in one image.",
 ["src/lib.rs", "src/file.rs", "src/inode.rs", "src/resolve.rs", "src/file_type.rs"],
 [("type checks before access", "src/lib.rs read, read_dir; src/file.rs open; src/inode.rs symlink_target"), ("absolute check", "src/resolve.rs")])

prop("C11", "Symlink following is bounded and follows the documented mode",
 "Resolving a path follows at most 40 symbolic links, never lets the working path exceed 4096 bytes, and fails with the too-many-symlinks or path-too-long error beyond that. Opening, reading, listing, canonicalizing, existence and metadata queries follow a final symbolic link; reading a link and symlink-metadata do not follow it, and every non-final one is followed.",
 ["inputs"], "all directory trees with symbolic links, all paths",
 "Chains of links of every length and mixture cannot be enumerated; tests have a few links.",
 ["src/resolve.rs", "src/lib.rs", "src/file.rs"],
 [("limits", "src/resolve.rs MAX_SYMLINKS, MAX_PATH_LEN"), ("follow mode argument", "src/lib.rs, src/file.rs")])

prop("C12", "Encrypted directories never expose their entries",
 "For a directory whose inode has the encryption flag, no operation returns one of its entries or resolves a path through it: listing it or looking a name up in it fails with the encrypted error.",
 ["inputs"], "all images with encrypted inodes and all operations",
 "Tests contain one encrypted directory and a few operations on it.",
 ["src/iters/read_dir.rs", "src/dir.rs", "src/resolve.rs", "src/dir_htree.rs"],
 [("check in the lookup and in the iterator constructor", "src/dir.rs get_dir_entry_inode_by_name; src/iters/read_dir.rs new")])

prop("C13", "Names and paths handed to the caller are always well formed",
 "Every directory entry name, however it was made, is 1 to 255 bytes long and contains neither a slash nor a null byte, and every path contains no null byte and no component longer than 255 bytes, so a caller that joins an entry's name onto the directory's path gets exactly one more component.",
 ["inputs"], "all directory block contents and all constructor arguments",
 "Names come from unvalidated disk bytes; tests check a few bad names.",
 ["src/dir_entry.rs", "src/path.rs"],
 [("validation in the only constructors", "src/dir_entry.rs DirEntryName::try_from; src/path.rs Path::try_from, PathBuf::try_from")])

prop("C14", "Iterators stay finished after an error or the end",
 "Once a directory iterator has returned an error or the end of iteration it returns only the end of iteration from then on, and it yields only entries in use (a record with inode number zero is skipped).",
 ["histories", "inputs"], "all directories and all numbers of further calls",
 "Tests stop at the first end or error and never call again after an arbitrary failure.",
 ["src/iters.rs", "src/iters/read_dir.rs", "src/iters/extents.rs"],
 [("is_done flag", "src/iters.rs impl_result_iter")])

prop("C15", "On-disk fields are decoded at the documented offset, width and order",
 "The label, the UUID, and every inode attribute (type and permissions, uid, gid, size) that the API reports equals the little-endian combination of the bytes that the ext4 format assigns to it, in particular the low and high halves of split fields, for every content of the structure.",
 ["inputs"], "all values of every field",
 "The high halves of split fields are zero in every test image.",
 ["src/superblock.rs", "src/inode.rs", "src/block_group.rs", "src/metadata.rs", "src/util.rs"],
 [("field readers", "src/util.rs read_u16le/read_u32le"), ("joins of halves", "src/inode.rs from_bytes")])

prop("C16", "Reading a file advances by what was read and stops at the end",
 "A successful read returns at most the buffer length, advances the position by exactly the returned count, never reads past the file's size, and returns zero only if the buffer is empty or the position is at or past the end. A successful seek sets the position to exactly the requested offset, also beyond the end, and the standard-library seek variants agree with it and refuse negative positions.",
 ["histories", "inputs"], "all sequences of reads and seeks with all buffer lengths, positions and file sizes",
 "Position, size and buffer length range over all 64-bit values and all histories; tests use one file.",
 ["src/file.rs"],
 [("clamp to file and block end", "src/file.rs read_bytes"), ("position update", "src/file.rs read_bytes, seek_to")])

prop("C17", "Holes and unwritten extents read as zeros",
 "A part of a file that has no block assigned, or only an unwritten one, reads as zeros, without any device read for it, and the reserved block number zero is never read as file data.",
 ["inputs"], "all extent trees and block maps",
 "Sparse layouts are unbounded; test files have one simple hole.",
 ["src/iters/file_blocks", "src/iters/extents.rs", "src/file.rs"],
 [("block zero marks a hole", "src/iters/file_blocks; src/file.rs read_bytes")])

prop("C18", "The block cache is transparent",
 "The bytes returned for a block are always the bytes the device holds for that block: neither the order of earlier reads, read-ahead, eviction, nor an earlier failed read can make an operation see another block's data or data that was never read.",
 ["histories", "fault_sequences", "inputs"], "all sequences of block reads, with failures",
 "Tests exercise one short sequence against a tiny cache.",
 ["src/block_cache.rs", "src/lib.rs"],
 [("index stored with each entry and compared on lookup", "src/block_cache.rs")])

prop("C19", "Every block goes through the journal and the range checks",
 "After loading, every device read made by any operation is made for a block number that went through the journal's block mapping exactly once, so that no operation sees the stale copy of a block that the journal replaces.",
 ["inputs", "programs"], "all operations and images",
 "A single new direct read is invisible in every image without a pending journal.",
 ["src/lib.rs", "src/journal.rs", "src/journal/block_map.rs"],
 [("single place that calls the reader", "src/lib.rs read_from_block")])

prop("C20", "Conversion to the standard I/O error keeps the error kind",
 "Converting a library error to the standard I/O error maps each variant to the documented kind (not found, is a directory, not a directory and file too large to the kinds of those names; encrypted to permission denied, not UTF-8 to invalid data; special file, malformed, not-a-symlink and not-absolute to invalid input; the rest to other), keeps the reader's own error as the source for I/O errors, and loses none.",
 ["inputs"], "all error values",
 "Tests check some of the variants only.",
 ["src/error.rs"],
 [("From<Ext4Error> for std::io::Error", "src/error.rs")])

prop("C21", "A file reads back exactly the bytes stored in it",
 "The concatenation of the bytes returned by reading a file of a valid filesystem equals the bytes that were written to it.",
 ["inputs"], "all valid filesystems",
 "Needs an oracle for the whole on-disk format.",
 ["src/file.rs", "src/iters/extents.rs", "src/lib.rs"],
 [("whole read path", "src/lib.rs read_inode_file")])

prop("C22", "Looking a name up agrees with listing the directory",
 "A path resolves to an inode exactly if listing the parent directory yields an entry of that name with that inode, whether or not the directory has a hash index.",
 ["inputs"], "all valid directories",
 "Quantifies over all directories, names and hash seeds.",
 ["src/dir.rs", "src/dir_htree.rs", "src/dir_entry_hash.rs", "src/iters/read_dir.rs"],
 [("linear search and htree search", "src/dir.rs, src/dir_htree.rs")])

prop("C23", "Name hashes and checksums equal those of the Linux kernel",
 "For every name and seed the directory hash equals the kernel's, and the metadata checksum equals CRC-32C of the same bytes.",
 ["inputs"], "all names, seeds and byte strings",
 "Numerical function equality over unbounded inputs.",
 ["src/dir_entry_hash.rs", "src/checksum.rs"],
 [("hash functions", "src/dir_entry_hash.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
