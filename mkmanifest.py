#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CLAIMS = {
 "C01": ("abstract interpretation (relational numeric domain, joins and fixpoints) over the compiler's MIR, entry point by entry point with assume-guarantee summaries",
         "Each panic site reachable from a public operation is an obligation discharged by linear entailment. Sites the domain "
         "cannot decide (listed in the evidence and in DESIGN.md) are reported as undecided. Documented panics exempt. Trusts "
         "the models of library functions; memory exhaustion by the allocator is out of scope."),
 "C03": ("abstract interpretation of the MIR with a device model; every device read is an obligation on its start and length",
         "Start and length of every read after loading are compared, by linear entailment over the fields of the superblock, with "
         "the block size and block count. The refusals of partial-block requests are checked at every exit of the block read."),
 "C04": ("abstract interpretation of the MIR (relational numeric domain), checksum computations kept as terms over the bytes of the image",
         "At every acceptance of a superblock, group descriptor, inode, extent node or directory block, the facts of the path must imply that the "
         "stored checksum equals one computed of exactly the checksummed bytes from the right seed. Trusts the CRC crate. A checksum accumulated in a "
         "loop is undecided; that the base handed on is the same inode's is not decided."),
 "C06": ("abstract interpretation of the MIR with a ghost flag for a failed device read (typestate), unit by unit",
         "At every return of every operation and internal unit: I/O error with the reader's own error exactly if a read failed. "
         "Errors after the failing operation returned (retries) are C07's business."),
 "C18": ("abstract interpretation of the MIR; the cache's contents generalised to an inductive invariant over any history of block reads",
         "Byte equality of the delivered bytes with the device, for an arbitrary byte of the destination, at every successful exit."),
 "C19": ("abstract interpretation of the MIR with a ghost count of lookups in the journal's map",
         "Every device read after loading is at the result of exactly one lookup of the requested block."),
 "C07": ("abstract interpretation of the MIR (relational numeric domain), typestate on the file object",
         "Position (and for seeks the whole file object) compared symbolically between entry and every failing exit. Cached data after failed reads is C18's."),
 "C09": ("abstract interpretation of the MIR (relational numeric domain), path facts at the exits of loading",
         "Every successful exit of loading must imply each documented condition on the superblock, bit by bit; the refusing exits must carry a corruption or incompatibility error."),
 "C10": ("abstract interpretation of the MIR (relational numeric domain), typestate on the inode's type",
         "The inode's type at every exit of every path operation, for all path argument types; errors made by called units are those units' (undecided here)."),
 "C11": ("abstract interpretation of the MIR (relational numeric domain), ghost counters of links followed and of the working path's growth",
         "Bounds on the counters at every following and every lookup in the resolver; the documented mode at every call of it."),
 "C12": ("abstract interpretation of the MIR (relational numeric domain), path facts at the exits of lookup and listing",
         "Every success implies the encryption flag is clear; the encrypted error implies it is set."),
 "C13": ("abstract interpretation of the MIR (relational numeric domain), facts about the bytes of buffers established by searches and splits",
         "Wherever a name or path is constructed, changed or handed out, the facts of its path imply that its bytes are well formed; searches "
         "not modelled leave the obligation undecided. Names and paths given by the caller are taken to be well formed (they were made here)."),
 "C14": ("abstract interpretation of the MIR (relational numeric domain), two further calls after an error or the end, for an arbitrary iterator state",
         "The outcome of the calls after an error or the end, and the inode number of every entry made."),
 "C15": ("abstract interpretation of the MIR (relational numeric domain), symbolic value equality",
         "The reported attribute and the documented little-endian combination of the structure's bytes are compared as terms."),
 "C16": ("abstract interpretation of the MIR (relational numeric domain), symbolic value equality on the file position",
         "Count, position and end conditions at every successful exit of read and seek."),
 "C17": ("abstract interpretation of the MIR (relational numeric domain), obligation at each block read of file data",
         "Block number zero is excluded at each block read for file data. That the hole's bytes are zeros is not decided for all paths."),
 "C20": ("abstract interpretation of the MIR (relational numeric domain), variant-by-variant evaluation of the conversion",
         "Each variant of the error enumeration is converted symbolically; kind and source compared with the documented table."),
 "C08": ("effect analysis over the resolved MIR call graph, plus a type-level unsafe-code witness",
         "Every function of the library is enumerated and every call edge leaving it is classified; trusts the "
         "compiler's resolution of callees and the table of host effects. Calls into the caller's own reader are the "
         "caller's business."),
}
NA = {
 "C02": "Termination needs a ranking argument for each loop over runtime quantities: the tree walk's progress depends on the heap-held stack of nodes and their contents, the resolver's on the rewritten path, the journal scan's on block contents. The relational domain used here infers invariants, not rankings, so no sound and quiet verdict is in reach. The structural bounds it rests on are decided elsewhere: symlinks followed in C11, record lengths in C01, the end of iterators in C14.",
 "C05": "Quantifies over histories of journal transactions: which descriptor's map a block came from, whether its commit block was seen, and whether a later revocation removed it are facts about the contents of a map across unboundedly many loop iterations, which the domain summarises and cannot relate to individual entries. That replayed blocks are used by every read is C19; that the journal is read only if needed, and its blocks lie on the device, is covered by C03 and C09.",

 "C21": "Quantifies over file contents and the complete on-disk format; a static argument would need a full functional specification of ext4. Its structural parts are claimed as C15, C16, C17, C18 and C19.",
 "C22": "Agreement of two search algorithms over arbitrary directory contents (hash order, collisions) is a functional equivalence over runtime data, out of reach of the static domains used here.",
 "C23": "Numerical equality of hash functions with the kernel's over all inputs; no shape of the code decides it.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "The analysis for this property is not finished yet.")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
