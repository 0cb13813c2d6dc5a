"""C01: no public operation panics. Every panic site the abstract interpreter
reaches (assertions of the MIR, calls that panic, unwrapped values, slice
ranges, borrows) must be shown impossible."""
from .. import analysis as an

# What the abstract domain cannot express: contents of path buffers (where the
# separators are, that names and paths are valid), divisibility of an index
# inside a nested iterator, counters whose bound follows from a termination
# argument. Obligations of these kinds met while analysing these entry points
# count as undecided.
UNDECIDED = {
    "unit:resolve::resolve_path": ("panic", "assert_failed", "unwrap"),
    "class:Extents": ("unwrap",),
    "class:ExtentsBlocks": ("unwrap",),
    "class:BlockMap": ("unwrap",),
}
# Small readers of fields out of slices: their unwrap is a range check.
READERS = "ext4_view::util::"
SKIP = ("val_path_join_path", "val_pathbuf_push_path")


def run(ctx):
    d, mir = an.program(ctx)
    roots = [r for r in an.harness_roots(d, ("api_", "op_", "alt_", "val_", "err_", "rd_", "fmt_")) if r not in SKIP]
    roots += an.UNITS + an.CLASSES
    res = an.analyse(ctx, mir, roots)
    v = []
    # An operation that is no longer there was merged into another.
    any_kind = sorted({k for ks in UNDECIDED.values() for k in ks})
    und = []
    for k, o in sorted(res.rule("panic").items()):
        if not o["bad"]:
            continue
        kind = k.rsplit(": ", 1)[-1]
        ok = all(kind in (any_kind if res.missing else UNDECIDED.get(r, ())) and (r == "class:BlockMap" or not k.startswith(READERS)) for r in o["roots"])
        if ok:
            und.append(k)
            continue
        v.append(ctx.violation("panic:" + k, "%s can panic: %s (analysing %s)" % (k, o["text"], ", ".join(o["roots"][:4]))))
    an.cover(ctx, res, "panic", "every reachable panic site is infeasible under the facts of its paths")
    ctx.coverage["undecided_by_domain"] = und
    ctx.coverage["exempt_documented_panics"] = ["Path::new", "PathBuf::new", "PathBuf::push", "Path::join"]
    return v
