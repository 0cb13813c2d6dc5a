"""C08: the library only reads. Effect analysis over the resolved call graph:
which operations outside the crate can any of its functions reach, and does the
crate hold any global mutable state."""
import re
from ..mir import Program
from .. import tools

STD = {"std", "core", "alloc", "proc_macro", "test"}

# Host interfaces whose use is an effect on, or a hidden input from, the world
# outside the reader the caller supplied.
DENY = [
    (r"^std::(io::_e?print|io::(stdio::)?_e?print)", "writes to the process's standard streams"),
    (r"std::io::(stdio::)?(stdout|stderr|stdin)\b", "uses the process's standard streams"),
    (r"std::io::(Stdout|Stderr|Stdin)", "uses the process's standard streams"),
    (r"std::net::|std::os::(unix|fd|linux)::net", "uses the network"),
    (r"std::process::", "controls processes"),
    (r"std::env::", "uses the process environment"),
    (r"std::thread::", "uses threads or thread-local state"),
    (r"std::time::", "depends on the clock"),
    (r"std::fs::(write|copy|rename|remove_\w+|create_\w+|set_\w+|hard_link|soft_link|DirBuilder)", "modifies the host filesystem"),
    (r"std::fs::File::(create\w*|set_\w+|sync_\w+|lock\w*|try_lock\w*|unlock)", "modifies the host file"),
    (r"std::fs::OpenOptions::(write|append|truncate|create|create_new)\b", "opens a host file for writing"),
    (r"std::os::\w+::fs::OpenOptionsExt", "opens a host file with platform flags"),
    (r"std::fs::File as std::io::Write|<&?std::fs::File as [\w:]*FileExt>::write|FileExt::write", "writes to a host file"),
    (r"std::io::Write::(write|write_all|flush)", "writes to an output stream"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
OPENS = re.compile(r"^std::fs::(File::open|File::options|OpenOptions::open|read$|read_to_string|metadata|read_dir)\b")
INTERIOR = re.compile(r"\b(UnsafeCell|Cell|RefCell|Mutex|RwLock|Atomic\w*|SyncUnsafeCell)\b")


def is_std(f):
    return f["crate"] in STD


def run(ctx):
    v = []
    d, _ = tools.extract("harness", ctx.work)
    p = Program(d)
    own = [i for i, f in enumerate(p.fns) if f["crate"] not in STD and f["crate"] != "harness"]
    lib = [i for i in own if p.fns[i]["crate"] == "ext4_view"]
    need = ["api_load", "api_read", "api_open", "op_file_read_bytes", "op_readdir_next", "rd_file"]
    if any(n not in p.roots for n in need) or len(lib) < 200:
        raise tools.ToolError("harness roots or library functions missing from the extracted program")
    roots = sorted(p.roots.values())
    seen = p.reach(roots + lib)
    open_roots = {p.roots[n] for n in p.roots if n == "api_load_from_path"}
    non_open = p.reach([i for i in roots if i not in open_roots] +
                       [i for i in lib if not is_loader(p, i)])
    edges = 0
    for i in own:
        f = p.fns[i]
        if "blocks" not in f:
            continue
        for j, loc in p.succ(i):
            g = p.fns[j]
            if not is_std(g):
                continue
            edges += 1
            for rx, why in DENY:
                if rx.search(g["path"]) or rx.search(g["name"]):
                    v.append(ctx.violation("effect:%s->%s" % (f["path"], g["path"]),
                             "%s (%s) calls %s, which %s" % (f["name"], loc, g["name"], why)))
                    break
            else:
                if OPENS.search(g["path"]) and i in non_open:
                    v.append(ctx.violation("open:%s->%s" % (f["path"], g["path"]),
                             "%s (%s) opens a host path outside Ext4::load_from_path; reachable: %s"
                             % (f["name"], loc, " <- ".join(p.chain(non_open, i)))))
    # Denied surfaces reached through any other route (std code reached from the crate).
    for i in seen:
        g = p.fns[i]
        if not is_std(g) or seen[i] is None or not is_std(p.fns[seen[i][0]]):
            continue
        for rx, why in DENY[:7]:
            if rx.search(g["path"]):
                v.append(ctx.violation("effect-indirect:%s" % g["path"],
                         "%s %s; reached: %s" % (g["name"], why, " <- ".join(p.chain(seen, i)))))
                break
    # Function bodies: inline assembly.
    asm = 0
    for i in own:
        for b in p.fns[i].get("blocks", []):
            if b["t"][0] == "asm":
                asm += 1
                v.append(ctx.violation("asm:%s" % p.fns[i]["path"], "%s contains inline assembly (%s)" % (p.fns[i]["name"], b["l"])))
    # Global mutable state.
    for name, ty in d["statics"]:
        w = interior(p, ty, set())
        if w:
            v.append(ctx.violation("static:%s" % name, "static %s has interior mutability (%s): hidden state shared between filesystems" % (name, w)))
    v += static_muts(ctx, p, own)
    # The in-memory reader must not change the image it reads.
    rv = [i for i in lib if re.search(r"Vec<u8> as ext4_view::Ext4Read>::read$", p.fns[i]["name"])]
    for i in rv:
        for loc in writes_through(p, i, 1):
            v.append(ctx.violation("vecwrite:%s" % p.fns[i]["path"], "%s modifies the image it reads (%s)" % (p.fns[i]["name"], loc)))
    # Safe Rust only: compile the library with the lint denied.
    rc, log = unsafe_lint(ctx)
    if rc:
        m = re.search(r"--> (\S+)", log[log.find("unsafe"):] if "unsafe" in log else log)
        v.append(ctx.violation("unsafe-code", "the library contains unsafe code (%s)" % (m.group(1) if m else "see log")))
    # Without the std feature nothing of std is reachable.
    d2, _ = tools.extract("nostd", ctx.work)
    q = Program(d2)
    lib2 = [i for i, f in enumerate(q.fns) if f["crate"] == "ext4_view"]
    if "api_load" not in q.roots or len(lib2) < 200:
        raise tools.ToolError("no_std harness is missing library functions")
    seen2 = q.reach(list(q.roots.values()) + lib2)
    for i in seen2:
        if q.fns[i]["crate"] == "std":
            v.append(ctx.violation("nostd:%s" % q.fns[i]["path"], "without the std feature, %s is reachable: %s"
                     % (q.fns[i]["name"], " <- ".join(q.chain(seen2, i)))))
    ctx.coverage = {
        "explanation": "Effect analysis of the resolved call graph: every function of the library (and of its non-std "
                       "dependencies) is enumerated, every call edge from it into core/alloc/std is classified against "
                       "a table of host effects; statics are checked for interior mutability; the library is type-checked "
                       "with unsafe code denied; the no_std build is checked to reach nothing of std.",
        "library_functions": len(lib), "dependency_functions": len(own) - len(lib),
        "roots": len(roots), "reachable_functions": len(seen), "std_call_edges": edges,
        "statics": len(d["statics"]), "nostd_library_functions": len(lib2), "nostd_reachable": len(seen2),
        "in_memory_reader_bodies": len(rv), "effect_classes": len(DENY),
    }
    return v


def is_loader(p, i):
    return "load_from_path" in p.fns[i]["path"]


def interior(p, ty, seen):
    if ty in seen or ty < 0:
        return None
    seen.add(ty)
    t = p.tys[ty]
    path = t.get("path", "")
    if re.search(r"::(OnceLock|OnceCell|LazyLock|LazyCell|Once)$", path):
        return None
    last = path.split("::")[-1]
    if INTERIOR.fullmatch(last):
        return path
    for var in t.get("vars", []):
        for _, ft in var["f"]:
            w = interior(p, ft, seen)
            if w:
                return w
    for k in ("elem",):
        if k in t:
            w = interior(p, t[k], seen)
            if w:
                return w
    for e in t.get("elems", []):
        w = interior(p, e, seen)
        if w:
            return w
    return None


def static_muts(ctx, p, own):
    """References to `static mut` items appear as raw-pointer constants."""
    v = []
    for i in own:
        f = p.fns[i]
        for b in f.get("blocks", []):
            for c in consts([b["s"], b["t"]]):
                if isinstance(c[2], dict) and c[2].get("k") == "ref" and c[2].get("static") and p.tys[c[1]]["k"] == "ptr" and p.tys[c[1]].get("mut"):
                    v.append(ctx.violation("static-mut:%s" % c[2]["static"], "%s uses static mut %s (%s)" % (f["name"], c[2]["static"], b["l"])))
    return v


def consts(x):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "k" and isinstance(x[1], int) and not isinstance(x[1], bool):
            yield x
        else:
            for y in x:
                yield from consts(y)


def writes_through(p, i, arg):
    f = p.fns[i]
    alias = {arg}
    out = []
    for _ in range(3):
        for b in f.get("blocks", []):
            for s in b["s"]:
                if s[0] != "=":
                    continue
                dst, rv = s[1], s[2]
                if dst[0] in alias and dst[1] and dst[1][0] == ["*"]:
                    out.append(s[3] if len(s) > 3 else b["l"])
                if rv[0] == "use" and rv[1][0] in ("c", "m") and rv[1][1][0] in alias and not rv[1][1][1]:
                    alias.add(dst[0])
                if rv[0] in ("ref", "addr") and isinstance(rv[-1], list) and rv[-1][0] in alias:
                    if any(x in (True, "mut", "Mut") for x in rv[1:-1]):
                        out.append(s[3] if len(s) > 3 else b["l"])
    return sorted(set(map(str, out)))


def unsafe_lint(ctx):
    import os, shutil
    h = os.path.join(ctx.work, "unsafe-h")
    shutil.copytree(os.path.join(tools.VERIF, "harness"), h)
    shutil.copy(os.path.join(tools.REPO, "Cargo.lock"), os.path.join(h, "Cargo.lock"))
    e = tools.env_base()
    e["RUSTFLAGS"] = "-Dunsafe_code"
    e["CARGO_TARGET_DIR"] = os.path.join(ctx.work, "unsafe-target")
    e["CARGO_NET_OFFLINE"] = "true"
    rc, log = tools.run(["cargo", "+nightly", "check", "--offline", "-p", "ext4-view"], cwd=h, env=e)
    if rc and "unsafe" not in log:
        raise tools.ToolError("type-checking the library failed:\n" + log[-4000:])
    return rc, log
