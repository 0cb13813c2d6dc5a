"""Runs the abstract interpreter on the extracted program and collects the
obligations it decided."""
import concurrent.futures, json, os, re, subprocess
from . import tools

UNITS = ["unit:Ext4::read_from_block", "unit:inode::Inode::read", "unit:journal::Journal::load",
         "unit:DirBlock::<'_>::read", "unit:DirEntry::from_bytes", "unit:get_dir_entry_via_htree",
         "unit:get_dir_entry_inode_by_name", "unit:Inode::symlink_target", "unit:Ext4::read_inode_file",
         "unit:resolve::resolve_path", "unit:File::open_inode", "unit:File::read_bytes"]
CLASSES = ["class:Extents", "class:ExtentsBlocks", "class:BlockMap", "class:FileBlocks", "class:ReadDir"]


class Result:
    def __init__(self):
        self.obs = {}        # (rule, key) -> dict(n, bad, und, text, roots)
        self.unmodelled = set()
        self.missing = []
        self.visited = set()
        self.failed = {}     # root -> reason
        self.roots = []
        self.timings = {}

    def add(self, other):
        """The results of a further run."""
        for k, o in other.obs.items():
            x = self.obs.setdefault(k, {"n": 0, "bad": 0, "und": 0, "text": "", "roots": []})
            for f in ("n", "bad", "und"):
                x[f] += o[f]
            if o["text"] and (not x["text"] or o["bad"]):
                x["text"] = o["text"]
            x["roots"] += [r for r in o["roots"] if r not in x["roots"]]
        self.unmodelled |= other.unmodelled
        self.missing += other.missing
        self.visited |= other.visited
        self.failed.update(other.failed)

    def rule(self, name):
        return {k[1]: o for k, o in self.obs.items() if k[0] == name}

    def count(self, name):
        r = self.rule(name).values()
        return {"keys": len(r), "checked": sum(o["n"] for o in r), "undecided": sum(o["und"] for o in r),
                "failed": sum(o["bad"] for o in r)}


def program(ctx):
    d, path = tools.extract("harness", ctx.work)
    return d, path


def harness_roots(d, prefixes):
    names = [r[0].rsplit("::", 1)[-1] for r in d["roots"]]
    return sorted(n for n in names if n.startswith(tuple(prefixes)))


def one(tool, mir, root, out, timeout, opts=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VF_"):
            del e[k]
    e["VF_OUT"] = out
    if opts:
        e["VF_RULES"] = opts
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "-", tool, mir, root], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return root, None, "no result within %d s" % timeout
    if r.returncode != 0 or not os.path.exists(out):
        return root, None, "analysis failed: " + r.stderr.decode("utf8", "replace")[-300:].replace("\n", " ")
    with open(out) as f:
        return root, json.load(f), None


def analyse(ctx, mir, roots, timeout=520, opts=""):
    tool = tools.analyzer()
    res = Result()
    res.roots = roots
    slow = {"class:BlockMap": 0, "class:Extents": 1, "unit:get_dir_entry_via_htree": 2}
    order = sorted(roots, key=lambda r: slow.get(r, 9))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        futs = []
        for i, r in enumerate(order):
            out = os.path.join(ctx.work, "an-%d.json" % i)
            futs.append(ex.submit(one, tool, mir, r, out, timeout, opts))
        for f in futs:
            root, j, err = f.result()
            if err:
                res.failed[root] = err
                continue
            for o in j["obs"]:
                k = (o["rule"], o["key"])
                x = res.obs.setdefault(k, {"n": 0, "bad": 0, "und": 0, "text": "", "roots": []})
                x["n"] += o["n"]
                x["bad"] += o["bad"]
                x["und"] += o["und"]
                if (o["bad"] or o["und"]) and (not x["text"] or o["bad"]):
                    x["text"] = o["text"]
                if o["bad"]:
                    x["roots"].append(root)
            res.unmodelled.update(j["unmodelled"])
            res.missing += j["missing"]
            res.visited.update(j["visited"])
    if len(res.failed) == len(roots):
        raise tools.ToolError("the analyser gave no result: %s" % list(res.failed.items())[:2])
    return res


def cover(ctx, res, rule, what):
    ctx.coverage.update({
        "rule": what,
        "entry_points": len(res.roots),
        "entry_points_without_result": sorted(res.failed.items()),
        "units_not_found": sorted(set(res.missing)),
        "functions_analysed": len([f for f in res.visited if "ext4_view" in f]),
        "library_functions_total": len(res.visited),
        "obligations": res.count(rule),
        "undecided_keys": sorted(k for k, o in res.rule(rule).items() if o["und"])[:60],
        "unmodelled_callees": sorted(res.unmodelled)[:40],
    })


def decide(ctx, prop, roots, what, need=(), timeout=520, more=()):
    """Runs the analyser with the obligations of one property; what fails is a
    violation. `need`: obligation keys' suffixes that must have been met for
    the property to count as analysed. `more`: further runs, of entry points
    under other options."""
    d, mir = program(ctx)
    roots = [r for x in roots for r in ([x] if ":" in x else harness_roots(d, (x,)))]
    res = analyse(ctx, mir, roots, timeout=timeout, opts=prop)
    for rs, opts in more:
        res.add(analyse(ctx, mir, [r for x in rs for r in ([x] if ":" in x else harness_roots(d, (x,)))], timeout=timeout, opts=opts))
    v = []
    for k, o in sorted(res.rule(prop).items()):
        if o["bad"]:
            v.append(ctx.violation(k, "%s (analysing %s)" % (o["text"], ", ".join(o["roots"][:4]))))
    cover(ctx, res, prop, what)
    met = res.rule(prop)
    ctx.coverage["obligations_not_met"] = [n for n in need if not any(n in k for k in met)]
    ctx.coverage["keys"] = {k: o["n"] for k, o in sorted(met.items())}
    return v, res
