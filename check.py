#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property of /repo's current working tree."""
import importlib, json, os, re, shutil, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import tools

VERIF = os.path.dirname(os.path.abspath(__file__))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.coverage = {}
        self.assumptions = []
        self.level = "other"
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop)

    def violation(self, key, text):
        return {"key": key, "text": text}


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(prop)
    try:
        mod = importlib.import_module("vf.rules." + prop.lower())
        viol = mod.run(ctx)
    except tools.ToolError as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    known = known_findings()
    seen, fresh = set(), []
    for x in viol:
        k = (prop, x["key"].replace(" ", ""))
        if k in seen:
            continue
        seen.add(k)
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        else:
            fresh.append(x)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick", "seed": ctx.seed,
          "level": ctx.level, "coverage": ctx.coverage, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - t0, 2),
          "violations": [x["key"] + ": " + x["text"] for x in fresh]}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".txt")
        with open(path, "w") as f:
            for x in fresh:
                f.write("%s\n  %s\n" % (x["key"], x["text"]))
        for x in fresh[:30]:
            print("  " + x["text"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s %s" % (prop, json.dumps({k: v for k, v in ctx.coverage.items() if isinstance(v, (int, float))})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
