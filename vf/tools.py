"""Builds the analysers and extracts the program under analysis from /repo's
current working tree."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")   # overridden only by development runs on a scratch copy
BUILD = os.path.join(VERIF, "build")


class ToolError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def env_base():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def build_tool(name, sources, args):
    """Compile a Rust tool with rustc if its source changed since the last build."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for s in sources:
        with open(s, "rb") as f:
            h.update(f.read())
    h.update(" ".join(args).encode())
    out = os.path.join(BUILD, name)
    stamp = out + ".sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    tmp = out + ".%d" % os.getpid()
    rc, log = run(["rustc"] + args + [sources[0], "-o", tmp], env=env_base())
    if rc != 0:
        raise ToolError("building %s failed:\n%s" % (name, log[-4000:]))
    os.replace(tmp, out)
    with open(stamp + ".%d" % os.getpid(), "w") as f:
        f.write(h.hexdigest())
    os.replace(stamp + ".%d" % os.getpid(), stamp)
    return out


def extractor():
    return build_tool("extract", [os.path.join(VERIF, "extract", "extract.rs")],
                      ["+nightly", "-O", "--edition", "2024"])


def analyzer():
    d = os.path.join(VERIF, "analyzer")
    srcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".rs"))
    main = os.path.join(d, "main.rs")
    srcs.remove(main)
    return build_tool("analyzer", [main] + srcs, ["+nightly", "-C", "opt-level=3", "-C", "codegen-units=8", "--edition", "2024"])


def extract(harness="harness", work=None, keep=None):
    """Compile the harness against /repo as it is now; returns the parsed MIR dump."""
    tool = extractor()
    own = work is None
    if own:
        work = tempfile.mkdtemp(prefix="vf-")
    try:
        h = os.path.join(work, harness)
        shutil.copytree(os.path.join(VERIF, harness), h)
        if REPO != "/repo":
            toml = os.path.join(h, "Cargo.toml")
            text = open(toml).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(toml, "w").write(text)
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(h, "Cargo.lock"))
        e = env_base()
        rc, sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e)
        if rc != 0:
            raise ToolError("no nightly toolchain: " + sysroot)
        out = os.path.join(work, harness + ".json")
        e["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib"
        e["EXTRACT_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = tool
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on"
        e["CARGO_TARGET_DIR"] = os.path.join(work, harness + "-target")
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_INCREMENTAL"] = "0"
        rc, log = run(["cargo", "+nightly", "check", "--offline"], cwd=h, env=e)
        if rc != 0 or not os.path.exists(out):
            raise ToolError("extracting MIR failed:\n" + log[-6000:])
        if keep:
            shutil.copy(out, keep)
        with open(out) as f:
            return json.load(f), out
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)
