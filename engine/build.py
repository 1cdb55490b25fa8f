"""Builds the MIR-fact driver and runs it over /repo's current sources.

Facts are keyed by a content hash of every source file that can influence them, so a warm
cache is used only when the sources are byte-identical to the ones it was made from.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CRATES = [
    "bonsaidb", "bonsaidb-client", "bonsaidb-core", "bonsaidb-files", "bonsaidb-local",
    "bonsaidb-macros", "bonsaidb-server", "bonsaidb-keystorage-s3", "bonsaidb-utils",
]
# crates whose facts the rules read (all library code of the workspace)
FACT_CRATES = ["bonsaidb", "bonsaidb_client", "bonsaidb_core", "bonsaidb_files",
               "bonsaidb_local", "bonsaidb_server", "bonsaidb_keystorage_s3", "bonsaidb_utils"]
PATCHES = ["time-0.3.32", "ahash-0.7.7", "crc32c-0.6.4"]


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def source_files():
    out = []
    for c in CRATES:
        base = os.path.join(REPO, "crates", c)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.endswith(".bonsaidb") and x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".md")):
                    out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "Cargo.toml"))
    return out


def content_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for p in [os.path.join(VERIF, "driver/src/main.rs"), os.path.join(VERIF, "driver/Cargo.toml"),
              os.path.join(VERIF, "support/Cargo.lock"), os.path.abspath(__file__)]:
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
            if k not in ("CARGO_HOME",):
                e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    return e


def build_driver(e):
    t = os.path.join(BUILD, "driver")
    e2 = dict(e)
    e2["CARGO_TARGET_DIR"] = t
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e2,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("driver build failed:\n" + r.stderr[-4000:])
    return os.path.join(t, "debug", "mirfacts")


def make_workspace():
    ws = os.path.join(BUILD, "ws")
    if os.path.isdir(ws):
        for n in os.listdir(ws):
            p = os.path.join(ws, n)
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
    os.makedirs(ws, exist_ok=True)
    for n in os.listdir(REPO):
        if n in ("Cargo.toml", "Cargo.lock", ".git", "target", "xtask", "examples", "book", "benchmarks", ".cargo", "rust-toolchain.toml", "rust-toolchain"):
            continue
        os.symlink(os.path.join(REPO, n), os.path.join(ws, n))
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write('[workspace]\nresolver = "2"\nmembers = [\n')
        for c in CRATES:
            f.write('    "crates/%s",\n' % c)
        f.write("]\n\n[patch.crates-io]\n")
        for p in PATCHES:
            f.write('%s = { path = "%s/vendor/%s" }\n' % (p.rsplit("-", 1)[0], VERIF, p))
        f.write('\n[profile.dev]\ndebug = false\nincremental = false\n')
    shutil.copy(os.path.join(VERIF, "support/Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    return ws


def facts_dir():
    """Returns the directory with facts of the current tree, building it when needed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = content_hash()
        d = os.path.join(BUILD, "facts", h)
        if os.path.exists(os.path.join(d, "OK")):
            return d
        t0 = time.time()
        e = env()
        drv = build_driver(e)
        log("driver ready %.0fs" % (time.time() - t0))
        ws = make_workspace()
        tgt = os.path.join(BUILD, "target")
        tmp = os.path.join(BUILD, "facts.tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # cargo's freshness cache would silently skip the wrapper: forget the workspace members
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("bonsaidb"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        # newer cargo layouts keep the fingerprints under build/<pkg>/<hash>/fingerprint
        bd = os.path.join(tgt, "debug", "build")
        if os.path.isdir(bd):
            for n in os.listdir(bd):
                if n.startswith("bonsaidb"):
                    shutil.rmtree(os.path.join(bd, n), ignore_errors=True)
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRFACTS_OUT"] = tmp
        e["CARGO_INCREMENTAL"] = "0"
        r = subprocess.run(["cargo", "check", "--offline", "--workspace", "--all-features", "--lib", "--quiet"],
                           cwd=ws, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("cargo check failed on the current tree:\n" + r.stderr[-6000:])
        # a crate that was compiled twice (for the host and for the target): keep the fuller facts
        best = {}
        for f in sorted(os.listdir(tmp)):
            if not f.endswith(".jsonl"):
                continue
            k = f.rsplit("-", 1)[0]
            if k in best:
                small, big = sorted((best[k], f), key=lambda x: (os.path.getsize(os.path.join(tmp, x)), x))
                os.remove(os.path.join(tmp, small))
                f = big
            best[k] = f
        have = [f.split("-")[0] for f in os.listdir(tmp)]
        miss = [c for c in FACT_CRATES if c not in have]
        if miss:
            raise RuntimeError("no facts were produced for %s\n%s" % (miss, r.stderr[-3000:]))
        open(os.path.join(tmp, "OK"), "w").write(h)
        root = os.path.join(BUILD, "facts")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        os.rename(tmp, d)
        log("facts ready %.0fs" % (time.time() - t0))
        return d


if __name__ == "__main__":
    print(facts_dir())
