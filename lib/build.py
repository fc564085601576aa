"""Produces the dumps of the type-checked program that the rules read.

The driver is a rustc wrapper; it is rebuilt when its sources change. A dump is
made from /repo's current working tree for one feature set, and is keyed by the
contents of every source file, so a changed tree is always dumped again."""
import hashlib, os, subprocess, sys, time, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FEATURES = {
    # everything that the stable tests and the optional libraries build
    "main": "base64,serde,models,sync,abi,arbitrary,rayon,blake3,stats,rand8,rand9",
    # the single-threaded family of implementations
    "rc": "base64,serde,models,abi",
    # the other layout switch of the models
    "tycho": "base64,serde,models,sync,abi,tycho",
}


def cache_dir():
    d = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w")
        open(t, "w").close()
        return d
    except OSError:
        d = "/tmp/verif-cache"
        os.makedirs(d, exist_ok=True)
        return d


CACHE = cache_dir()


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def walk(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


class BuildError(Exception):
    pass


def run(cmd, e, cwd, what):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


class Lock:
    def __init__(self, name):
        self.f = open(os.path.join(CACHE, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    d = os.path.join(VERIF, "driver")
    h = hash_files([os.path.join(d, "Cargo.toml"), os.path.join(d, "src/main.rs")])
    out = os.path.join(CACHE, "mirdump-" + h)
    with Lock("driver"):
        if not os.path.exists(out):
            e = env()
            e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "drv")
            run(["cargo", "build", "--offline"], e, d, "building the driver")
            shutil.copy(os.path.join(CACHE, "drv/debug/mirdump"), out + ".t")
            os.replace(out + ".t", out)
    return out


def sysroot():
    return run(["rustc", "--print", "sysroot"], env(), VERIF, "rustc").strip()


def ensure_lock():
    lk = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lk) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lk)


def dump(name="main"):
    """path of the JSON dump of the current tree with that feature set"""
    drv = driver()
    ensure_lock()
    files = walk(os.path.join(REPO, "src"), (".rs", ".boc", ".bin", ".md", ".json")) + walk(os.path.join(REPO, "proc"), (".rs", ".toml")) + \
        walk(os.path.join(REPO, "abi-proc"), (".rs", ".toml")) + [os.path.join(REPO, "Cargo.toml")]
    h = hash_files(files, FEATURES[name] + os.path.basename(drv))
    out = os.path.join(CACHE, "dump-%s-%s.json" % (name, h))
    with Lock("dump-" + name):
        if os.path.exists(out):
            return out
        for f in os.listdir(CACHE):
            if f.startswith("dump-%s-" % name) and f.endswith(".json"):
                os.remove(os.path.join(CACHE, f))
        e = env()
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["MIRDUMP_CRATE"] = "tycho_types"
        e["MIRDUMP_OUT"] = out + ".t"
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        tgt = os.path.join(CACHE, "tgt-" + name)
        # cargo's freshness cache would skip the wrapper: forget the crate
        for sub in ("debug/.fingerprint", "debug/deps"):
            p = os.path.join(tgt, sub)
            if os.path.isdir(p):
                for f in os.listdir(p):
                    if f.startswith(("tycho-types-", "tycho_types-", "libtycho_types-")) and "proc" not in f:
                        q = os.path.join(p, f)
                        shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
        shutil.rmtree(os.path.join(tgt, "debug/build/tycho-types"), ignore_errors=True)
        cmd = (["cargo", "check", "--lib", "--offline", "--target-dir", tgt, "--no-default-features", "--features", FEATURES[name]],
            e, REPO, "type-checking /repo (%s)" % name)
        run(*cmd)
        if not os.path.exists(out + ".t"):
            # cargo considered the crate fresh all the same: start from nothing
            shutil.rmtree(tgt, ignore_errors=True)
            run(*cmd)
        if not os.path.exists(out + ".t"):
            raise BuildError("no dump was written for " + name)
        os.replace(out + ".t", out)
    return out


if __name__ == "__main__":
    for n in sys.argv[1:] or list(FEATURES):
        t = time.time()
        print(n, dump(n), "%.1fs" % (time.time() - t))
