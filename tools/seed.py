#!/usr/bin/env python3
"""Plants a bug in a scratch copy, confirms it and writes /verif/seeded/<id>.

    seed.py SPEC.py [--no-tests]     SPEC defines BUGS: a list of dictionaries
        id, prop, edits [(file, old, new)], needs, breaks, demo (Rust main.rs)
        features (optional list), checks (optional list of check ids to run)
    seed.py --recheck ID...          applies kept patches again and runs their check

Works in /tmp/sc (a copy of /repo made on first use)."""
import importlib.util, json, os, shutil, subprocess, sys

SC = "/tmp/sc"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= HOME=/root
export PATH=/root/.cargo/bin:$PATH
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
tycho-types = { path = "$REPO", features = [FEATURES] }
anyhow = "1"
EOF
cd "$T"
CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline -q
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def fresh():
    if not os.path.isdir(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", SC, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", SC, "reset", "-q", "--hard", "FETCH_HEAD"])


ENV = ("cd %s; export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true "
       "CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=; F=base64,serde,models,sync,abi; " % SC)


def tests():
    r = sh(ENV + "cargo test --workspace --features $F --no-fail-fast --offline --lib --tests -- --test-threads 8 2>&1")
    r2 = sh(ENV + "cargo build --features $F,rayon,blake3,stats,rand8 --lib --offline 2>&1")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
    failed = [l for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
    if "error: could not compile" in r.stdout or "could not compile" in r2.stdout:
        return "COMPILE: " + (r.stdout if "could not compile" in r.stdout else r2.stdout)[-1500:]
    if failed:
        return "TESTS: " + "\n".join(failed)[:800]
    return None


def demo(d):
    r = sh("cd %s && bash %s/demo.sh" % (SC, d))
    return r.returncode, (r.stdout + r.stderr)[-400:]


def check(prop):
    r = sh("cd %s && VERIF_REPO=%s python3 check.py %s" % (ROOT, SC, prop))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    k = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("key:")]
    return r.returncode, v, k, r.stdout[-300:] + r.stderr[-300:]


def note(d, c, rc, k):
    """remembers in meta.json what caught the bug"""
    m = json.load(open(d + "/meta.json"))
    m["caught"] = ("%s: %s" % (c, ", ".join(x[5:] for x in k[:4])) if rc == 1 else "not caught")
    with open(d + "/meta.json", "w") as f:
        json.dump(m, f, indent=1)


def main():
    if sys.argv[1] == "--recheck":
        for i in sys.argv[2:]:
            d = os.path.join(ROOT, "seeded", i)
            m = json.load(open(d + "/meta.json"))
            fresh()
            print(i, sh("git -C %s apply %s/patch.diff" % (SC, d)).stderr)
            rc, v, k, out = check(m["property"])
            note(d, m["property"], rc, k)
            print("  check", m["property"], rc, k[:4], out if rc not in (0, 1) else "")
        fresh()
        return
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in mod.BUGS:
        if only and b["id"] not in only:
            continue
        fresh()
        d = os.path.join(ROOT, "seeded", b["id"])
        tmp = "/tmp/bugs/" + b["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(tmp + "/main.rs", "w") as f:
            f.write(b["demo"])
        feats = b.get("features", ["abi", "models", "base64"])
        with open(tmp + "/demo.sh", "w") as f:
            f.write(DEMO.replace("FEATURES", ", ".join('"%s"' % x for x in feats)))
        with open(tmp + "/meta.json", "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        if "--no-clean" not in sys.argv:
            rc, out = demo(tmp)
            if rc != 0:
                print(b["id"], "DEMO FAILS ON THE CLEAN TREE", out)
                continue
        ok = True
        for fn, old, new in b["edits"]:
            p = os.path.join(SC, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT: %d occurrences in %s: %r" % (s.count(old), fn, old[:60]))
                ok = False
                break
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        if not ok:
            continue
        with open(tmp + "/patch.diff", "w") as f:
            f.write(sh("git -C %s diff" % SC).stdout)
        rc, out = demo(tmp)
        if rc == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG", out)
            continue
        e = tests() if "--no-tests" not in sys.argv else None
        if e:
            print(b["id"], e)
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print(b["id"], "PLANTED; demo:", out.strip().splitlines()[-1][:160] if out.strip() else rc)
        for c in b.get("checks", [b["prop"]]):
            rc, v, k, out = check(c)
            if c == b["prop"]:
                note(d, c, rc, k)
            print("   check %s: rc=%s %s %s" % (c, rc, k[:3], out if rc not in (0, 1) else ""))
    fresh()


main()
