#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: make planted bugs from a spec file and verify them in a scratch copy.
A spec is a Python file that defines BUGS: a list of dicts with id, property, needs, what_it_breaks,
edits [(file, old, new)], demo (Rust source of main.rs). A bug is kept only if the patched copy builds,
passes the stable tests, and the demonstration passes before and fails after.
plant.py --check ID...: run the check of the bug's property against /repo with the patch applied."""
import json, os, re, subprocess, sys, shutil
SEEDED = "/verif/seeded"
COPY = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
DEMO = """#!/bin/bash
# Exit 0 if the property holds in the scenario of main.rs. Run in the repository after its build.
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
SCRATCH=$(mktemp -d) || exit 1
trap 'rm -rf "$SCRATCH"' EXIT
mkdir "$SCRATCH/src"
cp "$HERE/main.rs" "$SCRATCH/src/main.rs"
cp "$REPO/Cargo.lock" "$SCRATCH/Cargo.lock"
cat > "$SCRATCH/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fundsp = { path = "$REPO" }
[workspace]
TOML
export CARGO_TARGET_DIR=$REPO/target
cargo build --offline --quiet --manifest-path "$SCRATCH/Cargo.toml" || exit 3
cd "$SCRATCH" && timeout 120 "$CARGO_TARGET_DIR/debug/demo"
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, env=ENV, text=True, capture_output=True, **kw)

def fresh():
    if not os.path.exists(COPY):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    sh(f"git -C {COPY} checkout -q -- . && git -C {COPY} fetch -q /repo HEAD && git -C {COPY} checkout -q -f FETCH_HEAD")

def stable():
    r = sh(f"cd {COPY} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant/log 2>&1; python3 /opt/vp/results.py /tmp/plant/out.json cargo:/tmp/plant/log")
    passed = set(json.load(open("/tmp/plant/out.json"))["passed"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]

def make(b):
    d = f"{SEEDED}/{b['id']}"
    fresh()
    for f, old, new in b["edits"]:
        p = f"{COPY}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times:", old[:60]); return False
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {COPY} diff").stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    open(f"{d}/main.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    ok = verify(b["id"])
    if not ok:
        shutil.rmtree(d)
    return ok

def verify(id):
    d = f"{SEEDED}/{id}"
    fresh()
    r = sh(f"cd {COPY} && bash {d}/demo.sh")
    if r.returncode != 0:
        print(id, "DEMO FAILS ON THE UNCHANGED TREE", r.returncode, r.stdout[-800:], r.stderr[-1500:]); return False
    r = sh(f"git -C {COPY} apply {d}/patch.diff")
    if r.returncode != 0:
        print(id, "patch does not apply", r.stderr); return False
    r = sh(f"cd {COPY} && bash {d}/demo.sh")
    if r.returncode in (0, 3):
        print(id, "DEMO DOES NOT FAIL WITH THE PATCH", r.returncode, r.stdout[-500:], r.stderr[-1500:]); fresh(); return False
    msg = (r.stdout + r.stderr).strip().splitlines()
    failed = stable()
    fresh()
    if failed:
        print(id, "TESTS FAIL:", failed[:5]); return False
    print(id, "ok;", " / ".join(msg[-3:])[:200])
    return True

def check(id):
    d = f"{SEEDED}/{id}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == ""
    r = sh(f"git -C /repo apply {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    try:
        r = sh(f"cd /verif && VERIF_SEED=1 bash check.sh {prop} quick")
    finally:
        sh("git -C /repo checkout -q -- .")
    lines = r.stdout.splitlines()
    print(id, prop, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in lines) else "MISSED",
          "|", "; ".join(l for l in (r.stdout + r.stderr).splitlines() if "class" in l or "runs" in l or "error" in l)[:300], flush=True)

if sys.argv[1] == "--check":
    for id in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        check(id)
elif sys.argv[1] == "--verify":
    for id in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        verify(id)
else:
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) == 2 or b["id"] in sys.argv[2:]:
            make(b)
