#!/usr/bin/env python3
"""Makes and tries the planted bugs of /verif/seeded from tools/plants/*.py.

  tools/plant.py make [ID...]   write seeded/ID after confirming it in a scratch copy
  tools/plant.py run [ID...]    run the property's check against each (in a scratch copy)

A spec file defines BUGS: a list of dicts with id, property, edits
[(file, old, new)], needs, breaks, demo (body of a Rust program), hooked."""
import glob, json, os, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
REPO = SCRATCH + "/repo"

DEMO = '''#!/bin/bash
# exits 0 where the property holds for the demonstrated case, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust-systre = { path = "$repo" }
num-bigint = "0.4.3"
num-rational = "0.4.1"
num-traits = "0.2.15"
[lints.rust]
unexpected_cfgs = "allow"
EOF
cd "$dir" || exit 99
export DEMO_REPO=$repo CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$dir/target} CARGO_NET_OFFLINE=true
RUSTFLAGS="@FLAGS@" timeout 280 cargo run --offline -q
'''

PRELUDE = '''#![allow(unused_imports, dead_code, unused_macros)]
use std::collections::*;
use num_bigint::BigInt;
use num_rational::{BigRational, Ratio};
use num_traits::*;
use rust_systre::arithmetic::geometry::*;
use rust_systre::arithmetic::linear_algebra::*;
use rust_systre::arithmetic::matrices::*;
use rust_systre::arithmetic::modular_solver;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct W {}

fn q(n: i64, d: i64) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}
fn qs(v: &[i64]) -> Vec<BigRational> { v.iter().map(|&x| q(x, 1)).collect() }
fn qm(ncols: usize, v: &[i64]) -> Matrix<BigRational> { Matrix::new(ncols, &qs(v)) }
'''
GRAPHS = '''
use rust_systre::pgraphs::{Automorphism, Edge, Graph, LabelVector, LabelVector2d, LabelVector3d};
use rust_systre::symmetries;

type G2 = Graph<LabelVector2d<W>, W>;
type G3 = Graph<LabelVector3d<W>, W>;
fn g2(s: &[[i32; 4]]) -> G2 {
    Graph::new(&s.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32,
        LabelVector2d::new(e[2], e[3]))).collect::<Vec<_>>())
}
fn g3(s: &[[i32; 5]]) -> G3 {
    Graph::new(&s.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32,
        LabelVector3d::new(e[2], e[3], e[4]))).collect::<Vec<_>>())
}
'''

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"

def bugs():
    r = []
    for f in sorted(glob.glob(HERE + "/tools/plants/*.py")):
        r += runpy.run_path(f, {"G": GRAPHS})["BUGS"]
    assert len({b["id"] for b in r}) == len(r), "duplicate id"
    return r

def scratch():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH + "/verif/evidence"); os.makedirs(SCRATCH + "/verif/replays")
    sh(f"cp -a /repo {REPO}", "/")
    for f in ("harness", "check", "known_findings.txt"):
        sh(f"cp -a {HERE}/{f} {SCRATCH}/verif/", "/")
    sh(f"grep -rlE '/repo|/verif' {SCRATCH}/verif/harness {SCRATCH}/verif/check | "
       f"xargs sed -i -E 's#(^|[^a-z0-9/])/(repo|verif)\\b#\\1{SCRATCH}/\\2#g'", "/")

def clean():
    sh("git checkout -q -- . && git clean -fdq src", REPO)

def edit(b):
    for f, old, new in b["edits"]:
        p = f"{REPO}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return f"{f}: {t.count(old)} matches of {old!r}"
        open(p, "w").write(t.replace(old, new))
    # must change lines of the original repository
    return None

def make(b):
    d = f"{HERE}/seeded/{b['id']}"
    tmp = SCRATCH + "/demo"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", "--cfg systre_verif" if b.get("hooked") else ""))
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/main.rs", "w").write(PRELUDE + b["demo"])
    env = {"DEMO_TARGET_DIR": SCRATCH + ("/dth" if b.get("hooked") else "/dt")}
    clean()
    rc, out = sh(f"{tmp}/demo.sh", REPO, 300, env)
    if rc: return f"demo fails on the unchanged tree: {rc}\n{out[-1500:]}"
    e = edit(b)
    if e: clean(); return e
    rc, patch = sh("git diff", REPO)
    rc, out = sh("cargo test --workspace --offline 2>&1", REPO, 200)
    if rc: clean(); return "tests fail:\n" + "\n".join(l for l in out.split("\n") if "FAILED" in l or "error" in l or "panicked" in l)[:1500]
    rc, out = sh(f"timeout 100 {tmp}/demo.sh", REPO, 300, env)
    clean()
    if rc == 0: return "demo passes with the patch"
    if "error[" in out or "could not compile" in out: return "demo does not compile\n" + out[-800:]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    return None

def run(b):
    d = f"{HERE}/seeded/{b['id']}"
    if not os.path.exists(d + "/patch.diff"): return "not made"
    clean()
    rc, out = sh(f"git apply {d}/patch.diff", REPO)
    if rc: return "does not apply: " + out
    rc, out = sh("./check " + b["property"], SCRATCH + "/verif", 900)
    clean()
    v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
    if rc == 1 and v and f"property={b['property']} " in v[0]: return "caught"
    return f"MISSED rc={rc} {out[-400:]}"

def main():
    what, ids = sys.argv[1], sys.argv[2:]
    bs = [b for b in bugs() if not ids or any(b["id"].startswith(i) for i in ids)]
    scratch()
    log = {}
    for b in bs:
        if what in ("make", "both"):
            if what == "both" or not os.path.exists(f"{HERE}/seeded/{b['id']}/patch.diff") or ids:
                e = make(b)
                print(b["id"], "make:", e or "ok", flush=True)
                if e: continue
        if what in ("run", "both"):
            r = run(b)
            print(b["id"], b["property"], r, flush=True)
            log[b["id"]] = r
    shutil.rmtree(SCRATCH, ignore_errors=True)

main()
