#!/usr/bin/env python3
"""plant.py FILE.py [ID...] : creates and validates planted bugs (dev helper; no check uses it).
FILE.py defines BUGS, a list of dicts: id, property, needs, breaks, edits=[(file, old, new)], main (Rust statements)."""
import json, os, shutil, subprocess, sys
SEED = "/verif/seeded"
W = "/tmp/plant_repo"
HELP = r'''
#![allow(unused)]
use llm_samplers::prelude::*;
use llm_samplers::configure::*;
use rand::SeedableRng;
fn lg(c: &[(u32, f32)]) -> Logits {
    let mut l = Logits::try_from_iter(c.iter().map(|x| x.1)).unwrap();
    for (a, b) in l.iter_mut().zip(c) { a.token_id = b.0; }
    l
}
fn plain(v: &[f32]) -> Logits { Logits::try_from_iter(v.iter().copied()).unwrap() }
fn res(last: &[u32]) -> SimpleSamplerResources {
    SimpleSamplerResources::new(Some(Box::new(rand::rngs::StdRng::seed_from_u64(7))), Some(last.to_vec()))
}
fn pairs(l: &Logits) -> Vec<(u32, f32)> { l.iter().map(|x| (x.token_id, x.logit)).collect() }
fn near(a: f32, b: f32) -> bool { (a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs())) }
'''
DEMO = r'''#!/bin/bash
# exit 0 iff the behaviour described in meta.json is right; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/ref.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
llm-samplers = { path = "$repo" }
rand = "0.8"
anyhow = "1"
[workspace]
T
cd "$w" && CARGO_TARGET_DIR="$w/t" cargo run --offline --quiet
'''
def sh(cmd, cwd, log=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr
def fresh():
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}", "/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
base = json.load(open("/opt/vp/BASELINE.json"))
def tests():
    rc, out = sh("cargo test --workspace --no-fail-fast --offline 2>&1", W)
    ok = {l.split()[1] for l in out.split("\n") if l.startswith("test ") and l.rstrip().endswith("... ok")}
    return rc, out, ok
def names(b):
    s = json.dumps(b)
    return s
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    fresh()
    rc, out, ok0 = tests()
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        fresh()
        d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(HELP + "fn main() {\n" + b["main"] + "\n}\n" + b.get("items", ""))
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0, o0 = sh(f"bash {d}/demo.sh", W)
        bad = None
        for f, old, new in b["edits"]:
            t = open(f"{W}/{f}").read()
            if t.count(old) != b.get("count", 1): bad = f"edit matches {t.count(old)} times in {f}"
            open(f"{W}/{f}", "w").write(t.replace(old, new))
        rc, diff = sh("git diff", W)
        open(d + "/patch.diff", "w").write(diff)
        rc, out, ok = tests()
        if "error: could not compile" in out or "error[" in out: bad = "does not build:\n" + "\n".join(l for l in out.split("\n") if "error" in l)[:500]
        elif ok0 - ok: bad = "tests fail: " + ", ".join(ok0 - ok)
        r1, o1 = sh(f"bash {d}/demo.sh", W)
        if r0 != 0: bad = "demo fails on the unchanged tree\n" + o0[-600:]
        if r1 == 0: bad = "demo passes with the bug"
        if "error" in o1 and "panicked" not in o1: bad = (bad or "") + o1[-500:]
        print(b["id"], b["property"], "OK" if not bad else "BAD: " + bad, flush=True)
    fresh()
main()
