#!/usr/bin/env python3
"""seed.py SPEC.py [ID...] - make planted bugs from a specification and confirm them.

SPEC.py defines SEEDS: id -> dict(prop, needs, breaks, edits=[(file, old, new)], demo=<main.rs>,
shell=<optional demo.sh body>).  Each is confirmed in a scratch copy of /repo: it builds, the
stable tests pass, the demonstration passes without it and fails with it."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TC = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
DEMO = '''#!/bin/bash
# runs demo.rs against the library in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" || exit 2
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
stroke = { path = "$PWD" }
[workspace]
EOF
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/t" RUSTC_WRAPPER= timeout 200 cargo +@TC@ run --offline -q
'''.replace("@TC@", TC)
HEAD = '''#![allow(dead_code, unused_imports, incomplete_features)]
#![feature(generic_const_exprs)]
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::*;
type V1 = PointN<f64, 1>;
type V2 = PointN<f64, 2>;
type V3 = PointN<f64, 3>;
fn p1(x: f64) -> V1 { PointN::new([x]) }
fn p2(x: f64, y: f64) -> V2 { PointN::new([x, y]) }
fn p3(x: f64, y: f64, z: f64) -> V3 { PointN::new([x, y, z]) }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = ns["SEEDS"]
    W = "/tmp/seedwork/w"
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    for sid in (sys.argv[2:] or seeds):
        s = seeds[sid]
        shutil.rmtree(W, ignore_errors=True)
        sh("mkdir -p /tmp/seedwork && cp -a /repo " + W)
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(s.get("shell") or DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        if s.get("demo"): open(d + "/demo.rs", "w").write(HEAD + s["demo"].lstrip("\n"))
        with open(d + "/meta.json", "w") as f: json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
        bad = []
        r = sh("bash %s/demo.sh" % d, cwd=W)
        if r.returncode != 0: bad.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-1500:])
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1: bad.append("%d matches of %r in %s" % (t.count(old), old[:60], f))
            open(p, "w").write(t.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        r = sh("cargo test --workspace --no-fail-fast --offline --lib --bins --tests; cargo test --workspace --offline --doc; cargo build --offline --examples", cwd=W, env=env)
        ok, fail = set(re.findall(r"^test (\S+) \.\.\. ok", r.stdout, re.M)), set(re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M))
        if fail or len(ok) < 25: bad.append("tests: %d ok, failed %s %s" % (len(ok), sorted(fail), "" if ok else r.stderr[-1500:]))
        r = sh("bash %s/demo.sh" % d, cwd=W)
        if r.returncode == 0: bad.append("demo passes with the change")
        elif not s.get("compile") and ("error[" in r.stderr or "could not compile" in r.stderr): bad.append("demo does not compile with the change" + r.stderr[-800:])
        print(sid, s["prop"], "CONFIRMED" if not bad else "REJECTED " + " | ".join(bad), flush=True)
        if bad: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
main()
