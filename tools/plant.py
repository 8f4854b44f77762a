#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates /verif/seeded/<ID> from tools/bugs.py in a scratch
clone of /repo, keeping a change only if it builds, passes the existing tests, and its
demonstration passes without it and fails with it.
plant.py --run ID [CHECK...]: applies a kept change to /repo, runs the checks, undoes it."""
import os, re, subprocess, sys, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant"
R = f"{SC}/repo"
SEED = "/verif/seeded"

DEMO = '''#!/bin/bash
# run in the repository: exit 0 where the property holds, nonzero where it is broken
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
d="$(mktemp -d)"; trap '/bin/rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redox-ecc = { path = "$repo" }
num-bigint = "0.4.3"
num-traits = "0.2.14"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline @FLAGS@
'''
PRE = '''#![allow(unused_imports, dead_code)]
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::*;
use redox_ecc::quadraticfield::*;
use redox_ecc::{edwards, montgomery, weierstrass};
fn big(s: &str) -> BigInt { s.parse().unwrap() }
fn bu(n: u64) -> BigUint { BigUint::from(n) }
fn p25519() -> BigUint { (BigUint::one() << 255usize) - 19u32 }
fn refused<T>(f: impl FnOnce() -> T) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
'''


def sh(cmd, cwd=R, **env):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{SC}/target", **env)
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def fresh():
    if not os.path.isdir(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
        shutil.copy("/repo/Cargo.lock", R)
    subprocess.check_call("git fetch -q origin && git reset -q --hard origin/HEAD && git checkout -q -- .", shell=True, cwd=R)


def demo(d):
    p = subprocess.run(["bash", f"{d}/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def plant(b):
    fresh()
    d = f"{SC}/new/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/demo.rs", "w").write(PRE + b["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@FLAGS@", b.get("flags", "")))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    rc, out = demo(d)
    if rc != 0:
        return f"demo fails on the unchanged tree:\n{out[-1500:]}"
    for f, old, new in b["edits"]:
        p = f"{R}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    rc, out = sh("git diff")
    open(f"{d}/patch.diff", "w").write(out)
    rc, out = sh("cargo test --offline --workspace -q 2>&1")
    if rc != 0:
        return "tests fail:\n" + out[-2500:]
    warn = "warning" in out
    rc, out = demo(d)
    if rc == 0:
        return "demo passes with the change"
    fresh()
    shutil.rmtree(f"{SEED}/{b['id']}", ignore_errors=True)
    shutil.copytree(d, f"{SEED}/{b['id']}")
    return None if not warn else None


def run(bid, checks):
    d = f"{SEED}/{bid}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    checks = checks or [prop]
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{d}/patch.diff"])
    try:
        for c in checks:
            p = subprocess.run(["/verif/run.sh", c, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            o = [l for l in p.stdout.splitlines() if l.startswith(("observed", "VIOLATION", "no verdict"))]
            print(f"{bid} {c} exit={p.returncode} {' '.join(o)[:400]}", flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])


if __name__ == "__main__":
    if sys.argv[1:2] == ["--run"]:
        run(sys.argv[2], sys.argv[3:])
    else:
        from bugs import BUGS
        for b in BUGS:
            if not sys.argv[1:] or b["id"] in sys.argv[1:]:
                e = plant(b)
                print(b["id"], "kept" if e is None else "REJECTED " + e, flush=True)
