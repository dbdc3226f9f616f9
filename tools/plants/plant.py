#!/usr/bin/env python3
"""plant.py [ID...]: writes /verif/seeded/ID/{patch.diff,demo.sh,meta.json,...} from bugs.py; the edits are made in a scratch worktree."""
import json, os, subprocess, sys, textwrap
sys.path.insert(0, os.path.dirname(__file__))
import bugs
OUT = "/verif/seeded"
WT = "/tmp/plant-wt"

RUST_SH = r'''#!/bin/bash
# cwd: the repository. Builds demo.rs against it in a scratch directory; exit 0 when the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$T/target CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs" || exit 2
cat >"$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sparseglm = { path = "$REPO" }
ndarray = { version = "0.15", default-features = false }
[profile.dev]
debug = 0
opt-level = 1
[workspace]
E
cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" && cargo build --offline -q 2>"$T/log" || { tail -20 "$T/log"; exit 2; }
timeout 120 "$T/target/debug/demo" >"$T/out" 2>&1
RC=$?
tail -3 "$T/out"
exit $RC
'''
PY_SH = r'''#!/bin/bash
# cwd: the repository, built. Exit 0 when the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/python PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec timeout 120 /opt/vp/venv/bin/python "$HERE/demo.py"
'''
RUST_PRE = '''#![allow(non_snake_case, unused_imports, dead_code)]
use ndarray::prelude::*;
use sparseglm::datafits::{multi_task::*, single_task::*};
use sparseglm::datasets::{csc_array::CSCArray, *};
use sparseglm::estimators::{estimators::*, hyperparams::*, param_guard::ParamGuard, traits::Fit};
use sparseglm::penalties::{block_separable::*, separable::*};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::utils::{helpers::*, prox_funcs::*};

fn ok(cond: bool, what: &str) {
    if !cond {
        println!("WRONG: {}", what);
        std::process::exit(1);
    }
}
fn rnd(seed: u64, len: usize) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(12345);
    (0..len)
        .map(|_| {
            let mut a = 0.0;
            for _ in 0..4 {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                a += (s >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
            }
            a * 1.7
        })
        .collect()
}
fn mat(seed: u64, n: usize, p: usize) -> Array2<f64> {
    Array2::from_shape_vec((n, p), rnd(seed, n * p)).unwrap()
}
fn csc(x: &Array2<f64>) -> (Array1<f64>, Array1<i32>, Array1<i32>) {
    let (mut d, mut i, mut p) = (vec![], vec![], vec![0]);
    for c in x.columns() {
        for (r, &v) in c.iter().enumerate() {
            if v != 0.0 {
                d.push(v);
                i.push(r as i32);
            }
        }
        p.push(d.len() as i32);
    }
    (Array1::from(d), Array1::from(i), Array1::from(p))
}
fn gap(a: &Array2<f64>, b: &Array2<f64>) -> f64 {
    a.iter().zip(b).fold(0.0, |m, (x, y)| f64::max(m, (x - y).abs()))
}
fn gap1(a: &Array1<f64>, b: &Array1<f64>) -> f64 {
    a.iter().zip(b).fold(0.0, |m, (x, y)| f64::max(m, (x - y).abs()))
}
/// largest distance to optimality of 1/(2n)||Y - XW||^2 + alpha (r ||.||_21 + (1-r)/2 ||.||^2)
fn kkt(x: &Array2<f64>, y: &Array2<f64>, w: &Array2<f64>, alpha: f64, r: f64) -> f64 {
    let g = x.t().dot(&(x.dot(w) - y)) / x.nrows() as f64;
    let mut worst: f64 = 0.0;
    for j in 0..x.ncols() {
        let nw = w.row(j).dot(&w.row(j)).sqrt();
        let d = if nw == 0.0 {
            (g.row(j).dot(&g.row(j)).sqrt() - alpha * r).max(0.0)
        } else {
            let v = &g.row(j) + &(&w.row(j) * (alpha * r / nw + alpha * (1.0 - r)));
            v.dot(&v).sqrt()
        };
        worst = if d.is_nan() { f64::INFINITY } else { worst.max(d) };
    }
    worst
}
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, check=True, text=True, capture_output=True, **kw).stdout

def main():
    want = sys.argv[1:]
    subprocess.run("git -C /repo worktree remove --force %s" % WT, shell=True, capture_output=True)
    sh("git -C /repo worktree add --detach %s HEAD" % WT)
    try:
        for b in bugs.BUGS:
            if want and b["id"] not in want: continue
            for f, old, new in b["edits"]:
                p = WT + "/" + f
                s = open(p).read()
                nth = 0
                if isinstance(old, tuple): old, nth = old
                if old not in s: raise SystemExit("%s: %r not in %s" % (b["id"], old, f))
                if nth == 0 and s.count(old) != 1: raise SystemExit("%s: %r occurs %d times in %s" % (b["id"], old, s.count(old), f))
                parts = s.split(old)
                k = max(nth, 1)
                s = old.join(parts[:k]) + new + old.join(parts[k:])
                open(p, "w").write(s)
            d = sh("git diff", cwd=WT)
            cur = None
            for l in d.splitlines():
                if l.startswith("--- a/"): cur = sh("git show 21031d6:" + l[6:], cwd=WT).splitlines()
                elif l.startswith("-") and not l.startswith("---") and l[1:] not in cur: print("!!", b["id"], "changes a line of a later commit:", l)
            sh("git checkout -q -- .", cwd=WT)
            dd = "%s/%s" % (OUT, b["id"])
            os.makedirs(dd, exist_ok=True)
            open(dd + "/patch.diff", "w").write(d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dd + "/meta.json", "w"), indent=1)
            if "rust" in b:
                open(dd + "/demo.sh", "w").write(RUST_SH)
                open(dd + "/demo.rs", "w").write(RUST_PRE + "\n" + textwrap.dedent(b["rust"]).strip() + "\n")
            else:
                open(dd + "/demo.sh", "w").write(PY_SH)
                open(dd + "/demo.py", "w").write(textwrap.dedent(b["py"]).strip() + "\n")
            os.chmod(dd + "/demo.sh", 0o755)
            print("planted", b["id"])
    finally:
        sh("git -C /repo worktree remove --force %s" % WT)
main()
