#!/usr/bin/env python3
"""tools/plant.py FILE.py [id...]: turn bug descriptions into /verif/seeded/<id>/.

FILE.py defines BUGS = [dict(id, prop, needs, what, file, edits=[(old, new)...], demo=rust)].
Each is applied to a scratch copy of /repo, must build, pass the stable tests, and its
demonstration must pass without and fail with the change; only then it is kept."""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
DEMO_SH = r'''#!/bin/sh
# usage: cd REPO && sh demo.sh     exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
financelib = { path = "$repo" }
chrono = "*"
serde_json = "*"
ron = "*"
[profile.dev]
debug = 0
EOF
cd "$d" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$d/target}" cargo run -q --offline
'''
PRE = '''#![allow(unused)]
use financelib::*;
use financelib::statements::{*, BsType::*, PlType::*, CfType::*, FinOthersTyp::*};
use chrono::naive::NaiveDate;
use std::collections::*;
fn dt(y: i32, m: u32, d: u32) -> NaiveDate { NaiveDate::from_ymd_opt(y, m, d).unwrap() }
fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * b.abs().max(1e-300) }
fn accounts() -> Accounts {
    Accounts { currency: Currency::USD, consolidated: true, dates: BTreeSet::new(), balance_sheet: BTreeMap::new(),
        profit_loss: BTreeMap::new(), cash_flow: BTreeMap::new(), others: BTreeMap::new() }
}
fn quiet_panic<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
'''
# only names that exist / are not ambiguous are used by each demo
def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    repo = SCRATCH + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    stable = json.load(open("/opt/vp/BASELINE.json"))
    env = {"CARGO_TARGET_DIR": repo + "/target", "DEMO_TARGET_DIR": SCRATCH + "/demo", "CARGO_NET_OFFLINE": "true", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}
    for b in bugs:
        if only and b["id"] not in only: continue
        out = os.path.join(SCRATCH, b["id"]); os.makedirs(out)
        sh(["git", "checkout", "-q", "--", "."], repo)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        open(out + "/demo.rs", "w").write(PRE + b["demo"].strip() + "\n")
        rc, o = sh(["sh", out + "/demo.sh"], repo, env)
        if rc: print("BAD-CLEAN", b["id"], o[-1500:]); continue
        ok = True
        edits = b["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            p = os.path.join(repo, "src", f); s = open(p).read()
            if s.count(old) != 1: print("BAD-EDIT", b["id"], s.count(old), old); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        rc, o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "-q"], repo, env)
        if rc: print("BAD-TESTS", b["id"], o[-2500:]); continue
        rc, o = sh(["sh", out + "/demo.sh"], repo, env)
        if rc == 0 or "error[" in o or "could not compile" in o: print("BAD-DEMO", b["id"], rc, o[-1500:]); continue
        _, diff = sh(["git", "diff"], repo)
        dst = os.path.join(ROOT, "seeded", b["id"]); shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        for n in ("demo.sh", "demo.rs"): shutil.copy(out + "/" + n, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(dst + "/meta.json", "w"), indent=1)
        print("ok", b["id"], flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)
main()
