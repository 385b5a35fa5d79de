#!/usr/bin/env python3
"""tools/mutants.py FILE.py DIR [property or property/name ...]: a quick hunt without demonstrations.

Copies both repositories under DIR, applies each change of FILE.py there, and reports whether the stable tests
already notice it and whether its property's quick check does."""
import os, re, runpy, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mutants = runpy.run_path(sys.argv[1])["M"]
top, only = sys.argv[2], sys.argv[3:]
shutil.rmtree(top, ignore_errors=True)
shutil.copytree(ROOT, top + "/verif", ignore=shutil.ignore_patterns("run-*", "replays", "evidence", "_apalache-out", "seeded", ".git"))
subprocess.check_call(["cp", "-a", "/repo", top + "/repo"])
subprocess.check_call(["git", "-C", top + "/repo", "checkout", "-q", "--", "."])
c = top + "/verif/harness/Cargo.toml"
s = open(c).read(); assert '"/repo"' in s
open(c, "w").write(s.replace('"/repo"', f'"{top}/repo"'))
os.makedirs(top + "/traces")
repo, missed, last = top + "/repo", [], ""
def report(what, name, more=""): print(f"{what:8} {name} {more}", flush=True)
for prop, name, file, edits in mutants:
    full = f"{prop}/{name}"
    if only and prop not in only and full not in only: continue
    if prop != last: shutil.rmtree(top + "/traces"); os.makedirs(top + "/traces"); last = prop
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    p = f"{repo}/src/{file}"; src = open(p).read(); bad = None
    for e in edits:
        old, new, which = (*e, None)[:3]
        n = src.count(old)
        if which is None and n == 1: src = src.replace(old, new)
        elif which is not None and n > which:
            parts = src.split(old)
            src = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
        else: bad = f"{n} times: {old[:60]!r}"
    if bad: report("BAD-EDIT", full, bad); continue
    open(p, "w").write(src)
    t = subprocess.run(["cargo", "test", "--offline", "-q", "--no-fail-fast"], cwd=repo, env={**os.environ, "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if "error" in t.stdout and "could not compile" in t.stdout:
        report("BAD-CODE", full, " ".join(re.findall(r"^error.*", t.stdout, re.M)[:2])); continue
    if t.returncode: report("tested", full, " ".join(re.findall(r"^    (\w+::\w+\S*)$", t.stdout, re.M)[:3])); continue
    t0 = time.time()
    r = subprocess.run([top + "/verif/bin/check", prop, "quick"], cwd=top + "/verif", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_KEEP_TRACES": top + "/traces"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
    if not ok: missed.append(full)
    report("caught" if ok else "MISSED", full, f"rc={r.returncode} {time.time() - t0:.0f}s")
print("missed:", *missed)
shutil.rmtree(top, ignore_errors=True)
