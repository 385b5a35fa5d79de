#!/usr/bin/env python3
"""tools/hunt.py [--copy DIR] [id...]: apply each planted bug to /repo, run its property's quick check, undo.
With --copy, both repositories are copied under DIR first and the hunt goes on there."""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, args, SEEDED = "/repo", sys.argv[1:], ROOT + "/seeded"
if args[:1] == ["--copy"]:
    top, args = args[1], args[2:]
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(ROOT, top + "/verif", ignore=shutil.ignore_patterns("run-*", "replays", "evidence", "_apalache-out"))
    subprocess.check_call(["git", "clone", "-q", "/repo", top + "/repo"])
    shutil.copy("/repo/Cargo.lock", top + "/repo/Cargo.lock") if os.path.exists("/repo/Cargo.lock") else None
    c = top + "/verif/harness/Cargo.toml"
    s = open(c).read()
    assert '"/repo"' in s
    open(c, "w").write(s.replace('"/repo"', f'"{top}/repo"'))
    ROOT, REPO = top + "/verif", top + "/repo"
KEEP = {"VERIF_KEEP_TRACES": ROOT + "/.build/kept"} if REPO != "/repo" else {}
assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain", "-uno"]).strip(), REPO + " is not clean"
ids = args or sorted(os.listdir(SEEDED))
missed = []
for b in ids:
    d = f"{SEEDED}/{b}"
    prop = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    try:
        subprocess.check_call(["git", "-C", REPO, "apply", d + "/patch.diff"])
        p = subprocess.run([ROOT + "/bin/check", prop, "quick"], cwd=ROOT, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", **KEEP}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    v = re.findall(r"^VIOLATION.*$", p.stdout, re.M)
    ok = p.returncode == 1 and any(f"property={prop} " in x for x in v)
    if not ok: missed.append(b)
    why = [l for l in p.stdout.splitlines() if "VIOLATION" not in l][-3:]
    print(f"{'caught' if ok else 'MISSED rc=%d' % p.returncode} {b} ({prop}) {time.time()-t:.0f}s :: {' | '.join(why)[:300]}", flush=True)
print("missed:", missed)
