#!/usr/bin/env python3
"""tools/mktable.py: the table of planted bugs in DESIGN.md, from seeded/."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)).split("-", 1)[1])
n = sum(map(len, rows.values()))
t = "| caught by | planted bugs (%d) |\n|---|---|\n" % n + "".join(f"| {p} | {', '.join(b)} |\n" for p, b in sorted(rows.items()))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- end -->", lambda _: f"<!-- bugs -->\n{t}<!-- end -->", s, flags=re.S)
s = re.sub(r"holds (\w+) bugs", f"holds {n} bugs", s)
open(p, "w").write(s)
