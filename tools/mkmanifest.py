#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os
from registry import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
MC = ("Quint specification (spec/{s}.qnt): invariants on every simulated state; every generated behaviour replayed "
      "in the real library with the state compared after each step")
NOTE_MC = ("Bounded evidence: all behaviours explored conform; not a proof for all inputs. Trusts the specification, "
           "the Quint simulator and the replay driver.")
checks = []
for p in ids:
    if p not in PROPS:
        continue
    P = PROPS[p]
    specs = ", ".join(dict.fromkeys(x["spec"] for x in P["parts"]))
    tech = "model-based: " + MC.format(s=specs)
    if any(o.get("tool") == "tlc" for o in P.get("verify", [])):
        tech += "; exhaustive TLC run of the specification"
    if any(o.get("tool") != "tlc" for o in P.get("verify", [])):
        tech += "; Apalache obligation over unbounded integers"
    checks.append({"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
                   "technique": tech, "level": P["level"], "level_note": P.get("note", NOTE_MC)})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "not claimed yet: its specification module is still to be written"}
                        for p in ids if p not in PROPS],
     "notes": "Quint specifications in spec/, conformance driver in harness/, runner bin/check; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
