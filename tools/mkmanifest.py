#!/usr/bin/env python3
"""Writes MANIFEST.json from the claim table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NA
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
TECH = "symbolic execution of the Go SSA form of the real code, SMT (z3/cvc5)"
checks = []
for p in props:
    if p in CLAIMS and os.path.isdir(H + "/harness/" + p):
        checks.append({"property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking", "level_note": CLAIMS[p]})
na = [{"property": p, "reason": NA.get(p, "no check has been built for it yet")} for p in props if p not in [c["property"] for c in checks]]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harnesses are laid over the packages with an overlay. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
