#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
from registry import CHECKS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        mod, fn, rule, prog, tech, note = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                       "thorough_cmd": "python3 check.py " + p,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1,
           "setup_cmd": "python3 sa/load.py --prefetch",
           "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the resolved program (clang libTooling extractor, value-graph engine in "
                    "sa/). Obligations that cannot be interpreted are reported as undecided in the evidence and "
                    "never raise an alarm. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
