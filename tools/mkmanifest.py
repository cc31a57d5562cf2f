#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import suites
TECH = "TLA+ (TLC): model checking of the specification plus trace validation of recorded executions of the real code"
NOTE = {}
try:
    from notes import NOTE
except ImportError:
    pass
DEF = ("Every execution the drivers produce from the real code is accepted only if it is a behaviour of the TLA+ "
       "specification; bounded by the executions generated (seeded) and the model bounds in spec/*.cfg. Trusts TLC, "
       "SQLite's own atomicity, the kernel and the libc-level recorder in harness/src/shim.rs.")
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if suites.CHECKS.get(p, {}).get("suites"):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": suites.CHECKS[p].get("technique", TECH), "level": "model_checking",
                       "level_note": suites.CHECKS[p].get("note", DEF)})
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specification in TLA+ under spec/, checked with TLC. No hooks in /repo: the harness defines the libc "
                    "symbols itself. Known findings and repaired defects: known_findings.json."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
