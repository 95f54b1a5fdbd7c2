#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (one check per property)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the real Python functions (pyvc: VCs from /repo/src, z3/cvc5); bounded end-to-end evaluation as labelled stand-in"
LEVEL: dict = {}
NOTE: dict = {}
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
checks = []
for p in sorted(LEVEL):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": T, "level": LEVEL[p], "level_note": NOTE[p]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "see DESIGN.md; every check rebuilds its verification conditions from /repo/src on every run"},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
