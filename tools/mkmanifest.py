#!/usr/bin/env python3
"""Writes MANIFEST.json; run from /verif after the set of checks changes."""
import json
import os
import sys

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "lib")
import claims  # noqa: E402

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in ids:
    if p in claims.CLAIMS:
        tech, level, note = claims.CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": claims.NA.get(p, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks link harness/shim.c with /repo's sources", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, bound to the real programs by trace validation and replay; see DESIGN.md"},
          open("MANIFEST.json", "w"), indent=1)
