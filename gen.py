#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: events are recorded at the API boundary, at overridable virtual functions and by link-time wrapping "
              "of lock/notify calls. Commits in /repo are 'fix:' commits only (known_findings.txt)."}
for p in PROPS:
    if p["id"] not in CHECKS: continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"] + " quick",
                        "thorough_cmd": "python3 check.py " + p["id"] + " thorough",
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                        "level": CHECKS[p["id"]].get("level", "exploration"), "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
