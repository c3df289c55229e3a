#!/usr/bin/env python3
"""setup_cmd: nothing to install; checks the tools and pre-builds the shared precompiled headers and library objects."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for t in ("g++", "ld"):
    if not shutil.which(t): sys.exit("missing " + t)
try:
    seen = set()
    for c in check.CHECKS.values():
        for r in c["runs"]:
            key = (r["variant"], str(c["sources"]), str(r.get("defs", ())))
            if key in seen or r.get("thorough_only"): continue
            seen.add(key)
            check.build(r["variant"], c["harness"], check.sources(c["sources"]), r.get("defs", ()), r.get("wrap", ()))
except check.BuildError as e:
    print("warning: prebuild failed; the checks build for themselves\n", str(e)[-2000:])
print("setup done")
