#!/usr/bin/env python3
"""reverts.py [ID...]: undo each recorded fix alone, in a scratch clone of /repo, and run that property's quick check.
Every fix that still reverts cleanly should be reported again (exit 1). Not registered in MANIFEST.json: a tool for
whoever changes the harnesses. Prints one line per fix."""
import os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("VERIF_REPO", "/repo")
want = set(sys.argv[1:])
run = lambda *c, **k: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
seen = set()
for line in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) ([0-9a-f]+) (.*)", line)
    if not m or (want and m[1] not in want and m[2] not in want) or (m[1], m[2]) in seen:
        continue
    seen.add((m[1], m[2]))
    d = tempfile.mkdtemp(prefix="revert.")
    try:
        run("git", "clone", "-q", repo, d + "/r")
        r = run("git", "-C", d + "/r", "revert", "-n", m[2])
        if r.returncode:
            print("SKIP  ", m[1], m[2], "(does not revert alone)", m[3][:90], flush=True)
            continue
        c = run("python3", V + "/check.py", m[1], "quick", env=dict(os.environ, VERIF_REPO=d + "/r"))
        keys = sorted(set(re.findall(r"violated: (\S+)", c.stdout)))[:4]
        print({0: "MISSED", 1: "caught", 2: "ERROR "}.get(c.returncode, "rc%d" % c.returncode), m[1], m[2], m[3][:90],
              keys if c.returncode == 1 else c.stdout[-300:] if c.returncode else "", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
