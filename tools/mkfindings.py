#!/usr/bin/env python3
"""Writes known_findings.json: the fixed list from the fix: commits of /repo
(property of each by a phrase of its subject), the open ones from OPEN."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fix_properties.json")))
OPEN = json.load(open(os.path.join(V, "tools", "open_findings.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "HEAD"], text=True)
fixed = []
for line in log.splitlines():
    h, _, s = line.partition(" ")
    if not s.startswith("fix:"):
        continue
    ps = [p for k, p in PROP.items() if k in s]
    assert len(ps) == 1, (s, ps)
    fixed.append(f"fixed: property={ps[0]} {h} {s[4:].strip()}")
json.dump(dict(findings=OPEN, fixed=fixed), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed,", len(OPEN), "open")
