#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "technique.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if glob.glob(os.path.join(V, "checks", i, "*.cpp")):
        checks.append(dict(property=i, quick_cmd="./run.py %s --tier quick" % i, thorough_cmd="./run.py %s --tier thorough" % i,
            technique=TECH[i], level="exploration", level_note=NOTE.get(i, "Randomised exploration: no violation among the generated cases; absence of bugs outside the generated domain is not established. Trusts the reference implementations in /verif/lib and g++ -O1 double arithmetic.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes="Property-based testing / fuzzing only; see DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
