#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules."""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(H, "harness", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
        continue
    b = o = ""
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
            v = ast.literal_eval(n.value)
            if n.targets[0].id == "BOUNDS":
                b = v
            else:
                o = v
    checks.append(dict(
        property=i, quick_cmd="./check.py %s" % i, thorough_cmd="./check.py %s --thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the real Python/Cython sources, goals decided by z3",
        level="other",
        level_note="Holds for all values within the bounds: %s. Not covered: %s. Real-number semantics (no rounding); numpy, scipy and "
        "linear algebra are used through models or contracts written in symx/. Counterexamples are replayed on the real package." % (b, o or "-")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo. See DESIGN.md."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
