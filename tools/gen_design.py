#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from
properties.jsonl, tools/methods.py and the harness modules' bounds), the table
of planted bugs (seeded/*/meta.json, tools/detected.json), tools/design_tail.md."""
import ast
import glob
import json
import os
import runpy

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(H, "tools")
M = runpy.run_path(os.path.join(T, "methods.py"))["METHODS"]
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## Property by property", ""]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    b = {}
    for n in ast.parse(open(os.path.join(H, "harness", i.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
            b[n.targets[0].id] = ast.literal_eval(n.value)
    out += ["### %s %s" % (i, p["title"]), "", M[i][0].strip(), "",
            "- Oracle: " + M[i][1].strip(),
            "- Bounds: " + b.get("BOUNDS", "") + ".",
            "- Outside: " + b.get("OUTSIDE", "-") + ".",
            "- Beyond the tests: " + M[i][2].strip(), ""]
d = os.path.join(T, "detected.json")
det = json.load(open(d)) if os.path.exists(d) else {}
out += ["## Planted bugs and what catches them", "",
        "Kept under `seeded/` (patch, demonstration, meta); each passes the repository's stable tests.", "",
        "| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), det.get(i, "not run")))
out += ["", open(os.path.join(T, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
print(len(out))
