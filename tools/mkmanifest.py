#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
out, na = [], []
for p in props:
    i = p["id"]
    if i in checks.TABLE and i in NOTES:
        out.append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
                        evidence_file="evidence/%s.json" % i, technique=NOTES[i]["technique"], level="model_checking", level_note=NOTES[i]["note"]))
    else:
        na.append(dict(property=i, reason="its check is still being built"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=out, not_applicable=na,
               notes="All checks are bin/check ID; see DESIGN.md. No hooks: the harness uses the exported API only."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
