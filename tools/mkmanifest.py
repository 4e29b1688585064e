#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json from the tables below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import props
from tools.notes import NOTES, NOT_APPLICABLE, FIXED
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.TABLE:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "the check for this property is not built yet")) for i in ids if i not in props.TABLE]
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check compiles the headers of /repo's working tree into its own harness. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        what = s[5:]
        for p in FIXED[what].split():
            fixed.append("fixed: property=%s %s %s" % (p, h, what))
json.dump(dict(findings=[], fixed=sorted(fixed)), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable,", len(fixed), "fixed")
