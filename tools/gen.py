#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/runs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, runs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.PROPS:
    s = runs.RUNS.get(p["id"])
    if s:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           technique=s["technique"], level=s["level"], level_note=s["note"]))
    else:
        na.append(dict(property=p["id"], reason=runs.NOT_APPLICABLE.get(p["id"], "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="EISVOGEL_VERIF_HOOKS", enable="no hooks are needed: the harnesses include the sources of /repo directly and observe them at their interfaces", source_commits=[]),
         notes="Every check compiles its harnesses from the current working tree of /repo; see DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
