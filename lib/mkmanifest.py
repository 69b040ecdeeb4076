#!/usr/bin/env python3
"""Write MANIFEST.json from lib/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    if p not in PROPS:
        NA.setdefault(p, "No check built yet.")
        continue
    d = PROPS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 run.py {p} --tier quick",
                       thorough_cmd=f"python3 run.py {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json",
                       technique=d["technique"], level="exploration", level_note=d["note"]))
m = dict(version=1,
         setup_cmd="python3 run.py setup",
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="See DESIGN.md. No hooks are needed: every check uses the crate's public API.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
