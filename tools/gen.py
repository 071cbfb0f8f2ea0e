#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import P
P.sort(key=lambda p: p["id"])
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "checks", p["id"] + ".ts")):
        checks.append(dict(property=p["id"], quick_cmd=f"./run.sh check.ts {p['id']}", thorough_cmd=f"./run.sh check.ts {p['id']} --thorough", technique=p["tech"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "No check has been built for it yet.")))
m = dict(version=1, setup_cmd="./run.sh tools/setup.ts", checks=checks, not_applicable=na,
         notes="Checks run the TypeScript of /repo's working tree directly under Deno with virtual time; no build product is used.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "without")
