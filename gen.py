#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py, checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from props import PROPS
import checks
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in PROPS))
cl = []
for p in PROPS:
    c = checks.CHECKS.get(p["id"])
    if not c:
        continue
    cl.append(dict(property=p["id"], quick_cmd="./mcv check %s --tier quick" % p["id"], thorough_cmd="./mcv check %s --tier thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["note"]))
missing = set(checks.CHECKS) - set(ids); assert not missing, missing
na = [dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "no check is built for it yet")) for i in ids if i not in checks.CHECKS]
m = dict(version=1, setup_cmd="./mcv setup", checks=cl, not_applicable=na,
         notes="mcv compiles the sources of /repo's working tree into /verif/build and explores them; no hooks in /repo are needed. gen.py writes this file.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(PROPS), "properties", len(cl), "checks", len(na), "unclaimed")
