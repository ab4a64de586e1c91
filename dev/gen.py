#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from dev/props.py (one table).  Run after editing that table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
from props import PROPS
checks, na, lines = [], [], []
for p in PROPS:
    mech = [dict(name=n, where=w) for n, w in p["mechanism"]]
    anch = dict(files=p["files"], mechanism=mech)
    for k in ("state", "observe_at"):
        if k in p:
            anch[k] = p[k]
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                 quantifier=dict(over=p["over"], text=p["forall"]),
                                 why_tests_cant=p["why"], anchors=anch)))
    if "na" in p:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other", level_note=p["note"]))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="All checks are static analyses of /repo's current C/C++ sources (clang AST/CFG facts exported by tool/kosfacts.cpp, decided by the analyses in engine/). No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
