#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below, so that the two stay in step.
A property is claimed when bin/props.py has a simulator for it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS

P = []   # id, title, statement, over, quantifier text, why, files, mechanisms, observe
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})
exec(open(os.path.join(V, "bin", "meta_props.py")).read())

LEVEL = {}
NOTE = {}
NA = {}
exec(open(os.path.join(V, "bin", "meta_checks.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, TECHD), "level": LEVEL.get(i, "exploration"),
                       "level_note": NOTE.get(i, NOTED)})
    else:
        na.append({"property": i, "reason": NA.get(i, "simulator not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na, "notes": NOTES,
           "hooks": {"guard": "none", "enable": "no hooks: the simulator interposes through the compiler's own instrumentation and symbol renaming, /repo carries no instrumentation", "source_commits": []}},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
