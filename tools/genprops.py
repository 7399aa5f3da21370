#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so that
the wording, the anchors and the checks stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
T = "terragraph_planner/"
exec(open(os.path.join(os.path.dirname(__file__), "props_table.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
