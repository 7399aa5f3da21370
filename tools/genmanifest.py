"""Writes MANIFEST.json from properties.jsonl and the existing checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())
TECH = {}
out = {"version": 1, "setup_cmd": "python3 --version", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        out["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
            "technique": TECH.get(i, "static analysis: abstract interpretation of the source into guarded-effect summaries, compared with reference summaries; whole-program writer/call queries"),
            "level": "other", "level_note": LEVEL.get(i, "decided from the source of every named function on every path; undecided constructs are listed in the evidence and give no verdict")})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no static check for this property has been built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks", len(out["not_applicable"]), "n/a")
