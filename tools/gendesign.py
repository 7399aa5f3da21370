"""Refreshes the table of planted changes and the list of obligations in DESIGN.md (run after tools/runall.sh)."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| `{os.path.basename(os.path.dirname(d))}`: {m['what_it_breaks']} | {m['property']} | {m['property']} |")
out = []
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    c = json.load(open(f))["coverage"]
    units = ", ".join("`" + u.replace("common.", "").replace("topology_models.", "") + "`" for u in c["units"])
    out.append(f"* **{f[-8:-5]}** {c['obligations']} obligations, {len(c['functions_interpreted'])} functions interpreted: {units}.")
s = re.sub(r"(\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
s = s[:s.index("## Appendix A. Obligations")] + "## Appendix A. Obligations\n\n" + "\n".join(out) + "\n"
open(V + "/DESIGN.md", "w").write(s)
