"""Builds /verif/seeded/<id> from tools/seedsrc/<id>.py (EDITS, PROPERTY, NEEDS,
BREAKS, DEMO), confirming everything a planted bug needs, and runs the check."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = '''#!/bin/bash
. /opt/vp/env.sh
export PYTHONPATH="/opt/vp/plugins:$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main(sid, skip_tests=False):
    ns = {}
    ns["PRE"] = open(f"{V}/tools/seedsrc/prelude.txt").read(); exec(open(f"{V}/tools/seedsrc/{sid}.py").read(), ns)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write("import no_xpress\n" + ns["DEMO"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(SH); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd=R)
    ok = r.returncode == 0
    print(sid, "demo clean rc", r.returncode, "" if ok else (r.stdout + r.stderr)[-1500:])
    try:
        for f, a, b in ns["EDITS"]:
            p = f"{R}/{f}"; s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        r = sh(f"bash {d}/demo.sh", cwd=R)
        print(sid, "demo patched rc", r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:])
        ok &= r.returncode != 0
        if not skip_tests:
            out = tempfile.mktemp(suffix=".json")
            r = sh(f"bash /opt/vp/test.sh {out}")
            t = json.load(open(out)); os.unlink(out)
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("tests", base) if isinstance(base, dict) else base
            ps = t.get("passed", t) if isinstance(t, dict) else t
            print(sid, "tests", r.stdout.strip().splitlines()[-1:] )
            ok &= "314 passed" in r.stdout
        r = sh(f"./check {ns['PROPERTY']}", cwd=V)
        print(sid, "check rc", r.returncode, r.stdout.strip()[-400:])
    finally:
        sh("git -C /repo checkout -- .")
    print(sid, "COUNTS" if ok else "DOES NOT COUNT", "| caught" if r.returncode == 1 else "| MISSED")
for s in sys.argv[1:]:
    if s != "-n": main(s, "-n" in sys.argv)
