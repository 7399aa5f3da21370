"""Equivalence self-test of the interpreter: groups of functions that must
compare equal (=), must differ (!), within a group against the first one."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vstat.program import Program, Module
from vstat.absint import Interp
from vstat.compare import compare, Observe
import glob
def main():
    bad = 0
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "selftest", "*.py"))):
        p = Program(); m = Module("m", "m", open(f).read()); p._index(m)
        fs = list(m.funcs.values())
        groups = {}
        for x in fs:
            groups.setdefault(x.name.split("_")[0], []).append(x)
        for g, xs in groups.items():
            I = Interp(p)
            ref = I.summarize(xs[0])
            for x in xs[1:]:
                s = I.summarize(x)
                ds = compare(I, s, ref, Observe(raises="class"))
                vs = {d.verdict for d in ds}
                want = x.name.split("_")[1][0]   # e(qual) d(iff) u(ndecided or equal)
                got = "d" if "violated" in vs else "u" if vs else "e"
                ok = want == got or want == "u" and got == "e"
                if not ok:
                    bad += 1
                    print("FAIL", os.path.basename(f), x.name, "got", got, [repr(d)[:300] for d in ds][:2])
    print("failures", bad)
main()
