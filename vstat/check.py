"""Check driver: runs the obligations of one property and writes evidence."""
import importlib
import ast
import json
import os
import sys
import time
import traceback

from . import terms as T
from .program import Program, Module, AnalysisBroken, Func, Cls
from . import absint
from .absint import Interp
from . import compare as C
from .compare import Observe, OK, BAD, UND

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)


class Obligation:
    def __init__(self, oid, rule, unit):
        self.oid, self.rule, self.unit = oid, rule, unit
        self.verdict, self.notes, self.measure = OK, [], {}

    def bad(self, what, where):
        self.verdict = BAD
        self.notes.append((BAD, what, where))

    def und(self, what, where=""):
        if self.verdict == OK:
            self.verdict = UND
        self.notes.append((UND, what, where))


class Ctx:
    def __init__(self, prop, tier, prog=None):
        self.prop, self.tier = prop, tier
        self.p = prog or Program()
        self.obls = []
        self.broken = []
        self.specmods = {}
        self.replaced = set()

    # ------------------------------------------------------------ spec modules
    def spec(self, name):
        """'c04:add_site' -> Func of the reference."""
        mod, _, fn = name.partition(":")
        m = self.specmods.get(mod)
        if m is None:
            path = os.path.join(VERIF, "specs", mod + ".py")
            with open(path) as fh:
                m = Module("vspec." + mod, path, fh.read())
            self.p._index(m)
            private = {}
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "PRIVATE":
                    private = ast.literal_eval(n.value)
            for imp in list(m.imports.values()):
                if imp[0] == "from" and imp[1] and imp[1].startswith("terragraph_planner"):
                    tm = self.p.modules.get(imp[1])
                    if tm is None:
                        if f"{imp[1]}.{imp[2]}" not in self.p.modules:
                            raise AnalysisBroken(f"module {imp[1]} is missing")
                    elif self.p.resolve_name(tm, imp[2]) is None and imp[2] not in tm.imports and f"{imp[1]}.{imp[2]}" not in self.p.modules:
                        if not imp[2].startswith("_"):
                            raise AnalysisBroken(f"{imp[1]}.{imp[2]} is missing")
                        # a private helper that is gone: the reference uses its own version
                        own = private.get(imp[2])
                        if own in m.funcs:
                            for k in [k for k, v in m.imports.items() if v is imp]:
                                del m.imports[k]
                            m.funcs[imp[2]] = m.funcs[own]
                            self.replaced.add(imp[1][len("terragraph_planner."):] + ":" + imp[2])
            self.specmods[mod] = m
        f = m.funcs.get(fn)
        if f is None:
            raise KeyError(name)
        return f

    # ------------------------------------------------------------ anchors
    def find(self, qual):
        """Func, or None for a private helper that no longer exists."""
        if qual.startswith("spec:"):
            return self.spec(qual[5:])
        try:
            return self.p.func(qual)
        except AnalysisBroken:
            last = qual.replace(".setter", "").split(":")[-1].split(".")[-1]
            if last.startswith("_") and not last.startswith("__"):
                return None
            raise

    def obligation(self, oid, rule, unit):
        o = Obligation(oid, rule, unit)
        self.obls.append(o)
        return o

    # ------------------------------------------------------------ equivalence
    def equiv(self, qual, spec, keep=(), obs=None, self_type=None, assume=None, inline_new=(), what="", max_depth=24, no_inline=(), args=None, calls=(), name=None, fields=None):
        """Guarded effects of the code equal those of the reference."""
        obs = obs or Observe(calls=calls)
        o = self.obligation(name or f"{qual}~{spec}" + (f"@{self_type.split(':')[-1]}" if self_type else ""), "guarded-effect summary equals the reference" + (f": {what}" if what else ""), qual)
        try:
            f = self.find(qual)
            if f is None:
                o.und("private anchor no longer exists", qual)
                return o
            sf = self.spec(spec)
            keep = [k for k in keep if k not in self.replaced or self.find(k) is not None]
            for k in keep:
                if self.find(k) is None:
                    o.und("kept private callee no longer exists", k)
                    return o
            stype = self.p.cls(self_type) if self_type else None
            I = Interp(self.p, keep=keep, max_depth=max_depth, inline_new=inline_new, no_inline_modules=no_inline)
            I.new_fields = fields or {}
            act = run_summary(I, f, sf, stype, assume, args, True)
            ref = run_summary(I, f, sf, stype, assume, args, False)
            diffs = C.compare(I, act, ref, obs)
            o.measure = {"effects": len([e for e in act.effects if obs.wants(e)]), "raises": len([e for e in act.effects if e.kind == "raise"])}
            for d in diffs:
                if d.verdict == BAD and not I.cut:
                    o.bad(d.what, d.where)
                else:
                    o.und(d.what, d.where)
        except T.Limit as e:
            if os.environ.get("VSTAT_DEBUG"):
                tb = traceback.extract_tb(sys.exc_info()[2])
                print("LIMIT", [(x.name, x.lineno) for x in tb if "terms.py" not in x.filename][-25:])
            o.und(f"analysis limit: {e}", qual)
        except RecursionError:
            o.und("analysis limit: recursion", qual)
        except AnalysisBroken as e:
            self.broken.append(str(e))
            o.und(str(e), qual)
        except Exception as e:     # an unmodelled construct: not a verdict
            if os.environ.get("VSTAT_DEBUG"):
                traceback.print_exc()
            o.und(f"analysis error {type(e).__name__}: {e}", qual)
        return o

    def formula(self, I, spec):
        """The boolean returned by a reference predicate, over its parameter symbols."""
        sf = self.spec(spec)
        given = {}
        for a in sf.node.args.args + sf.node.args.kwonlyargs:
            t = T.Term("sym", a.arg)
            ty = I.ann_type(a.annotation, sf.module)
            if ty is not None:
                I.types[t] = ty
            given[a.arg] = t
        s = I.summarize_with(sf, None, given, T.TRUE)
        return I.truth(s.ret)

    def query(self, oid, rule, qual, fn, keep=(), assume=None, self_type=None, inline_new=(), max_depth=24, no_inline=()):
        """fn(I, summary, o) decides a must/may question on one function."""
        def go(o):
            f = self.find(qual)
            if f is None:
                o.und("private anchor no longer exists", qual)
                return
            I = Interp(self.p, keep=keep, max_depth=max_depth, inline_new=inline_new, no_inline_modules=no_inline)
            if self_type:
                I.types[T.Term("sym", "self")] = ("cls", self.p.cls(self_type))
            a = self.formula(I, assume) if assume else T.TRUE
            kw = {}
            params = f.node.args
            names = [x for x in params.posonlyargs + params.args + params.kwonlyargs]
            if f.cls is not None and f.kind in ("method", "getter", "setter", "class"):
                names = names[1:]
            for x in names:
                t = T.Term("sym", x.arg)
                ty = I.ann_type(x.annotation, f.module)
                if ty is not None and I.types.get(t) is None:
                    I.types[t] = ty
                kw[x.arg] = t
            st = T.Term("sym", "self")
            if f.cls is not None and f.kind in ("method", "getter", "setter"):
                I.types.setdefault(st, ("cls", f.cls))
            s = I.summarize_with(f, st if f.kind in ("method", "getter", "setter") and f.cls else None, kw, a)
            s.assume = a
            o.measure = {"effects": len(s.effects)}
            if I.cut:
                o.und("calls nest deeper than the analysis follows", qual)
                return
            fn(I, s, o)
        return self.rule(oid, rule, qual, go)

    def rule(self, oid, rule, unit, fn):
        """fn(o) reports through o.bad / o.und."""
        o = self.obligation(oid, rule, unit)
        try:
            fn(o)
        except T.Limit as e:
            o.und(f"analysis limit: {e}", unit)
        except RecursionError:
            o.und("analysis limit: recursion", unit)
        except AnalysisBroken as e:
            self.broken.append(str(e))
            o.und(str(e), unit)
        except Exception as e:
            if os.environ.get("VSTAT_DEBUG"):
                traceback.print_exc()
            o.und(f"analysis error {type(e).__name__}: {e}", unit)
        return o


def run_summary(I, f, sf, self_type, assume, args, actual):
    """Summaries of code and reference over the same parameter symbols."""
    from .terms import Term, TRUE
    names = [a.arg for a in sf.node.args.posonlyargs + sf.node.args.args + sf.node.args.kwonlyargs]
    given = {}
    selfterm = Term("sym", "self")
    for a in sf.node.args.args + sf.node.args.kwonlyargs:
        t = Term("sym", a.arg)
        ty = I.ann_type(a.annotation, sf.module)
        if ty is not None:
            I.types[t] = ty
        given[a.arg] = t
    if self_type is not None and "self" in given:
        I.types[selfterm] = ("cls", self_type)
    if f.cls is not None and f.kind == "class" and "cls" in given:
        given["cls"] = I.mkref(f.cls)
    for k, v in (args or {}).items():
        given[k] = v
    heap = {}
    kind = TRUE if assume is None else assume(I)

    if not actual:
        from .absint import Frame, State
        if self_type is not None and "self" in given:
            I.types[selfterm] = ("cls", self_type)
        s = I.summarize_with(sf, None, given, kind)
        return s
    params = f.node.args
    pn = [a.arg for a in params.posonlyargs + params.args + params.kwonlyargs]
    method = f.cls is not None and f.kind in ("method", "getter", "setter")
    klass = f.cls is not None and f.kind == "class"
    if method or klass:
        pn = pn[1:]
    sn = [n for n in names if n not in ("self", "cls")]
    kw = {}
    if set(sn) >= set(pn) or len(sn) != len(pn):
        for n in pn:
            if n in given:
                kw[n] = given[n]
    else:
        for a, b in zip(pn, sn):
            kw[a] = given[b]
    # types from the code's own annotations when the reference leaves them out
    for a in params.posonlyargs + params.args + params.kwonlyargs:
        t = kw.get(a.arg)
        if isinstance(t, Term) and I.types.get(t) is None:
            ty = I.ann_type(a.annotation, f.module)
            if ty is not None:
                I.types[t] = ty
    if method and (selfterm not in I.types or I.types[selfterm] is None):
        I.types[selfterm] = ("cls", self_type or f.cls)
    return I.summarize_with(f, selfterm if method else None, kw, kind)


# ---------------------------------------------------------------- known findings
def known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [x for x in json.load(fh) if x.get("status") == "known"]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    verbose = "-v" in argv
    VW = int(os.environ.get("VSTAT_W", "500"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    try:
        ctx = Ctx(prop, tier)
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)

        def hz(o):
            from . import hazards
            found, n = hazards.run(ctx.p, set(absint.ENTERED))
            o.measure = {"functions": n}
            for what, where in found:
                o.bad(what, where)
        ctx.rule("value-semantics", "no generator consumed twice, no stale cached answer, no shared default or element, no container changed while it is walked", "interpreted functions", hz)
    except (AnalysisBroken, SyntaxError, OSError) as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}")
        return 2
    viol, knowns = [], []
    kf = [x for x in known() if x["property"] == prop]
    for o in ctx.obls:
        for v, what, where in o.notes:
            if v != BAD:
                continue
            hit = next((x for x in kf if x["obligation"] == o.oid and x["match"] in what), None)
            (knowns if hit else viol).append((o, what, where, hit))
    n_ok = sum(1 for o in ctx.obls if o.verdict == OK)
    n_und = sum(1 for o in ctx.obls if o.verdict == UND)
    seen = set()
    for o, what, where, hit in knowns:
        if hit["id"] not in seen:
            seen.add(hit["id"])
            print(f"KNOWN-FINDING: property={prop} {hit['id']}: {hit['what']}")
    quals = {f.qual for f in ctx.p.all_funcs()}
    cov = {
        "explanation": "Static analysis of /repo's current source: each obligation is a rule instance on named functions, "
                       "call sites or tables; 'discharged' means the rule was decided and holds, 'undecided' means a construct was "
                       "not understood (no verdict), nothing is executed.",
        "obligations": len(ctx.obls),
        "discharged": n_ok,
        "undecided": n_und,
        "functions_in_program": sum(1 for _ in ctx.p.all_funcs()),
        "units": sorted({o.unit for o in ctx.obls}),
        "functions_interpreted": sorted(q for q in absint.ENTERED if not q.startswith("<") and q in quals),
        "samples": [{"obligation": o.oid, "rule": o.rule, "verdict": o.verdict, **({"measured": o.measure} if o.measure else {})} for o in ctx.obls][:60],
        "undecided_list": [{"obligation": o.oid, "why": [w[1][:200] for w in o.notes if w[0] == UND][:3]} for o in ctx.obls if o.verdict == UND],
        "checker_cmd": f"./check {prop}",
        "trusted_base": ["vstat (abstract interpreter and term normaliser of this repository)", "the reference summaries in specs/", "CPython's ast module"],
    }
    data = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
            "assumptions": ASSUME, "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    if ctx.broken:
        cov["broken"] = ctx.broken
    with open(ev, "w") as fh:
        json.dump(data, fh, indent=1, default=str)
    rep = os.path.join("evidence", prop + ".violations.txt")
    full = os.path.join(VERIF, rep)
    if os.path.exists(full):
        os.remove(full)
    for o in ctx.obls:
        if verbose:
            print(f"[{o.verdict}] {o.oid}  {o.measure or ''}")
            for v, what, where in o.notes:
                print(f"      {v}: {what[:VW]} @ {where}")
    if viol:
        with open(full, "w") as fh:
            for o, what, where, _ in viol:
                fh.write(f"{where}: {o.rule}: {what}  [{o.oid}]\n")
        for o, what, where, _ in viol[:0 if verbose else 10]:
            print(f"{where}: {o.rule}: {what[:600]}")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if ctx.broken:
        for b in ctx.broken:
            print(f"ANALYSIS-BROKEN property={prop}: {b}")
        return 2
    if n_ok + len(knowns) == 0:
        print(f"ANALYSIS-BROKEN property={prop}: nothing was decided")
        return 2
    print(f"OK property={prop} obligations={len(ctx.obls)} discharged={n_ok} undecided={n_und} wall={time.time() - t0:.1f}s")
    return 0


ASSUME = [
    "Python semantics as modelled by vstat: no monkey patching, no attribute access through strings other than literal names, no aliasing between distinct parameters",
    "implicit exceptions (KeyError, AttributeError, memory) are not modelled unless a property names them",
    "calls outside the package are uninterpreted but deterministic functions of their arguments",
]
