"""Consistency of a conjunction of literals over the atoms of terms.py.

Used only to discard difference cubes that no program state satisfies
(congruence by substitution, linear arithmetic by Fourier-Motzkin, emptiness
and quantifier monotonicity).  It may call a cube consistent that is not; it
never calls a satisfiable one inconsistent.
"""
from fractions import Fraction

from . import terms as T
from .terms import Term, Node, TRUE, FALSE, NONE, And, Or, Not, atom, case, is_num, as_poly, from_poly, Const


def literal(var, vals):
    return case(var, [TRUE if v in vals else FALSE for v in T.domain(var)])


def cubes(f, limit=4000):
    return T.restrict_paths(f, limit)


def satisfiable(I, f, depth, limit=200):
    """Some cube of f is consistent; T.Limit when the cubes tried were all contradictory
    but not all there are."""
    cs = cubes(f, limit + 1)
    for c in cs[:limit]:
        if consistent(I, c, depth):
            return True
    if len(cs) > limit:
        raise Unsure()
    return False


class Unsure(T.Limit):
    """Too many cases to tell."""


def consistent(I, cube, depth=0):
    """cube: [(var, [values])].  False only if contradictory."""
    lits = list(cube)
    # substitution facts
    if depth < 6:
        for i, (var, vals) in enumerate(lits):
            m = None
            if var.op == "enumof" and len(vals) == 1 and var.args[0].op not in ("enum",):
                m = {var.args[0]: Term("enum", var.args[1], vals[0])}
            elif var.op == "isnone" and vals == [True]:
                m = {var.args[0]: NONE}
            elif var.op == "eq" and vals == [True]:
                a, b = var.args
                if not isinstance(a, Term) or not isinstance(b, Term):
                    continue
                # replace the larger / non-constant side
                if a.op in ("const", "enum", "tuple", "new"):
                    a, b = b, a
                elif b.op not in ("const", "enum", "tuple", "new") and len(T.free(a)) < len(T.free(b)):
                    a, b = b, a
                if a in T.free(b) and a is not b:
                    continue
                m = {a: b}
            elif var.op == "sign" and vals == [0]:
                p = dict(as_poly(var.args[0]))
                # x - e == 0 with x a single variable not occurring elsewhere
                pick = None
                for mono, c in sorted(p.items(), key=T._pk):
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op not in ("const",):
                        x = mono[0][0]
                        rest = {k: v for k, v in p.items() if k is not mono}
                        if x in T.free(from_poly(rest)):
                            continue
                        pick = (x, from_poly(T.p_scale(rest, Fraction(-1) / c)))
                        break
                if pick:
                    m = {pick[0]: pick[1]}
            if m is None:
                continue
            (src, dst), = m.items()
            rest = lits[:i] + lits[i + 1:]
            if not any(src in T.free(v) for v, _ in rest):
                continue
            f = TRUE
            hit = False
            for v, vs in rest:
                if src in T.free(v):
                    g = I.subst(literal(v, vs), m)
                    hit = True
                else:
                    g = literal(v, vs)
                try:
                    f = And(f, g)
                except T.Limit:
                    return True
                if f is FALSE:
                    return False
            if hit:
                return satisfiable(I, f, depth + 1)
    return local(I, lits)


def nonneg(t):
    return t.op in ("len", "card") or t.op == "call" and t.args[0] in ("abs", "math.sqrt", "math.hypot", "len") or t.op == "pos"


DISJOINT = {"str": 1, "int": 2, "float": 3, "bool": 2, "dict": 4, "list": 5, "tuple": 6, "set": 7}


def local(I, lits):
    # truthy / none exclusivity
    d = {}
    for v, vs in lits:
        d[v] = vs
    kinds = {}
    for v, vs in lits:
        # a value is an instance of at most one of the unrelated builtin types
        if v.op == "isinstance" and vs == [True] and v.args[1].op == "ref" and v.args[1].args[0] == "ext":
            k = DISJOINT.get(v.args[1].args[1])
            if k is not None and kinds.setdefault(v.args[0], k) != k:
                return False
    ex_true, ex_false = [], []
    for v, vs in lits:
        if v.op == "truthy" and vs == [True]:
            n = Term("isnone", v.args[0])
            if d.get(n) == [True]:
                return False
        if v.op == "in" and vs == [True]:
            s = v.args[1]
            for e in (Term("truthy", s),):
                if d.get(e) == [False]:
                    return False
        if v.op == "exists":
            (ex_true if vs == [True] else ex_false).append(v)
    for v in ex_true:
        dom = v.args[0].args[0]
        dd = dom.args[0] if dom.op == "keys" else dom
        if d.get(Term("truthy", dd)) == [False]:
            return False
        for w in ex_false:
            if w.args[0].args[0] is dom:
                try:
                    lr1, g1, _ = I.open1((v.args[0],), v.args[1], TRUE, v, w)
                    lr2, g2, _ = I.open1((w.args[0],), w.args[1], TRUE, v, w)
                    diff = And(g1, Not(g2))
                    if diff is FALSE:
                        return False
                    if not satisfiable(I, diff, 3):
                        return False
                except Unsure:
                    raise
                except T.Limit:
                    pass
    # inside an iteration, the current element is a witness
    if ex_false:
        cur = {}
        for v, vs in lits:
            for x in T.free(v):
                if x.op in ("elem", "key", "pos"):
                    cur.setdefault(x.args[0], set()).add(x.args[1])
        for w in ex_false:
            lt = w.args[0]
            dom, lvl = lt.args[0], lt.args[1]
            for k in cur.get(dom, ()):
                rest = [(v, vs) for v, vs in lits if v is not w]
                m = {Term(o, dom, lvl): Term(o, dom, k) for o in ("elem", "key", "pos")}
                try:
                    f = Not(I.subst(w.args[1], m) if k != lvl else w.args[1])
                    for v, vs in rest:
                        f = And(f, literal(v, vs))
                        if f is FALSE:
                            return False
                    if not satisfiable(I, f, 4):
                        return False
                except Unsure:
                    raise
                except T.Limit:
                    pass
    return lin_ok(lits)


def lin_ok(lits):
    """Fourier-Motzkin over monomials; constraints p < 0 / <= 0 / == 0."""
    cons = []   # (poly dict, strict) meaning poly < 0 or <= 0
    neq = []
    vars_ = set()
    for v, vs in lits:
        if v.op != "sign":
            continue
        p = as_poly(v.args[0])
        if p is None or any(x.op == "const" for m in p for x, _ in m):
            continue
        s = set(vs)
        for m in p:
            vars_.add(m)
        n = T.p_scale(p, -1)
        if s == {-1}:
            cons.append((p, True))
        elif s == {-1, 0}:
            cons.append((p, False))
        elif s == {0}:
            cons += [(p, False), (n, False)]
        elif s == {0, 1}:
            cons.append((n, False))
        elif s == {1}:
            cons.append((n, True))
    for m in vars_:
        if len(m) == 1 and nonneg(m[0][0]):
            cons.append(({m: Fraction(-1)}, False))
    vars_ = [m for m in vars_ if m != ()]
    for x in vars_:
        lo, hi, rest = [], [], []
        for p, s in cons:
            c = p.get(x, 0)
            (hi if c > 0 else lo if c < 0 else rest).append((p, s))
        if len(lo) * len(hi) > 400:
            return True
        for p, s in hi:
            for q, r in lo:
                rest.append((T.p_add(T.p_scale(p, 1 / p[x]), T.p_scale(q, -1 / q[x])), s or r))
        cons = rest
    for p, s in cons:
        c = p.get((), 0)
        if not (set(p) - {()}):
            if c > 0 or (s and c >= 0):
                return False
    return True
