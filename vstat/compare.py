"""Comparison of two guarded-effect summaries modulo observation and theory."""
from . import terms as T
from .terms import Term, Node, TRUE, FALSE, NONE, UNDEF, And, Or, Not, Ite, leaves, Const
from .absint import LoopRefNoStop, LoopRef, is_boolval
from . import theory, order

OK, BAD, UND = "discharged", "violated", "undecided"


class Diff:
    def __init__(self, verdict, what, where=None):
        self.verdict, self.what, self.where = verdict, what, where

    def __repr__(self):
        return f"{self.verdict}: {self.what} @ {self.where}"


class Observe:
    """What of a summary is compared.

    effects: predicate on Effect (None: all state effects and kept calls)
    ret:     compare the returned value
    raises:  'class' (condition per exception class), 'any' or None
    calls:   names of opaque calls that are observable
    """

    def __init__(self, effects=None, ret=True, raises="class", calls=(), kept=True, ret_map=None, kinds=None, exc_base=None, skip_attrs=(), only_attrs=None, drop=None, on_exit=False):
        self.effects, self.ret, self.raises, self.calls, self.kept = effects, ret, raises, set(calls), kept
        self.ret_map = ret_map
        self.kinds = kinds
        self.exc_base = exc_base
        self.skip_attrs, self.only_attrs = set(skip_attrs), only_attrs
        self.drop = drop
        self.on_exit = on_exit

    def wants(self, e):
        if box_of(e) is not None:
            return True
        if self.drop is not None and self.drop(e):
            return False
        if e.kind in ("raise", "with", "handler"):
            return False
        if e.kind == "call":
            n = e.target.args[0]
            if n in self.calls:
                return True
            if not self.kept:
                return False
            if not (":" in n and not n.startswith("new:")):
                return False
            return self.effects is None or self.effects(e)
        if self.kinds is not None and e.kind not in self.kinds:
            return False
        if e.kind == "setattr":
            if e.key in self.skip_attrs:
                return False
            if self.only_attrs is not None and e.key not in self.only_attrs:
                return False
        if self.effects is not None:
            return self.effects(e)
        return True


def box_of(e):
    """The boxed container that an effect changes."""
    if e.kind not in ("box", "setitem", "delitem", "mut", "setattr"):
        return None
    t = e.target
    while isinstance(t, Term) and t.op in ("idx", "attr"):
        t = t.args[0]
    return t if isinstance(t, Term) and t.op == "box" else None


def _closed(I, e, guard, *vals):
    """Close the loops of an effect: canonical loop terms + values."""
    lrs = [LoopRefNoStop(l) if False else l for l in e.loops]
    lts, out = I.close(lrs, guard, *vals)
    return lts, out[0], out[1:]


def flat_leaves(v, limit=256):
    """Leaves of a value, also of the diagrams inside its tuples."""
    out = leaves(v)
    for _ in range(8):
        new = []
        for l, f in out:
            n = _inner(l)
            if n is None:
                new.append((l, f))
            else:
                new += [(_put(l, n, x), And(f, c)) for x, c in leaves(n)]
        if len(new) == len(out) and all(a is c and b is d for (a, b), (c, d) in zip(new, out)):
            return out
        if len(new) > limit:
            return out
        out = [(l, f) for l, f in new if f is not FALSE]
    return out


def _inner(t):
    """A diagram that is a component of a tuple term."""
    if isinstance(t, Term) and t.op == "tuple":
        for x in t.args[0]:
            if isinstance(x, Node) and not is_boolval(x):
                return x
            r = _inner(x)
            if r is not None:
                return r
    return None


def _put(t, n, x):
    if t is n:
        return x
    if isinstance(t, Term) and t.op == "tuple":
        return Term("tuple", tuple(_put(y, n, x) for y in t.args[0]))
    return t


def canon_effects(I, s, obs, exit_guard=None):
    """{key: (guard formula, effect)} plus value diagrams per location."""
    locs = {}     # location -> [guard, value diagram, effect]
    muts = {}     # key -> [guard, effect]
    for e in s.effects:
        if not obs.wants(e):
            continue
        tg = e.target if e.target is not None else NONE
        key = e.key if e.key is not None else NONE
        if isinstance(key, str):
            key = Const(key)
        val = e.value if e.value is not None else NONE
        for tl, tf in leaves(tg):
            for kl, kf in leaves(key):
                g = And(e.guard, tf, kf)
                if obs.on_exit:
                    g = And(g, exit_guard if exit_guard is not None else s.exit_guard)
                if g is FALSE:
                    continue
                forced = I.forced(g)
                tl2, kl2 = I.simplify(tl, forced), I.simplify(kl, forced)
                if e.kind in ("setattr", "setitem"):
                    v = I.simplify(val, forced)
                    lts, g2, (t2, k2, v2) = _closed(I, e, g, tl2, kl2, v)
                    loc = (e.kind, lts, t2, k2)
                    if loc in locs:
                        og, ov, oe = locs[loc]
                        locs[loc] = [Or(og, g2), Ite(g2, v2, ov), e]
                    else:
                        locs[loc] = [g2, v2, e]
                else:
                    for vl, vf in flat_leaves(I.simplify(val, forced)):
                        gg = And(g, vf)
                        if gg is FALSE:
                            continue
                        f2 = I.forced(gg)
                        vl2 = I.simplify(vl, f2)
                        lts, g2, (t2, k2, v2) = _closed(I, e, gg, tl2, kl2, vl2)
                        k = (e.kind, lts, t2, k2, v2)
                        if k in muts:
                            muts[k][0] = Or(muts[k][0], g2)
                        else:
                            muts[k] = [g2, e]
    return locs, muts


def raise_map(I, s, obs):
    grp = {}
    for e in s.effects:
        if e.kind != "raise":
            continue
        n = "any" if obs.raises == "any" else repr(e.target)
        if obs.exc_base is not None and obs.raises != "any":
            n = obs.exc_base(e.target, n)
        # some iteration raises one way or the other: one question per loop nest
        k = (n, tuple((l.dom, l.depth, l.kind) for l in e.loops))
        o = grp.get(k)
        grp[k] = (Or(o[0], e.guard), o[1]) if o else (e.guard, e)
    out = {}
    for (n, _), (g, e) in grp.items():
        f = I.exists(e.loops, g)
        o = out.get(n)
        out[n] = (Or(o[0], f), o[1]) if o else (f, e)
    return out


# ---------------------------------------------------------------- deep equality
_deep = {}


def same_term(I, a, b, d=0):
    """'same' | 'diff' | 'opaque': equality of two closed terms or diagrams up to
    equivalence of the conditions inside comprehensions and order of dict parts."""
    if a is b or (not isinstance(a, (Term, Node, tuple)) and type(a) is type(b) and a == b):
        return "opaque" if T._opq(a) else "same"
    k = (id(I), a, b)
    r = _deep.get(k)
    if r is None:
        _deep[k] = "diff"      # cut cycles
        r = _deep[k] = _same(I, a, b, d)
    return r


def _worst(rs):
    out = "same"
    for r in rs:
        if r == "diff":
            return "diff"
        if r == "opaque":
            out = "opaque"
    return out


def _same(I, a, b, d):
    if d > 40:
        return "opaque"
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "diff"
        return _worst(same_term(I, x, y, d + 1) for x, y in zip(a, b))
    if isinstance(a, Node) or isinstance(b, Node):
        if is_boolval(a) and is_boolval(b):
            return differing(I, a, b)[0]
        if isinstance(a, (Term, Node)) and isinstance(b, (Term, Node)):
            return value_diff(I, TRUE, a, b)[0]
        return "diff"
    if not isinstance(a, Term) or not isinstance(b, Term):
        return "diff"
    if a.op != b.op or len(a.args) != len(b.args):
        return "opaque" if T._opq(a) or T._opq(b) else "diff"
    if a.op == "comp" and a.args[0] == b.args[0]:
        return same_comp(I, a, b, d)
    if a.op == "poly":
        pa, pb = T.as_poly(a), T.as_poly(b)
        ra = [(m, c) for m, c in pa.items() if pb.get(m) != c]
        rb = [(m, c) for m, c in pb.items() if pa.get(m) != c]
        return match(ra, rb, lambda x, y: "diff" if x[1] != y[1] or len(x[0]) != len(y[0]) else match(list(x[0]), list(y[0]), lambda u, v: "diff" if u[1] != v[1] else same_term(I, u[0], v[0], d + 1)))
    if a.op in ("const", "sym", "enum", "ref", "opaque", "obj"):
        return "opaque" if T._opq(a) or T._opq(b) else "diff"
    if a.op in ("eq", "ne") and len(a.args) == 2:
        return match(list(a.args), list(b.args), lambda x, y: same_term(I, x, y, d + 1))
    return _worst(same_term(I, x, y, d + 1) for x, y in zip(a.args, b.args))


def match(xs, ys, eq):
    """Best pairing of two lists under eq (greedy: equality is transitive)."""
    if len(xs) != len(ys):
        return "diff"
    ys = list(ys)
    worst = "same"
    for x in xs:
        best = None
        for i, y in enumerate(ys):
            r = eq(x, y)
            if r == "same":
                best = (r, i)
                break
            if r == "opaque" and best is None:
                best = (r, i)
        if best is None:
            return "diff"
        if best[0] == "opaque":
            worst = "opaque"
        ys.pop(best[1])
    return worst


def same_comp(I, a, b, d):
    if a.args[0] == "dict":
        def groups(t):
            out = {}
            for lts, g, e in t.args[1]:
                for el, ef in leaves(e):
                    ks, v = (el.args[0][0], el.args[0][1]) if isinstance(el, Term) and el.op == "tuple" and len(el.args[0]) == 2 else (el, NONE)
                    for kl, kf in leaves(ks):
                        gg = And(g, ef, kf)
                        if gg is FALSE:
                            continue
                        o = out.get((lts, kl))
                        out[(lts, kl)] = (Or(o[0], gg), Ite(gg, v, o[1])) if o else (gg, v)
            return [(l, k, g, v) for (l, k), (g, v) in out.items()]

        def eq(x, y):
            if same_term(I, x[0], y[0], d + 1) != "same" or same_term(I, x[1], y[1], d + 1) != "same":
                return "diff"
            r = differing(I, x[2], y[2])[0]
            return r if r != "same" else value_diff(I, And(x[2], y[2]), x[3], y[3])[0]
    else:
        def groups(t):
            out = {}
            for lts, g, e in t.args[1]:
                for el, ef in leaves(e):
                    gg = And(g, ef)
                    if gg is not FALSE:
                        out[(lts, el)] = Or(out.get((lts, el), FALSE), gg)
            return [(l, e, g) for (l, e), g in out.items()]

        def eq(x, y):
            r = _worst([same_term(I, x[0], y[0], d + 1), same_term(I, x[1], y[1], d + 1)])
            return r if r != "same" else differing(I, x[2], y[2])[0]
    ga, gb = groups(a), groups(b)
    if a.args[0] == "list":
        if len(ga) != len(gb):
            return "opaque" if T._opq(a) or T._opq(b) else "diff"
        r = _worst(eq(x, y) for x, y in zip(ga, gb))
    else:
        r = match(ga, gb, eq)
    return "opaque" if r == "diff" and (T._opq(a) or T._opq(b)) else r


def unify_atoms(I, f, g):
    """Rename atoms of f to equivalent atoms of g."""
    try:
        sf, sg = T.support(f), T.support(g)
    except T.Limit:
        return f
    xs = [v for v in sf if v not in sg and v.op not in ("sign", "enumof", "isnone")]
    ys = [v for v in sg if v not in sf and v.op not in ("sign", "enumof", "isnone")]
    for x in xs:
        for y in ys:
            if x.op == y.op and same_term(I, x, y, 1) == "same":
                f = Ite_rename(f, x, y)
                break
    return f


def Ite_rename(f, x, y):
    if len(T.domain(x)) != 2 or T.domain(x) != T.domain(y):
        return f
    t, e = T.cof(f, x, T.domain(x).index(True)), T.cof(f, x, T.domain(x).index(False))
    return Ite(atom_of(y), t, e)


def atom_of(v):
    return T.atom(v)


def differing(I, f, g):
    """('same'|'diff'|'opaque', cube) for two formulas."""
    if f is g:
        return ("opaque" if T._opq(f) else "same"), None
    r = _differing(I, f, g)
    if r[0] == "same":
        return r
    f2 = unify_atoms(I, f, g)
    return _differing(I, f2, g) if f2 is not f else r


def _differing(I, f, g):
    if f is g:
        return "same", None
    try:
        x = Or(And(f, Not(g)), And(g, Not(f)))
    except T.Limit:
        return "opaque", None
    if x is FALSE:
        return "same", None
    cs = theory.cubes(x, 600)
    op = False
    n = 0
    for c in cs:
        n += 1
        if any(v.opaque for v, _ in c):
            op = True
            continue
        try:
            if theory.consistent(I, c):
                return "diff", c
        except T.Limit:
            op = True
    if op or len(cs) >= 600:
        return "opaque", None
    return "same", None


def value_diff(I, guard, v, w):
    """Compare value diagrams v, w under guard."""
    if v is w and not T._opq(v):
        return "same", None
    conds = {}
    op = False
    try:
        for lv, fv in leaves(v):
            gv = And(guard, fv)
            if gv is FALSE:
                continue
            for lw, fw in leaves(w):
                gg = And(gv, fw)
                if gg is FALSE:
                    continue
                if lv is lw:
                    op = op or T._opq(lv)
                    continue
                cs = theory.cubes(gg, 400)
                if len(cs) >= 400:
                    # too many cases at once: part by part
                    ps = parts(lv, lw)
                    if ps:
                        for x, y in ps:
                            r, c = value_diff(I, gg, x, y)
                            if r == "diff":
                                return r, c
                            op = op or r == "opaque"
                        continue
                    op = True
                for c in cs:
                    if any(x.opaque for x, _ in c):
                        op = True
                        continue
                    forced = {x: T.domain(x).index(vs[0]) for x, vs in c if len(vs) == 1}
                    a, b = I.simplify(lv, forced), I.simplify(lw, forced)
                    if a is b:
                        op = op or T._opq(a)
                        continue
                    try:
                        if not theory.consistent(I, c):
                            continue
                    except theory.Unsure:
                        op = True
                        continue
                    if same_under(I, c, a, b):
                        continue
                    if T._opq(a) or T._opq(b):
                        op = True
                        continue
                    r = same_term(I, a, b)
                    if r == "same":
                        continue
                    if r == "opaque":
                        op = True
                        continue
                    return "diff", (c, a, b)
    except T.Limit:
        op = True
    return ("opaque", None) if op else ("same", None)


def parts(a, b):
    """The components of two records of one shape, paired."""
    if not isinstance(a, Term) or not isinstance(b, Term) or a.op != b.op:
        return None
    if a.op == "tuple" and len(a.args[0]) == len(b.args[0]):
        return list(zip(a.args[0], b.args[0]))
    if a.op == "new" and a.args[0] == b.args[0] and [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]]:
        return [(x, y) for (_, x), (_, y) in zip(a.args[1], b.args[1])]
    return None


def same_under(I, cube, a, b):
    """Equal once the equalities of the cube are substituted."""
    m = {}
    for v, vs in cube:
        if v.op == "enumof" and len(vs) == 1:
            m[v.args[0]] = Term("enum", v.args[1], vs[0])
        elif v.op == "isnone" and vs == [True]:
            m[v.args[0]] = NONE
        elif v.op == "eq" and vs == [True] and isinstance(v.args[0], Term):
            x, y = v.args
            if x.op in ("const", "enum"):
                x, y = y, x
            if x not in T.free(y):
                m[x] = y
        elif v.op == "sign" and vs == [0]:
            p = T.as_poly(v.args[0])
            for mono, c in p.items():
                if len(mono) == 1 and mono[0][1] == 1:
                    x = mono[0][0]
                    rest = {k: q for k, q in p.items() if k is not mono}
                    if x not in T.free(T.from_poly(rest)):
                        m[x] = T.from_poly(T.p_scale(rest, -1 / c))
                        break
        elif v.op == "truthy" and vs == [False]:
            pass
    if not m:
        return False
    for k, d in m.items():
        if I.subst(a, {k: d}) is I.subst(b, {k: d}):
            return True
    return I.subst(a, m) is I.subst(b, m)


def show_cube(c, limit=8):
    if c is None:
        return ""
    out = []
    for var, vals in c[:limit]:
        if var.op == "enumof":
            out.append(f"{var.args[0]!r} in {{{','.join(map(str, vals))}}}")
        elif var.op == "sign":
            out.append(f"{var.args[0]!r} { {(-1,): '< 0', (0,): '== 0', (1,): '> 0', (-1, 0): '<= 0', (0, 1): '>= 0', (-1, 1): '!= 0'}[tuple(vals)]}")
        else:
            out.append(("" if vals == [True] else "not ") + repr(var))
    return " and ".join(out) or "always"


def opaque_key(k):
    return any(T._opq(x) if not isinstance(x, str) else False for x in k)


def show_key(k):
    kind, lts, tg, key = k[:4]
    s = f"{kind} {tg!r}" + (f".{key.args[0]}" if kind == "setattr" and key.op == "const" else f"[{key!r}]" if key is not NONE else "")
    if len(k) > 4 and k[4] is not NONE:
        s += f" {k[4]!r}"
    if lts:
        s += " for each " + ", ".join(repr(l.args[0]) for l in lts)
    return s[:400]


UNMODELLED = ("itertools.", "functools.", "collections.", "operator.", "heapq.", "bisect.", "contextlib.", "copy.", "zip", "enumerate", "next", "iter", "reversed", "map", "filter", "eval", "setattr", "getattr", "vars")


def features(s):
    """Constructs of a summary that are not interpreted: while loops and library
    combinators. A rewriting to or from them is not judged."""
    out = set()
    cols = set()
    inplace = []

    def scan(x):
        for t in T.free(x):
            if t.op in ("while", "wv", "wcol", "afterwhile"):
                out.add("while")
            elif t.op == "fcol":
                cols.add(t)
            elif t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith(UNMODELLED):
                out.add(t.args[0])
            elif t.op in ("closure", "kfold"):
                out.add(t.op)
    for e in s.effects:
        if e.kind in ("setitem", "delitem") and isinstance(e.target, Term) and (e.target.op in ("poly", "abs", "slice", "closure") or e.target.op == "call" and not e.target.args[0].count(":")):
            inplace.append(e)
        for l in e.loops:
            if l.kind == "while":
                out.add("while")
            if isinstance(l.dom, (Term, Node)):
                scan(l.dom)
        for x in (e.guard, e.target, e.key, e.value):
            if isinstance(x, (Term, Node)):
                scan(x)
    boxes = {}
    for e in s.effects:
        b = box_of(e)
        if b is not None:
            boxes.setdefault(b, []).append(f"{e.kind}{len(e.loops)}{e.key if e.kind == 'mut' else ''}")
    if boxes:
        out.add(f"boxes:{sorted(sorted(v) for v in boxes.values())}")
    if s.ret is not None:
        scan(s.ret)
    if cols:
        out.add(f"carried:{len(cols)}")
    if inplace:
        out.add(f"inplace:{len(inplace)}")
    return out


def compare(I, act, spec, obs):
    """Differences; a while loop rewritten as another kind of loop (or back) is not judged."""
    ds = _compare(I, act, spec, obs)
    if not ds:
        return ds
    fa, fs = features(act), features(spec)
    if fa != fs or "closure" in fa:
        for d in ds:
            d.verdict = UND
    return ds


def _compare(I, act, spec, obs):
    """Differences between the summary of the code and of the reference."""
    diffs = []
    fn = act.func
    whole = f"{fn.module.path}:{fn.node.lineno} ({fn.qual})"

    def w(e):
        return e.where() if e is not None else whole
    try:
        eg = And(act.exit_guard, spec.exit_guard) if obs.on_exit else None
        la, ma = canon_effects(I, act, obs, eg)
        ls, ms = canon_effects(I, spec, obs, eg)
    except T.Limit as x:
        return [Diff(UND, f"limit: {x}", whole)]
    # keys equal up to equivalence of their parts
    for A, S in ((la, ls), (ma, ms)):
        only = [k for k in S if k not in A]
        for k in [k for k in A if k not in S]:
            for q in only:
                if q[0] == k[0] and len(q) == len(k) and all(same_term(I, x, y) == "same" for x, y in zip(k[1:], q[1:])):
                    A[q] = A.pop(k)
                    only.remove(q)
                    break
    any_opaque_effect = any(opaque_key(k) for k in list(la) + list(ma))
    # locations
    for k in list(la) + [x for x in ls if x not in la]:
        ga, va, ea = la.get(k, (FALSE, NONE, None))
        gs, vs, es = ls.get(k, (FALSE, NONE, None))
        if opaque_key(k):
            diffs.append(Diff(UND, f"not understood: {show_key(k)}", w(ea)))
            continue
        r, c = differing(I, ga, gs)
        if r == "diff":
            kind = "unexpected" if k not in ls else "missing" if k not in la else "condition differs:"
            v = BAD
            if k not in la and any_opaque_effect and any(q[0] == k[0] for q in list(la) + list(ma) if opaque_key(q)):
                v = UND
            val = va if ea is not None else vs
            diffs.append(Diff(v, f"{kind} {show_key(k)} = {repr(val)[:200]} when {show_cube(c)}", w(ea)))
        elif r == "opaque":
            diffs.append(Diff(UND, f"condition not understood: {show_key(k)}", w(ea)))
        if ea is not None and es is not None:
            g = And(ga, gs)
            r, c = value_diff(I, g, va, vs)
            if r == "diff":
                diffs.append(Diff(BAD, f"value of {show_key(k)} is {repr(c[1])[:300]} instead of {repr(c[2])[:300]} when {show_cube(c[0])}", w(ea)))
            elif r == "opaque":
                diffs.append(Diff(UND, f"value not understood: {show_key(k)}", w(ea)))
    for k in list(ma) + [x for x in ms if x not in ma]:
        ga, ea = ma.get(k, (FALSE, None))
        gs, es = ms.get(k, (FALSE, None))
        if opaque_key(k):
            diffs.append(Diff(UND, f"not understood: {show_key(k)}", w(ea)))
            continue
        r, c = differing(I, ga, gs)
        if r == "diff":
            kind = "unexpected" if k not in ms else "missing" if k not in ma else "condition differs:"
            v = BAD
            if k not in ma and any(q[0] == k[0] for q in list(ma) if opaque_key(q)):
                v = UND
            diffs.append(Diff(v, f"{kind} {show_key(k)} when {show_cube(c)}", w(ea)))
        elif r == "opaque":
            diffs.append(Diff(UND, f"condition not understood: {show_key(k)}", w(ea)))
    # raises
    if obs.raises:
        ra, rs = raise_map(I, act, obs), raise_map(I, spec, obs)
        for n in sorted(set(ra) | set(rs)):
            fa, ea = ra.get(n, (FALSE, None))
            fs, _ = rs.get(n, (FALSE, None))
            r, c = differing(I, fa, fs)
            if r == "diff":
                in_a = theory_eval(fa, c)
                diffs.append(Diff(BAD, f"{'raises' if in_a else 'does not raise'} {n} when {show_cube(c)}", w(ea)))
            elif r == "opaque":
                diffs.append(Diff(UND, f"raise condition of {n} not understood", w(ea)))
    for what, e in order.inversions(I, act, spec):
        diffs.append(Diff(BAD, what, w(e)))
    ta, ts = order.repeats(I, act), order.repeats(I, spec)
    for k in ta:
        if k in ts and ta[k][0] is not ts[k][0]:
            r, c = differing(I, ta[k][0], ts[k][0])
            if r == "diff":
                diffs.append(Diff(BAD, f"{k[0]} runs {'once more' if ts[k][0] is FALSE else 'once less' if ta[k][0] is FALSE else 'again'} when {show_cube(c)}", w(ta[k][1])))
    if obs.ret:
        va, vs = act.ret, spec.ret
        if obs.ret_map is not None:
            va, vs = obs.ret_map(I, va), obs.ret_map(I, vs)
        g = And(act.exit_guard, spec.exit_guard)
        r, c = value_diff(I, g, va, vs)
        if r == "diff":
            diffs.append(Diff(BAD, f"returns {repr(c[1])[:400]} instead of {repr(c[2])[:400]} when {show_cube(c[0])}", whole))
        elif r == "opaque":
            diffs.append(Diff(UND, "returned value not understood", whole))
    return diffs


def theory_eval(f, cube):
    for v, vs in cube:
        if isinstance(f, Node) and v in T.support(f):
            f = T.cof(f, v, T.domain(v).index(vs[0]))
    return f is TRUE
