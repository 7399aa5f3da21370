"""Canonical terms, polynomials and multi-valued decision diagrams.

A *value* is either a ``Term`` (a leaf: global value number of an expression)
or a ``Node`` (a decision diagram whose leaves are terms).  Everything is
hash-consed, so equality of canonical forms is identity.
"""
from fractions import Fraction
import hashlib
import math

_terms = {}
_nodes = {}


class Limit(Exception):
    """The analysis budget of a value was exceeded."""


class Term:
    __slots__ = ("op", "args", "_h", "_r", "opaque", "_fv", "dg", "__weakref__")

    def __new__(cls, op, *args):
        key = (op,) + tuple((type(a).__name__, a) if isinstance(a, (bool, int, float, Fraction)) else a for a in args)
        t = _terms.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            t._h = hash(key)
            t._r = None
            t._fv = None
            t.dg = _digest(op, args)
            t.opaque = op == "opaque" or any(_opq(a) for a in args)
            _terms[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        raise TypeError

    def __repr__(self):
        if self._r is None:
            self._r = _show(self)
        return self._r


def _digest(op, args):
    """Identity of a term or node; it starts with the depth, so that shallow atoms come first in the order of variables."""
    return "%03d" % min(1 + _depth(args), 999) + hashlib.md5((op + "|" + "|".join(_dga(a) for a in args)).encode()).hexdigest()


def _depth(args):
    d = 0
    for a in args:
        if isinstance(a, (Term, Node)):
            d = max(d, int(a.dg[:3]))
        elif isinstance(a, tuple):
            d = max(d, _depth(a))
    return d


def _dga(a):
    if isinstance(a, (Term, Node)):
        return a.dg
    if isinstance(a, tuple):
        return "(" + ",".join(_dga(x) for x in a) + ")"
    return type(a).__name__ + ":" + str(a)


def _opq(a):
    if isinstance(a, (Term, Node)):
        return a.opaque
    if isinstance(a, tuple):
        return any(_opq(x) for x in a)
    return False


class Node:
    __slots__ = ("var", "dom", "kids", "_h", "_r", "opaque", "_sup", "_fv", "dg", "__weakref__")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._r is None:
            self._r = show_formula(self)
        return self._r


def Const(v):
    if isinstance(v, float) and not (math.isinf(v) or math.isnan(v)):
        v = Fraction(repr(v))
    if isinstance(v, int) and not isinstance(v, bool):
        v = Fraction(v)
    return Term("const", v)


TRUE, FALSE, NONE = Const(True), Const(False), Const(None)
UNDEF = Term("undef")
ZERO, ONE = Const(0), Const(1)


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def is_num(t):
    return is_const(t) and isinstance(t.args[0], (Fraction, float)) and not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- variables
BOOL = (False, True)
SIGN = (-1, 0, 1)
_domains = {}


def domain(var):
    if var.op == "sign":
        return SIGN
    if var.op == "enumof":
        return _domains[var.args[1]]
    return BOOL


def set_enum_domain(name, members):
    _domains[name] = tuple(members)


def top(v):
    return v.var if isinstance(v, Node) else None


def _key(var):
    return (0 if var.op != "enumof" else 1, var.dg)


def _first(vars_):
    return min(vars_, key=_key)


def mk(var, kids):
    """Node with canonical reductions; kids' tops must be below var."""
    kids = tuple(kids)
    if var.op == "sign":
        kids = _sign_norm(var, kids)
    k0 = kids[0]
    if all(k is k0 for k in kids):
        return k0
    key = (var, kids)
    n = _nodes.get(key)
    if n is None:
        n = object.__new__(Node)
        n.var, n.dom, n.kids = var, domain(var), kids
        n._h = hash(("node",) + key)
        n._r = None
        n._sup = None
        n._fv = None
        n.dg = _digest("node", (var,) + kids)
        n.opaque = var.opaque or any(k.opaque for k in kids)
        _nodes[key] = n
    return n


def _sign_norm(var, kids):
    """At d == 0 values that differ by a multiple of d are equal: pick one."""
    d = var.args[0]
    n, z, p = kids
    if not (isinstance(z, Term) and isinstance(n, Term) and isinstance(p, Term)):
        return kids
    if z is n or z is p:
        # prefer a canonical side when both neighbours agree with z at zero
        if n is not p and _multiple(n, p, d):
            lo = n if n.dg <= p.dg else p
            return (n, lo, p)
        return kids
    for c in sorted((n, p), key=lambda x: x.dg):
        if _multiple(z, c, d):
            return (n, c, p)
    return kids


def _multiple(a, b, d):
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None:
        return False
    diff = p_add(pa, p_scale(pb, -1))
    if not diff:
        return True
    pd = as_poly(d)
    if pd is None or len(pd) != len(diff):
        return False
    r = None
    for m, c in pd.items():
        if m not in diff:
            return False
        q = diff[m] / c
        if r is None:
            r = q
        elif r != q:
            return False
    return True


_cof_memo = {}


def cof(v, var, i):
    """Cofactor of v for var = dom[i]."""
    if not isinstance(v, Node):
        return v
    if v.var is var:
        return v.kids[i]
    if var not in support(v):
        return v
    key = (v, var, i)
    r = _cof_memo.get(key)
    if r is None:
        r = case(v.var, [cof(k, var, i) for k in v.kids])
        _cof_memo[key] = r
    return r


_sup_memo = {}


def support(v):
    if not isinstance(v, Node):
        return frozenset()
    if v._sup is None:
        s = {v.var}
        for k in v.kids:
            s |= support(k)
        v._sup = frozenset(s)
    return v._sup


_case_memo = {}
BUDGET = [400000]


def case(var, rs):
    """Diagram meaning: rs[i] when var = dom[i] (rs may have any tops)."""
    rs = tuple(rs)
    r0 = rs[0]
    if all(r is r0 for r in rs):
        return r0
    key = (var, rs)
    r = _case_memo.get(key)
    if r is not None:
        return r
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        raise Limit("decision diagram budget")
    tops = [t for t in (top(x) for x in rs) if t is not None]
    m = _first(tops + [var])
    if m is var:
        r = mk(var, [cof(x, var, i) for i, x in enumerate(rs)])
    else:
        n = len(domain(m))
        r = mk(m, [case(var, [cof(x, m, j) for x in rs]) for j in range(n)])
    _case_memo[key] = r
    return r


_care_memo = {}


def care(f, g):
    """A diagram equal to f wherever g holds, depending on less."""
    if not isinstance(f, Node) or not isinstance(g, Node):
        return f
    if f is g:
        return TRUE
    key = (f, g)
    r = _care_memo.get(key)
    if r is not None:
        return r
    v = _first([f.var, g.var])
    n = len(domain(v))
    if f.var is not v:
        r = care(f, Or(*g.kids))
    else:
        gs = g.kids if g.var is v else [g] * n
        ks = [None if gk is FALSE else care(fk, gk) for fk, gk in zip(f.kids, gs)]
        d = next(k for k in ks if k is not None)
        r = case(v, [d if k is None else k for k in ks])
    _care_memo[key] = r
    return r


_cons_memo = {}


def constrain(f, g):
    """The generalised cofactor: depends only on f where g holds (canonical)."""
    if not isinstance(f, Node) or not isinstance(g, Node):
        return f
    if f is g:
        return TRUE
    key = (f, g)
    r = _cons_memo.get(key)
    if r is not None:
        return r
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        raise Limit("decision diagram budget")
    v = _first([f.var, g.var])
    n = len(domain(v))
    fs = f.kids if f.var is v else [f] * n
    gs = g.kids if g.var is v else [g] * n
    ks = [None if gk is FALSE else constrain(fk, gk) for fk, gk in zip(fs, gs)]
    d = next(k for k in ks if k is not None)
    r = case(v, [d if k is None else k for k in ks])
    _cons_memo[key] = r
    return r


def lift(f, *vals):
    """Apply a leaf function over diagrams (result may itself be a diagram)."""
    memo = {}

    def go(vs):
        r = memo.get(vs)
        if r is not None:
            return r
        tops = [t for t in (top(v) for v in vs) if t is not None]
        if not tops:
            r = f(*vs)
        else:
            m = _first(tops)
            r = case(m, [go(tuple(cof(v, m, i) for v in vs)) for i in range(len(domain(m)))])
        memo[vs] = r
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            raise Limit("decision diagram budget")
        return r

    return go(tuple(vals))


def _bool(f):
    def g(*ts):
        return f(*ts)
    return g


_and_memo, _or_memo = {}, {}


def _bin(memo, absorb, unit, a, b):
    if a is absorb or b is absorb:
        return absorb
    if a is unit:
        return b
    if b is unit or a is b:
        return a
    key = (a, b) if id(a) <= id(b) else (b, a)
    r = memo.get(key)
    if r is None:
        ta, tb = top(a), top(b)
        if ta is None or tb is None:
            # a non-boolean leaf under a boolean operator
            if ta is None and tb is None:
                return Term("opaque", "boolop", a, b)
        m = _first([t for t in (ta, tb) if t is not None])
        n = len(domain(m))
        r = case(m, [_bin(memo, absorb, unit, cof(a, m, i), cof(b, m, i)) for i in range(n)])
        memo[key] = r
    return r


def And(*xs):
    r = TRUE
    for x in xs:
        r = _bin(_and_memo, FALSE, TRUE, r, x)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = _bin(_or_memo, TRUE, FALSE, r, x)
    return r


_not_memo = {}


def Not(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if not isinstance(x, Node):
        return Term("opaque", "not", x)
    r = _not_memo.get(x)
    if r is None:
        r = mk(x.var, [Not(k) for k in x.kids])
        _not_memo[x] = r
    return r


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    return lift(lambda x, y, z: y if x is TRUE else z if x is FALSE else Term("opaque", "ite", x, y, z), c, a, b)


def atom(t):
    return mk(t, (FALSE, TRUE))


def leaves(v):
    """[(leaf, formula)] of a diagram; formulas are disjoint."""
    out = {}
    memo = {}

    def go(n):
        if not isinstance(n, Node):
            return {n: TRUE}
        r = memo.get(n)
        if r is None:
            r = {}
            per = [go(k) for k in n.kids]
            for l in {x for p in per for x in p}:
                r[l] = case(n.var, [p.get(l, FALSE) for p in per])
            memo[n] = r
        return r

    out = go(v)
    return sorted(out.items(), key=_pk)


def restrict_paths(v, limit=64):
    """Satisfying cubes of a formula, as lists of (var, [values])."""
    out = []

    def go(n, acc):
        if len(out) >= limit:
            return
        if n is FALSE:
            return
        if not isinstance(n, Node):
            out.append(list(acc))
            return
        groups = {}
        for val, k in zip(n.dom, n.kids):
            groups.setdefault(k, []).append(val)
        for k, vals in groups.items():
            go(k, acc + [(n.var, vals)])

    go(v, [])
    return out


# ---------------------------------------------------------------- polynomials
def _pk(x):
    x = x[0]
    return _dga(x) if isinstance(x, tuple) else x.dg


def as_poly(t):
    """{monomial: Fraction}; monomial = sorted tuple of (term, exponent)."""
    if isinstance(t, Node):
        return None
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            return {(): Fraction(int(v))} if v else {}
        if isinstance(v, Fraction):
            return {(): v} if v != 0 else {}
        if isinstance(v, float):
            return {((t, 1),): Fraction(1)}
        return None
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return Const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return Term("poly", tuple(sorted(p.items(), key=_pk)))


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if r[m] == 0:
            del r[m]
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k != 0 else {}


def m_mul(a, b):
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
        if d[t] == 0:
            del d[t]
    return tuple(sorted(d.items(), key=_pk))


def p_mul(a, b):
    r = {}
    if len(a) * len(b) > 4000:
        raise Limit("poly")
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


def p_inv(a):
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((t, -e) for t, e in m): 1 / c}
    # factor the leading coefficient so that inv(k*p) = inv(p)/k
    lead = sorted(a.items(), key=_pk)[0][1]
    return {((from_poly(p_scale(a, 1 / lead)), -1),): 1 / lead}


def add(a, b):
    return from_poly(p_add(as_poly(a), as_poly(b)))


def neg(a):
    return from_poly(p_scale(as_poly(a), -1))


def mul(a, b):
    return from_poly(p_mul(as_poly(a), as_poly(b)))


def div(a, b):
    pb = as_poly(b)
    if not pb:
        return Term("opaque", "div0")
    return from_poly(p_mul(as_poly(a), p_inv(pb)))


# ---------------------------------------------------------------- structure
def free(t):
    """All terms occurring in t (as a frozenset), used for dependence tests."""
    if isinstance(t, Term):
        if t._fv is None:
            s = {t}
            for a in t.args:
                s |= free(a)
            t._fv = frozenset(s)
        return t._fv
    if isinstance(t, Node):
        if t._fv is None:
            s = set(free(t.var))
            for k in t.kids:
                s |= free(k)
            t._fv = frozenset(s)
        return t._fv
    if isinstance(t, tuple):
        s = set()
        for x in t:
            s |= free(x)
        return frozenset(s)
    return frozenset()


def mentions(t, pred):
    return any(pred(x) for x in free(t))


def _show(t):
    op, a = t.op, t.args
    if op == "const":
        v = a[0]
        if isinstance(v, Fraction):
            return str(v) if v.denominator < 1000 else repr(float(v))
        return repr(v)
    if op == "enum":
        return f"{a[0]}.{a[1]}"
    if op == "sym":
        return str(a[0])
    if op == "attr":
        return f"{a[0]!r}.{a[1]}"
    if op == "idx":
        return f"{a[0]!r}[{a[1]!r}]"
    if op == "elem":
        return f"elem{'' if a[1] == 0 else a[1]}({a[0]!r})"
    if op == "key":
        return f"key{'' if a[1] == 0 else a[1]}({a[0]!r})"
    if op == "pos":
        return f"pos{'' if a[1] == 0 else a[1]}({a[0]!r})"
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = [f"{x!r}" + (f"^{e}" if e != 1 else "") for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator < 1000 else repr(float(c)))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "call":
        return f"{a[0]}({', '.join(map(_s, a[1:]))})"
    return f"{op}({', '.join(map(_s, a))})"


def _s(x):
    if isinstance(x, tuple):
        return "(" + ", ".join(map(_s, x)) + ")"
    return repr(x) if not isinstance(x, str) else x


def show_formula(n, limit=6):
    if not isinstance(n, Node):
        return repr(n)
    parts = []
    for l, f in leaves(n):
        if l is FALSE:
            continue
        cubes = []
        ps = restrict_paths(f, limit + 1)
        for p in ps[:limit]:
            lits = []
            for var, vals in p:
                if var.op == "enumof":
                    lits.append(f"{var.args[0]!r}∈{{{','.join(map(str, vals))}}}")
                elif var.op == "sign":
                    s = {(-1,): "<0", (0,): "==0", (1,): ">0", (-1, 0): "<=0", (0, 1): ">=0", (-1, 1): "!=0"}[tuple(vals)]
                    lits.append(f"{var.args[0]!r}{s}")
                else:
                    lits.append(("" if vals == [True] else "not ") + repr(var))
            cubes.append(" & ".join(lits) or "always")
        if len(ps) > limit:
            cubes.append("...")
        s = " | ".join(cubes)
        parts.append(s if l is TRUE else f"{l!r} if [{s}]")
    return "{" + "; ".join(parts) + "}"
