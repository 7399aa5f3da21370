"""Guarded-effect summaries: an abstract interpreter over Python syntax trees.

Values are canonical terms / decision diagrams (terms.py).  Nothing of the
analysed program is executed: calls into the repository are inlined
syntactically, everything else becomes an uninterpreted term.
"""
import ast
import itertools
import math
from fractions import Fraction

from . import terms as T
from .terms import (Term, Node, Const, TRUE, FALSE, NONE, UNDEF, ZERO, And, Or, Not, Ite, lift,
                    atom, case, mk, leaves, Limit, is_const, is_num, as_poly, from_poly)
from .program import Func, Cls, Program, _dotted

ENTERED = set()     # functions whose body was interpreted, for the evidence
SEQ_STRIP = {"list", "tuple", "sorted", "iter", "reversed", "frozenset", "set"}
IGNORED_CALLS = ("logger.", "logging.", "print", "warnings.")
NUM = (("prim", "int"), ("prim", "float"))


class LoopRef:
    """One active loop: domain term, nesting index, break condition."""
    __slots__ = ("dom", "depth", "stop", "kind", "mut")

    def __init__(self, dom, depth, kind="for"):
        self.dom, self.depth, self.stop, self.kind, self.mut = dom, depth, FALSE, kind, None

    def bvs(self):
        return [Term("elem", self.dom, self.depth), Term("key", self.dom, self.depth), Term("pos", self.dom, self.depth)]

    def __repr__(self):
        return f"{self.kind} {self.dom!r}"


class Effect:
    __slots__ = ("kind", "loops", "guard", "target", "key", "value", "node", "func", "seq", "extra", "final")

    def __init__(self, kind, loops, guard, target=None, key=None, value=None, node=None, func=None, seq=0, extra=None):
        self.kind, self.loops, self.guard = kind, tuple(loops), guard
        self.target, self.key, self.value = target, key, value
        self.node, self.func, self.seq, self.extra = node, func, seq, extra
        self.final = False

    def where(self):
        f = self.func
        ln = getattr(self.node, "lineno", 0)
        if f is None:
            return f"?:{ln}"
        return f"{f.module.path}:{ln} ({f.qual})"

    def __repr__(self):
        l = " ".join(map(repr, self.loops))
        k = f"[{self.key!r}]" if self.key is not None else ""
        v = f" = {self.value!r}" if self.value is not None else ""
        return f"{self.kind} {self.target!r}{k}{v}  when {self.guard!r}" + (f"  {l}" if l else "")


class Container:
    __slots__ = ("kind", "events", "loops", "guard", "default", "escaped", "oid", "dedup")

    def __init__(self, kind, loops, guard, default=None, oid=0):
        self.oid, self.dedup = oid, False
        self.kind, self.events, self.loops, self.guard, self.default = kind, [], tuple(loops), guard, default
        self.escaped = False


class State:
    __slots__ = ("env", "heap", "guard")

    def __init__(self, env, heap, guard):
        self.env, self.heap, self.guard = env, heap, guard

    def copy(self, guard=None):
        return State(dict(self.env), dict(self.heap), self.guard if guard is None else guard)


class Frame:
    def __init__(self, func, module, cls, self_term=None):
        self.func, self.module, self.cls, self.self_term = func, module, cls, self_term
        self.returns = []     # (guard, loops, value)
        self.yields = None
        self.base_loops = ()
        self.lctx = []        # loop contexts
        self.handlers = []    # enclosing try handlers (exc names, state list)


class Summary:
    def __init__(self, func):
        self.func = func
        self.effects = []
        self.ret = UNDEF
        self.exit_guard = TRUE      # formula: returns normally
        self.raises = FALSE
        self.inlined = set()
        self.limit = None


def type_name(t):
    return None if t is None else t[0]


class Interp:
    def __init__(self, prog, keep=(), max_depth=24, facts=None, inline_new=(), no_inline_modules=(), record_calls=True):
        self.p = prog
        self.keep = set(keep)
        self.max_depth = max_depth
        self.inline_new = set(inline_new)
        self.record_calls = record_calls
        self.types = {}
        self.solver_memo = {}
        self.refs = {}          # ref term -> python object
        self.objs = {}          # obj term -> Container
        self.loops = []
        self.effects = []
        self.stack = []
        self.tries = {}
        self.deads = {}
        self.new_fields = {}    # class -> the fields of its new objects that are followed
        self.loads = {}
        self.cut = False             # a call was left uninlined for its depth alone
        self.seq = 0
        self.nobj = 0
        self.glob_cache = {}
        self.assume = list(facts or [])
        self.no_inline_modules = tuple(no_inline_modules)
        self.budget = 400000
        self.selfkeyed = {}
        self.mutp = {}
        self.reifying = 0
        self.bused = set()
        self.pairs2 = set()
        self.boxset, self.boxnames, self.nbox, self.born = frozenset(), {}, 0, {}
        for m in prog.modules.values():
            for c in m.classes.values():
                if c.is_enum:
                    T.set_enum_domain(c.name, prog.enum_members(c))
        self.trivial = self._trivial_getters()

    def _trivial_getters(self):
        ok, bad = {}, set()
        for m in self.p.modules.values():
            for c in m.classes.values():
                for n, f in c.getters.items():
                    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) \
                            and isinstance(body[0].value.value, ast.Name) and body[0].value.attr.startswith("_"):
                        ok[n] = body[0].value.attr
                    else:
                        bad.add(n)
        return {n: a for n, a in ok.items() if n not in bad or n == "device"}

    # ================================================================ types
    def ann_type(self, ann, module):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_type(ast.parse(ann.value, mode="eval").body, module)
                except SyntaxError:
                    return None
            return ("none",) if ann.value is None else None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            d = _dotted(ann)
            n = d.split(".")[-1]
            if n in ("int", "float", "str", "bool"):
                return ("prim", n)
            if n in ("List", "list", "Iterable", "Sequence", "Iterator", "Generator"):
                return ("list", None)
            if n in ("Set", "set", "FrozenSet"):
                return ("set", None)
            if n in ("Dict", "dict", "defaultdict", "DefaultDict", "Mapping", "OrderedDict"):
                return ("dict", None, None)
            r = self.p.resolve_name(module, d.split(".")[0]) if "." not in d else None
            if isinstance(r, Cls):
                return ("cls", r)
            if isinstance(r, tuple) and r[0] == "global":
                return self.ann_type(r[2], r[1]) if isinstance(r[2], (ast.Subscript, ast.Name)) else None
            c = self.p.class_by_name.get(n)
            return ("cls", c) if c is not None else None
        if isinstance(ann, ast.Subscript):
            b = (_dotted(ann.value) or "").split(".")[-1]
            sl = ann.slice
            el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if b == "Optional":
                return ("opt", self.ann_type(el[0], module))
            if b in ("List", "list", "Iterable", "Sequence", "Iterator", "Generator"):
                return ("list", self.ann_type(el[0], module))
            if b in ("Set", "set", "FrozenSet", "frozenset"):
                return ("set", self.ann_type(el[0], module))
            if b in ("Dict", "dict", "defaultdict", "DefaultDict", "Mapping", "OrderedDict"):
                return ("dict", self.ann_type(el[0], module), self.ann_type(el[1], module) if len(el) > 1 else None)
            if b in ("Tuple", "tuple"):
                return ("tuple", tuple(self.ann_type(x, module) for x in el))
            if b == "Union":
                ts = [self.ann_type(x, module) for x in el]
                opt = any(isinstance(x, ast.Constant) and x.value is None for x in el)
                ts = [t for t, x in zip(ts, el) if not (isinstance(x, ast.Constant) and x.value is None)]
                if not ts:
                    return None
                if any(t != ts[0] for t in ts):
                    k = {t[0] if t else None for t in ts}
                    r = None
                    if len(k) == 1 and k <= {"dict", "list", "set"}:
                        r = (ts[0][0], None, None) if ts[0][0] == "dict" else (ts[0][0], None)
                    return r
                return ("opt", ts[0]) if opt else ts[0]
            if b == "Callable":
                return ("callable",)
        return None

    def typeof(self, t):
        if isinstance(t, Node):
            for l, _ in leaves(t):
                if l is not NONE and l is not UNDEF:
                    r = self.typeof(l)
                    if r is not None:
                        return r
            return None
        if t in self.types:
            return self.types[t]
        r = self._typeof(t)
        self.types[t] = r
        return r

    def _typeof(self, t):
        op, a = t.op, t.args
        if op == "const":
            v = a[0]
            if isinstance(v, bool):
                return ("prim", "bool")
            if isinstance(v, (Fraction, float)):
                return ("prim", "float")
            if isinstance(v, str):
                return ("prim", "str")
            return ("none",)
        if op == "poly" or op in ("sum", "len"):
            return ("prim", "float")
        if op in ("fstr", "concat"):
            return ("prim", "str")
        if op == "enum":
            return ("cls", self.p.class_by_name[a[0]])
        if op == "attr":
            b = self.cls_of(a[0])
            if b is not None:
                r = self.p.attr_annotation(b, a[1])
                if r is not None:
                    return self.ann_type(*r)
                g = self.p.find_getter(b, a[1])
                if g is not None:
                    return self.ann_type(g.node.returns, g.module)
                # trivially renamed attribute: type from the getter
                if a[1].startswith("_"):
                    g = self.p.find_getter(b, a[1][1:])
                    if g is not None:
                        return self.ann_type(g.node.returns, g.module)
                d = self.p.solver_attrs().get(a[1]) if ".ilp_models." in b.module.name else None
                if d is not None:
                    return ("solver", d)
            elif a[1].startswith("_"):
                for m in self.p.modules.values():
                    for c in m.classes.values():
                        g = c.getters.get(a[1][1:])
                        if g is not None and g.node.returns is not None and self.trivial.get(a[1][1:]) == a[1]:
                            return self.ann_type(g.node.returns, g.module)
            return None
        if op == "idx":
            if a[0].op == "comp" and a[0].args[0] == "dict":
                hows = {p.args[0] for _, _, e in a[0].args[1] for p in [part_of(e)] if p is not None} - {"init"}
                if len(hows) == 1:
                    return {"set": ("dict", None, None), "add": ("set", None), "append": ("list", None)}.get(hows.pop())
            bt = self.unopt(self.typeof(a[0]))
            if bt is None:
                return None
            if bt[0] == "dict":
                return bt[2]
            if bt[0] == "solver":
                return ("solver", bt[1] - 1)
            if bt[0] == "list":
                return bt[1]
            if bt[0] == "tuple":
                if is_num(a[1]) and 0 <= a[1].args[0] < len(bt[1]):
                    return bt[1][int(a[1].args[0])]
                if len(bt[1]) == 2 and bt[1][1] is None:
                    return bt[1][0]
            return None
        if op == "elem":
            return self.elem_type(a[0])
        if op == "key":
            bt = self.unopt(self.typeof(a[0].args[0] if a[0].op == "keys" else a[0]))
            return bt[1] if bt and bt[0] == "dict" else None
        if op == "pos":
            return ("prim", "int")
        if op in ("first", "last"):
            return self.typeof(a[2])
        if op in ("afterfor", "afterwhile", "wv", "wini", "v"):
            parts = [a[0]]
            if op not in ("wini", "v"):
                c = a[1] if op == "afterwhile" else a[0]
                parts = [c.args[0], c.args[-1]] if isinstance(c, Term) and c.op in ("fcol", "wcol") else []
            for x in parts:
                ty = self.typeof(x) if isinstance(x, (Term, Node)) and x is not NONE and x is not UNDEF else None
                if ty is not None and ty != ("none",):
                    return ty
            return None
        if op == "new":
            c = self.p.class_by_name.get(a[0])
            return ("cls", c) if c else None
        if op == "comp":
            return (a[0] if a[0] in ("list", "set") else "dict", None) + ((None,) if a[0] == "dict" else ())
        if op == "tuple":
            return ("tuple", tuple(self.typeof(x) for x in a[0]))
        if op in ("ref",):
            return None
        if op == "call":
            n = a[0]
            if ":" in n and not n.startswith("new:"):
                try:
                    f = self.p.func(n)
                except Exception:
                    return None
                if getattr(f.node, "returns", None) is None:
                    return returned_container(f)
                return self.ann_type(f.node.returns, f.module)
            if n in ("math.sqrt", "math.log10", "math.cos", "math.sin", "abs", "min", "max", "float", "int", "round", "math.radians", "math.degrees", "math.pow", "math.exp"):
                return ("prim", "float")
            if n in ("str.lower", "str.casefold", "str.upper", "str.strip", "str", "str.join", "str.replace", ".casefold", ".lower", ".upper", ".strip", ".join"):
                return ("prim", "str")
        return None

    def elem_type(self, d):
        if isinstance(d, Node):
            return None
        if d.op == "keys":
            bt = self.unopt(self.typeof(d.args[0]))
            return bt[1] if bt and bt[0] == "dict" else None
        if d.op == "range":
            return ("prim", "int")
        bt = self.unopt(self.typeof(d))
        if bt is None:
            return None
        if bt[0] == "solver" and bt[1] == 1 and d.op == "attr":
            b = self.cls_of(d.args[0])
            kinds = b and self.p.solver_keys(b, d.args[1])
            return ("tuple", [("prim", k) for k in kinds]) if kinds else None
        if bt[0] in ("list", "set"):
            return bt[1]
        if bt[0] == "dict":
            return bt[1]
        if bt[0] == "tuple" and bt[1]:
            return bt[1][0]
        return None

    def unopt(self, t):
        while t is not None and t[0] == "opt":
            t = t[1]
        return t

    def cls_of(self, t):
        ty = self.unopt(self.typeof(t)) if not isinstance(t, Node) else None
        return ty[1] if ty is not None and ty[0] == "cls" else None

    def is_kind(self, t, *kinds):
        ty = self.unopt(self.typeof(t))
        return ty is not None and ty[0] in kinds

    def is_numeric(self, t):
        ty = self.unopt(self.typeof(t))
        return ty in NUM or t.op == "poly" or is_num(t)

    def is_str(self, t):
        return self.unopt(self.typeof(t)) == ("prim", "str")

    # ================================================================ atoms
    def truth(self, v):
        return lift(self._truth1, v)

    def _truth1(self, t):
        op = t.op
        if op == "const":
            v = t.args[0]
            return TRUE if v else FALSE
        if op == "undef":
            return FALSE
        if op in ("enum", "new", "ref", "closure", "bound", "lambda"):
            return TRUE
        if op == "obj":
            t = self.snap(t)
            return self.truth(t)
        if op == "comp":
            return self.nonempty(t)
        if op == "tuple":
            return TRUE if t.args[0] else FALSE
        if op == "keys":
            return self._truth1(t.args[0])
        if op in ("len", "sum") and op == "len":
            return self.truth(t.args[0])
        if self.solver_expr(t):
            return TRUE
        if op == "idx":
            mp = self.model_part(t, "type_sets")
            if mp is not None:
                return self.nonempty(self.make_comp("set", self.typed_locations(*mp)))
        ty = self.typeof(t)
        if ty is not None:
            if ty[0] == "cls" and not ty[1].is_namedtuple and "__len__" not in ty[1].methods and "__bool__" not in ty[1].methods:
                return TRUE if False else Not(self.isnone(t))
            if ty[0] == "opt" and ty[1] is not None and ty[1][0] == "cls":
                return Not(self.isnone(t))
            if ty in NUM:
                return Not(self.eq(t, ZERO))
        if t.op == "poly":
            return Not(self.eq(t, ZERO))
        return atom(Term("truthy", t))

    def isnone(self, t):
        if t is NONE:
            return TRUE
        if self.solver_expr(t):
            return FALSE
        if t.op in ("const", "enum", "new", "obj", "comp", "tuple", "poly", "fstr", "concat", "ref", "closure", "keys", "len", "sum", "lambda"):
            return FALSE
        if t.op == "call":
            ty = self.typeof(t)
            if ty is not None and ty[0] in ("prim", "cls", "list", "dict", "set", "tuple"):
                return FALSE
        if t.op in ("idx", "elem", "key", "attr"):
            ty = self.typeof(t)
            if ty is not None and (ty[0] == "prim" or ty[0] == "cls" and t.op in ("idx", "elem")):
                return FALSE
        return atom(Term("isnone", t))

    def eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "obj":
            a = self.snap(a)
        if b.op == "obj":
            b = self.snap(b)
        if isinstance(a, Node) or isinstance(b, Node):
            return lift(self.eq, a, b)
        if a is NONE:
            return self.isnone(b)
        if b is NONE:
            return self.isnone(a)
        if a.op == "const" and b.op == "const":
            return TRUE if a.args[0] == b.args[0] else FALSE
        if a.op == "const" or b.op == "const":
            x, y = (a, b) if b.op == "const" else (b, a)
            if x.op == "attr" and x.args[1] == "name" and isinstance(y.args[0], str):
                c = self.typeof(x.args[0])
                if c is not None and c[0] == "cls" and c[1].is_enum and c[1].name in T._domains:
                    return self.eq(x.args[0], Term("enum", c[1].name, y.args[0])) if y.args[0] in T._domains[c[1].name] else FALSE
        if a.op == "enum" and b.op == "enum":
            return TRUE if a is b else FALSE
        if a.op == "enum" or b.op == "enum":
            if b.op == "enum":
                a, b = b, a
            if b.op in ("const", "poly", "comp", "tuple", "new"):
                return FALSE
            c = a.args[0]
            dom = T.domain(Term("enumof", b, c)) if c in T._domains else None
            if dom is None or a.args[1] not in dom:
                return atom(Term("eq", *sorted((a, b), key=lambda x: x.dg)))
            var = Term("enumof", b, c)
            return mk(var, [TRUE if m == a.args[1] else FALSE for m in dom])
        ta, tb = self.typeof(a), self.typeof(b)
        if ta is not None and ta == tb and ta[0] == "cls" and ta[1].is_enum and ta[1].name in T._domains and a.op not in ("const", "new", "comp", "tuple") and b.op not in ("const", "new", "comp", "tuple"):
            dom = T._domains[ta[1].name]
            va, vb = Term("enumof", a, ta[1].name), Term("enumof", b, ta[1].name)
            return case(va, [mk(vb, [TRUE if m == k else FALSE for k in dom]) for m in dom])
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args[0]) != len(b.args[0]):
                return FALSE
            return And(*[lift(self.eq, x, y) for x, y in zip(a.args[0], b.args[0])])
        if (self.is_numeric(a) or self.is_numeric(b)) and not (a.op == "const" and not is_num(a)) and not (b.op == "const" and not is_num(b)):
            return self.sign(a, b, {0})
        # booleans compared with constants
        for x, y in ((a, b), (b, a)):
            if y in (TRUE, FALSE):
                t = self._truth1(x)
                return t if y is TRUE else Not(t)
        # comp == empty comp
        for x, y in ((a, b), (b, a)):
            if y.op == "comp" and not y.args[1]:
                return Not(self._truth1(x))
        return atom(Term("eq", *sorted((a, b), key=lambda x: x.dg)))

    def sign(self, a, b, want):
        """Formula: sign(a - b) in want."""
        pa, pb = as_poly(a), as_poly(b)
        if pa is None or pb is None:
            return atom(Term("cmp", tuple(sorted(want)), a, b))
        d = T.p_add(pa, T.p_scale(pb, -1))
        return self.sign_poly(d, [TRUE if s in want else FALSE for s in T.SIGN])

    def sign_poly(self, d, kids):
        """case on the sign of polynomial d: kids for (-1, 0, 1)."""
        if not d:
            return kids[1]
        if len(d) == 1 and () in d:
            c = d[()]
            return kids[0] if c < 0 else kids[2]
        infs = [(m, c) for m, c in d.items() if any(x.op == "const" for x, _ in m)]
        if len(infs) == 1 and len(infs[0][0]) == 1 and infs[0][0][0][1] == 1:
            m, c = infs[0]
            v = m[0][0].args[0] * (1 if c > 0 else -1)
            if len(d) == 2 and () in d or len(d) == 1:
                return kids[2] if v > 0 else kids[0]
            rest = {k: x for k, x in d.items() if k is not m}
            # x - inf: -1 unless x is itself infinite
            lead = sorted(((m2, c2) for m2, c2 in rest.items() if m2 != ()), key=T._pk)
            if lead and lead[0][1] < 0:
                return case(Term("sign", from_poly(T.p_scale(d, -1))), [kids[2], kids[1], kids[0]])
            return case(Term("sign", from_poly(d)), kids)
        # positive leading coefficient, scaled to 1
        lead = sorted(((m, c) for m, c in d.items() if m != ()), key=T._pk)[0]
        if lead[1] < 0:
            kids = [kids[2], kids[1], kids[0]]
        d = T.p_scale(d, 1 / lead[1])
        nz = [m for m in d if m != ()]
        # the elements of range(lo, hi) are at least lo and below hi
        for m in nz:
            t = m[0][0]
            if t.op == "elem" and len(m) == 1 and m[0][1] == 1 and isinstance(t.args[0], Term) and t.args[0].op == "range" and abs(d[m]) == 1 and is_num(t.args[0].args[2]) and t.args[0].args[2].args[0] > 0:
                up = d[m] > 0
                rest = T.p_scale({k: c for k, c in d.items() if k is not m}, 1 if up else -1)       # elem + rest
                lo, hi = as_poly(t.args[0].args[0]), as_poly(t.args[0].args[1])
                x = T.p_add(rest, lo) if lo is not None else None
                y = T.p_add(rest, hi) if hi is not None else None
                k3 = kids if up else [kids[2], kids[1], kids[0]]
                if x is not None and (not x or set(x) == {()}):
                    c = x.get((), 0)
                    if c > 0:
                        return k3[2]
                    if c == 0:
                        k3 = [k3[1], k3[1], k3[2]]
                if y is not None and (not y or set(y) == {()}) and y.get((), 0) <= 0:
                    return k3[0]
                kids = k3 if up else [k3[2], k3[1], k3[0]]
        # lengths are non-negative: len == 0 / len > 0 is emptiness
        if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1:
            t = nz[0][0][0]
            if t.op in ("len", "card") or (t.op == "sum" and t.args[2] is T.ONE):
                c = d.get((), 0)
                if c > 0:
                    return kids[2]
                if t.op == "len" or t.op == "card":
                    ne = self.truth(t.args[0])
                else:
                    ne = self.exists_terms(t.args[0], t.args[1])
                if c == 0:
                    return Ite(ne, kids[2], kids[1])
                if c == -1 and kids[1] is kids[2]:
                    return Ite(ne, kids[2], kids[0])
                if c > -1:
                    return Ite(ne, kids[2], kids[0])
        if len(nz) == 2 and () not in d:
            for a, b in (nz, nz[::-1]):
                if len(a) == 1 and a[0][1] == 1 and a[0][0].op == "len" and a[0][0].args[0].op == "comp" and a[0][0].args[0].args[0] == "set" and d[a] == -d[b] and len(a[0][0].args[0].args[1]) == 1:
                    c = a[0][0].args[0]
                    cnt, dup = ZERO, FALSE
                    for lr, g, e in self.open_entries(c):
                        cnt = lift(T.add, cnt, self.sum_over(lr, Ite(g, T.ONE, ZERO)) if lr else T.ONE)
                        dup = Or(dup, self.exists(lr, And(g, lift(lambda q: atom(Term("in", q, Term("earlier", c))), e))))
                    if cnt is from_poly({b: Fraction(1)}):
                        # a set is never larger than what it was made from
                        return Ite(dup, kids[0] if d[a] > 0 else kids[2], kids[1])
        var = Term("sign", from_poly(d))
        return case(var, kids)

    # ---------------------------------------------------------------- facts of the optimization models
    # type_sets[k] are the locations of type k; outgoing_links[i] are pairs (i, .),
    # incoming_links[j] pairs (., j): established by OptimizationSetup (checked
    # there on its own), used by every model.
    def model_part(self, t, *names):
        """(self, key) if t is self.<name>[key] in a class of the models."""
        if not (isinstance(t, Term) and t.op == "idx" and isinstance(t.args[0], Term) and t.args[0].op == "attr" and t.args[0].args[1] in names):
            return None
        b = t.args[0].args[0]
        c = self.cls_of(b)
        if c is None or ".ilp_models." not in c.module.name:
            return None
        return b, t.args[1]

    def of_type(self, b, x, k):
        return lift(self.eq, lift(self.index1, Term("attr", b, "location_to_type"), x), k)

    def typed_locations(self, b, k):
        dom = Term("attr", b, "locations")
        lr = LoopRef(dom, self.depth_of(dom))
        e = Term("elem", dom, lr.depth)
        return [([lr], self.of_type(b, e, k), e)]

    def pair(self, vals):
        """(x[0], x[1]) is x for a pair x."""
        if len(vals) == 2 and isinstance(vals[1], Term):
            a, b = vals
            if b.op == "idx" and b.args[1] == T.ONE:
                x = b.args[0]
                if x.op == "elem":
                    mp = self.model_part(x.args[0], "outgoing_links")
                    if mp is not None and mp[1] is a:
                        return x
                if isinstance(a, Term) and a.op == "idx" and a.args[0] is x and a.args[1] is ZERO:
                    ty = self.unopt(self.typeof(x))
                    if ty is not None and ty[0] == "tuple" and len(ty[1]) == 2 and None not in ty[1][1:] or x in self.pairs2:
                        return x
            if isinstance(a, Term) and a.op == "idx" and a.args[1] is ZERO and a.args[0].op == "elem":
                mp = self.model_part(a.args[0].args[0], "incoming_links")
                if mp is not None and mp[1] is b:
                    return a.args[0]
        return Term("tuple", tuple(vals))

    def items_of_tuple(self, t):
        """The elements of a value known to be a tuple of fixed, small length."""
        if t.op in ("elem", "key", "idx", "attr"):
            ty = self.unopt(self.typeof(t))
            if ty is not None and ty[0] == "tuple" and 0 < len(ty[1]) <= 4 and None not in ty[1][1:]:
                return [self.index1(t, Const(i)) for i in range(len(ty[1]))]
        return None

    def contains(self, x, s):
        """Formula: x in s  (leaf, leaf)."""
        mp = self.model_part(s, "type_sets")
        if mp is not None:
            return self.of_type(mp[0], x, mp[1])
        if x.op == "obj":
            x = self.snap(x)
        if s.op == "obj":
            c = self.objs[s]
            if self.building(c):
                if isinstance(x, Node):
                    return lift(self.contains, x, s)
                pre = self.pre_read(s, x)
                if pre is not None:
                    return lift(self.contains, x, pre)
                self.bused.add(s)
                r = atom(Term("in", x, self.bterm(c)))
                here = tuple(self.loops)
                for l, g, e in c.events:
                    if l == here:        # added in this very iteration
                        r = Or(r, And(g, lift(self.eq, e.args[0][0] if c.kind == "dict" and isinstance(e, Term) and e.op == "tuple" else e, x)))
                return r
            s = self.snap(s)
        if s.op == "objidx":
            c = self.objs.get(s.args[0])
            if c is not None and c.kind == "dict" and c.default is None and self.building(c) and c.events:
                if isinstance(x, Node):
                    return lift(self.contains, x, s)
                self.bused.add(s.args[0])
                r = atom(Term("in", x, Term("idx", self.bterm(c), s.args[1])))
                here = tuple(self.loops)
                for l, g, e in c.events:
                    if l == here and has_part(e):        # added in this very iteration
                        k, part = e.args[0]
                        if part.args[0] in ("add", "append"):
                            r = Or(r, And(g, lift(self.eq, k, s.args[1]), lift(self.eq, part.args[1], x)))
                return r
            s = self.snap(s)
        if isinstance(x, Node) or isinstance(s, Node):
            return lift(self.contains, x, s)
        if s.op == "keys":
            s = s.args[0]
            return self.contains(x, s)
        if s.op == "cellmap" and any(y is x for y in s.args[0]):
            return atom(Term("cellhas", *s.args[1:]))
        if s.op == "either":
            return Or(self.contains(x, s.args[0]), self.contains(x, s.args[1]))
        if s.op == "tuple":
            return Or(*[lift(self.eq, x, y) for y in s.args[0]])
        ys = self.items_of_tuple(s)
        if ys is not None:
            return Or(*[lift(self.eq, x, y) for y in ys])
        if s.op == "comp":
            r = FALSE
            for lr, g, e in self.open_entries(s, x):
                if s.args[0] == "dict":
                    e = lift(lambda q: self.unpack1(q, 0), e)
                if len(lr) == 1 and isinstance(e, Term) and e.op in ("elem", "key") and e.args[0] is lr[0].dom and e.args[1] == lr[0].depth \
                        and not (free(g) & {Term("pos", lr[0].dom, lr[0].depth)}):
                    base = self.contains(x, lr[0].dom)
                    r = Or(r, And(base, self.subst(g, {e: x})))
                else:
                    f = And(g, lift(self.eq, x, e))
                    r = Or(r, self.exists(lr, f))
            return r
        if s.op == "const" and isinstance(s.args[0], str) and x.op == "const":
            return TRUE if isinstance(x.args[0], str) and x.args[0] in s.args[0] else FALSE
        if s.op == "range" and s.args[0] is ZERO and False:
            pass
        if s.op == "attr" and s.args[1] == "links" and conn_path(x) is not None and x.args[1].op == "key":
            return TRUE
        if s.op == "attr" and s.args[1] == "sectors" and x.op == "elem" and x.args[0].op == "idx" and x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] == "site_id_to_sector_ids":
            return TRUE
        # facts: a bound key of d is in d
        if x.op == "key" and (x.args[0] is s or (x.args[0].op == "keys" and x.args[0].args[0] is s)):
            return TRUE
        if x.op == "elem" and x.args[0] is s:
            return TRUE
        return atom(Term("in", x, s))

    def nonempty(self, c):
        r = FALSE
        for lr, g, e in self.open_entries(c):
            r = Or(r, self.exists(lr, g))
        return r

    # ================================================================ binders
    def open_entries(self, comp, *ctx):
        """Entries of a comp with bound variables renamed to fresh active depths."""
        out = []
        for loops, g, e in comp.args[1]:
            out.append(self.open1(loops, g, e, *ctx))
        return out

    def first_free(self, vals):
        """A depth no open loop variable in vals uses."""
        d = 0
        for v in vals:
            for x in free(v):
                if x.op in ("elem", "key", "pos") and isinstance(x.args[1], int) and x.args[1] >= d:
                    d = x.args[1] + 1
        return d

    def open1(self, loops, g, e, *ctx):
        """ctx: the other values the opened entry is going to meet."""
        m = {}
        lrs = []
        base = self.first_free((g, e) + ctx) if ctx else 0
        for lt in loops:
            dom0, lvl, stop = lt.args
            dom = self.subst(dom0, m) if m else dom0
            d = max(base, sum(1 for l in self.loops if l.dom is dom)) + sum(1 for l in lrs if l.dom is dom)
            lr = LoopRef(dom, d)
            if m or True:
                for k in ("elem", "key", "pos"):
                    m[Term(k, dom0, lvl)] = Term(k, dom, d)
                lr.stop = stop
            lrs.append(lr)
        if m:
            for lr in lrs:
                if lr.stop is not FALSE:
                    lr.stop = self.subst(lr.stop, m)
            g = self.subst(g, m)
            e = self.subst(e, m)
        return lrs, g, e

    def close(self, lrs, *vals):
        """Bind the loop variables: -> (loop terms, vals) with canonical levels."""
        lrs = self.sort_loops(lrs)
        m = {}
        lts = []
        for lr in lrs:
            dom = self.subst(lr.dom, m) if m else lr.dom
            lvl = "b%d" % self.level(dom, vals, lts, set(lr.bvs()))
            for k in ("elem", "key", "pos"):
                m[Term(k, lr.dom, lr.depth)] = Term(k, dom, lvl)
            stop = self.subst(lr.stop, m) if lr.stop is not FALSE else FALSE
            lts.append(Term("loop", dom, lvl, stop))
        return tuple(lts), tuple(self.subst(v, m) for v in vals)

    def sort_loops(self, lrs):
        lrs = list(lrs)
        if len(lrs) < 2:
            return lrs
        out = []
        rest = list(lrs)
        while rest:
            ready = []
            for l in rest:
                deps = [o for o in rest if o is not l and (free(l.dom) & set(o.bvs()))]
                if not deps:
                    ready.append(l)
            if not ready:
                return lrs
            l = min(ready, key=lambda x: (x.dom.dg if hasattr(x.dom, "dg") else "", x.depth))
            out.append(l)
            rest.remove(l)
        return out

    def level(self, dom, vals, lts, bvs):
        """Smallest index not captured by an inner binder that mentions the variable."""
        n = 0
        for v in vals:
            for x in free(v):
                if x.op in BINDERS and x.op != "loop":
                    fx = free(x)
                    if fx & bvs:
                        for y in fx:
                            if y.op == "loop" and y.args[0] is dom:
                                n = max(n, int(y.args[1][1:]))
        for l in lts:
            if l.args[0] is dom:
                n = max(n, int(l.args[1][1:]))
        return n + 1

    def exists(self, lrs, f):
        """Formula: some iteration of the loops satisfies f."""
        for lr in reversed(list(lrs)):
            f = self.exists1(lr, f)
        return f

    def exists1(self, lr, f, depth=0):
        if f is FALSE:
            return FALSE
        bvs = set(lr.bvs())
        for v in sorted(T.support(f), key=T._key):
            if not (free(v) & bvs):
                return case(v, [self.exists1(lr, T.cof(f, v, i)) for i in range(len(T.domain(v)))])
        if f is TRUE:
            return self.dom_nonempty(lr.dom)
        if not (free(f) & bvs):
            return And(f, self.dom_nonempty(lr.dom))
        # exists x in xs: x == k and p(x)   ->   k in xs and p(k)
        el = None
        if isinstance(f, Node) and f.var.op == "eq":
            pass
        lts, (g,) = self.close([LoopRefNoStop(lr)], f)
        return atom(Term("exists", lts[0], g))

    def exists_terms(self, loops, g):
        lrs, g, _ = self.open1(loops, g, TRUE)
        return self.exists(lrs, g)

    def dom_nonempty(self, dom):
        if dom.op == "keys":
            dom = dom.args[0]
        if dom.op == "range":
            a, b = dom.args[:2]
            return self.sign(b, a, {1})
        if dom.op in ("zip", "while"):
            return atom(Term("truthy", dom))
        return self.truth(dom)

    def sum_over(self, lrs, e):
        """Canonical sum of value e over loops."""
        if not lrs:
            return e
        bvs = {b for lr in lrs for b in lr.bvs()}
        # collect monomials
        mono = {}
        for l, f in leaves(e):
            if l is UNDEF:
                continue
            p = as_poly(l)
            if p is None:
                return Term("opaque", "sum", e)
            for m, c in p.items():
                mono.setdefault(m, []).append((f, c))
        total = ZERO
        for m, parts in mono.items():
            inner = tuple((t, x) for t, x in m if free(t) & bvs)
            outer = tuple((t, x) for t, x in m if not (free(t) & bvs))
            bycoef = {}
            for f, c in parts:
                bycoef[c] = Or(bycoef.get(c, FALSE), f)
            for c, f in bycoef.items():
                s = self.sum1(lrs, f, from_poly({inner: Fraction(1)}))
                k = from_poly({outer: c})
                total = lift(T.add, total, lift(T.mul, s, k))
        return total

    def sum1(self, lrs, f, body):
        bvs = {b for lr in lrs for b in lr.bvs()}
        if f is FALSE:
            return ZERO
        for v in sorted(T.support(f), key=T._key):
            if not (free(v) & bvs):
                return case(v, [self.sum1(lrs, T.cof(f, v, i), body) for i in range(len(T.domain(v)))])
        if len(lrs) == 1 and f is TRUE and body is T.ONE and lrs[0].dom.op not in ("zip", "range", "while"):
            return Term("len", lrs[0].dom)
        if len(lrs) == 1 and f is TRUE and body is T.ONE and lrs[0].dom.op == "range" and lrs[0].dom.args[0] is ZERO and lrs[0].dom.args[2] is T.ONE:
            n = lrs[0].dom.args[1]
            return lift(lambda m: self._minmax([m, ZERO], {}, "max"), n)
        lts, (g, b) = self.close(lrs, f, body)
        return Term("sum", lts, g, b)

    # ================================================================ substitution
    def subst(self, v, m):
        if not m:
            return v
        memo = {}
        keys = set(m)

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, (Term, Node)):
                return x
            if x in m:
                return m[x]
            if not (free(x) & keys):
                return x
            r = memo.get(x)
            if r is None:
                if isinstance(x, Node):
                    if x.var in m:          # a boolean variable
                        f = m[x.var]
                        r = Ite(f if is_boolval(f) else atom(f), go(x.kids[1]), go(x.kids[0]))
                    else:
                        r = self.rebuild_node(x, go)
                else:
                    r = self.rebuild(x.op, tuple(go(y) for y in x.args))
                memo[x] = r
            return r

        return go(v)

    def rebuild_node(self, n, go):
        var = n.var
        kids = [go(k) for k in n.kids]
        if var.op == "enumof":
            t = go(var.args[0])
            cls = var.args[1]

            def f(leaf):
                if leaf.op == "enum" and leaf.args[0] == cls:
                    return kids[n.dom.index(leaf.args[1])]
                return case(Term("enumof", leaf, cls), kids)
            return self._lift_kids(f, t)
        if var.op == "sign":
            t = go(var.args[0])
            return self._lift_kids(lambda leaf: self.sign_poly(as_poly(leaf), kids) if as_poly(leaf) is not None else case(Term("sign", leaf), kids), t)
        f = self.atom_formula(var, go)
        return Ite(f, kids[1], kids[0])

    def _lift_kids(self, f, t):
        return lift(f, t)

    def atom_formula(self, var, go):
        op, a = var.op, var.args
        if op == "eq":
            return lift(self.eq, go(a[0]), go(a[1]))
        if op == "in":
            return lift(self.contains, go(a[0]), go(a[1]))
        if op == "isnone":
            return lift(self.isnone, go(a[0]))
        if op == "truthy":
            return self.truth(go(a[0]))
        args = tuple(go(y) for y in a)
        if op in BINDERS:
            return atom(Term(op, *args))
        return lift_args(lambda *xs: atom(Term(op, *xs)), args)

    def rebuild(self, op, args):
        def mkt(*xs):
            if op == "attr":
                return self.attr_term(xs[0], xs[1])
            if op == "idx":
                return self.index1(xs[0], xs[1])
            if op == "poly":
                tot = {}
                for mono, c in xs[0]:
                    p = {(): Fraction(1)}
                    for t, e in mono:
                        q = as_poly(t)
                        if q is None:
                            return Term("opaque", "poly")
                        if e < 0:
                            q = T.p_inv(q) if q else {(): Fraction(0)}
                            e = -e
                        for _ in range(e):
                            p = T.p_mul(p, q)
                    tot = T.p_add(tot, T.p_scale(p, c))
                return from_poly(tot)
            return Term(op, *xs)
        if op == "poly":
            # monomial factors may be diagrams: lift over them
            facs = []
            shape = []
            for mono, c in args[0]:
                shape.append((tuple((len(facs) + i, e) for i, (_, e) in enumerate(mono)), c))
                facs += [t for t, _ in mono]

            def f(*ts):
                return mkt(tuple((tuple((ts[i], e) for i, e in mono), c) for mono, c in shape))
            return lift(f, *facs) if facs else mkt(args[0])
        if op == "comp" and args[0] in ("list", "set", "dict"):
            if any(g is FALSE or isinstance(e, Node) and args[0] != "dict" or args[0] == "dict" and under(e, g) is not e for _, g, e in args[1]):
                return self.make_comp(args[0], self.open_entries(Term(op, *args), ZERO))
            return Term(op, *args)
        if op == "v":
            return args[0] if isinstance(args[0], Term) and not is_boolval(args[0]) else Term("v", args[0])
        if op in BINDERS:
            return Term(op, *args)
        return lift_args(mkt, args)

    # ================================================================ objects
    def new_obj(self, kind, st, default=None):
        self.nobj += 1
        t = Term("obj", self.nobj, kind)
        self.objs[t] = Container(kind, self.loops, st.guard, default, self.nobj)
        self.types[t] = (kind, None) + ((None,) if kind == "dict" else ())
        return t

    def bterm(self, c):
        return Term("opaque", "building", c.kind, c.oid)

    def building(self, c):
        """Is the container still being filled by an enclosing loop?"""
        return any(l.mut is None or c.oid in l.mut for l in self.loops[len(c.loops):])

    def maymutate(self, body, st, fr):
        """Ids of the local containers a loop body may change (None: unknown)."""
        names, calls = set(), set()
        for b in body:
            nonread(b, names, calls)
        for n in calls:
            v = st.env.get(n)
            if v is not None and not (isinstance(v, Term) and v.op in ("ref", "obj", "sym", "attr", "idx")):
                return None
        out = set()

        def objs(v):
            if isinstance(v, Node):
                for l, _ in leaves(v):
                    objs(l)
            elif isinstance(v, Term):
                if v.op == "obj":
                    if v.args[0] not in out:
                        out.add(v.args[0])
                elif v.op in ("tuple", "bound", "closure", "objidx"):
                    for a in v.args:
                        for x in (a if isinstance(a, tuple) else (a,)):
                            objs(x)
        for n in names:
            if n in st.env:
                objs(st.env[n])
        for v in st.heap.values():
            objs(v)
        return out

    def snap(self, v):
        if isinstance(v, Node):
            return lift(self.snap, v)
        if v.op == "obj":
            return self.snap_obj(v)
        if v.op == "objidx":
            b = v.args[0]
            c = self.objs.get(b)
            if c is not None and c.kind == "dict" and c.default is None:
                return self.index(b, v.args[1])
            if c is not None and c.kind == "dict" and isinstance(c.default, Term) and not (self.building(c) and any(len(l) > len(c.loops) and l[len(c.loops)] in self.loops for l, _, _ in c.events)):
                # reading a filled defaultdict
                return self.dict_get(self.snap_obj(b), [v.args[1], c.default])
            if c is None and b.op == "objidx":
                b = self.snap(b)
                if not (isinstance(b, Term) and b.op == "objidx"):
                    return self.index(b, v.args[1])
            return v
        if v.op == "tuple" and any(mentions_obj(x) for x in v.args[0]):
            return Term("tuple", tuple(self.snap(x) for x in v.args[0]))
        return v

    def snap_obj(self, o):
        c = self.objs[o]
        if self.building(c) and any(l.mut is not None and c.oid in l.mut or l in {x for ev in c.events for x in ev[0][len(c.loops):len(c.loops) + 1]} for l in self.loops[len(c.loops):]):
            return self.bterm(c)
        entries = []
        forced = self.forced(c.guard)
        for loops, g, e in c.events:
            e = self.snap(e)
            rel = loops[len(c.loops):]
            g = self.cof_forced(g, forced)
            e = self.simplify(e, forced)
            entries.append((rel, g, e))
        return self.make_comp("set" if c.dedup else c.kind, entries)

    def make_comp(self, kind, entries):
        out, src = [], []
        for lrs, g, e in entries:
            if g is FALSE:
                continue
            bvs = {b for lr in lrs for b in lr.bvs()}
            # split alternatives of the element
            for leaf, f in (leaves(e) if kind != "dict" else [(e, TRUE)]):
                gg = And(g, f)
                if gg is FALSE:
                    continue
                if kind == "dict":
                    leaf = under(leaf, gg)
                use = list(lrs)
                if kind in ("set", "dict"):
                    use, gg = self.project(use, gg, leaf)
                    if gg is FALSE:
                        continue
                lts, (g2, e2) = self.close(use, gg, leaf)
                out.append((lts, g2, e2))
                src.append((use, gg))
        if kind != "set" and 1 < len(out) <= 12:
            # alternatives of one iteration: their order in the source is immaterial
            first = [u[0] if u else None for u, _ in src]
            def never_both(i, j):
                # one runs only when the other does not
                f = src[i][1]
                for lrs in (src[i][0], src[j][0]):
                    bv = {b for l in lrs for b in l.bvs()}
                    if any(free(g) & bv for g in (src[i][1], src[j][1])):
                        return False
                return And(f, src[j][1]) is FALSE
            apart = lambda i, j: never_both(i, j) or first[i] is not None and first[j] is not None and first[i].dom is first[j].dom and first[i].depth == first[j].depth and And(src[i][1], src[j][1]) is FALSE
            idx = list(range(len(out)))
            for _ in idx:
                for k in range(len(idx) - 1):
                    i, j = idx[k], idx[k + 1]
                    if T._dga(out[j]) < T._dga(out[i]) and apart(i, j):
                        idx[k], idx[k + 1] = j, i
            out = [out[i] for i in idx]
        # merge entries equal up to guard
        if kind in ("set", "dict"):
            merged = {}
            order = []
            for lts, g, e in out:
                k = (lts, e)
                if k not in merged:
                    order.append(k)
                merged[k] = Or(merged.get(k, FALSE), g)
            out = [(l, merged[(l, e)], e) for l, e in order]
            if kind == "dict":
                # an empty collection for a key that gets something anyway
                kind_of = lambda e: e.args[0][1].args[0] if e.op == "tuple" and len(e.args[0]) == 2 and isinstance(e.args[0][1], Term) and e.args[0][1].op == "part" else None
                if any(kind_of(e) == "sum" for _, _, e in out):
                    out = [(l, g, Term("tuple", (e.args[0][0], Term("part", "init", ZERO))) if e.op == "tuple" and len(e.args[0]) == 2 and e.args[0][1] is ZERO else e) for l, g, e in out]
                parts = [(l, e.args[0][0], g) for l, g, e in out if kind_of(e) not in (None, "init")]
                if parts:
                    out = [(l, g, e) for l, g, e in out if not (kind_of(e) == "init" and any(l2 == l and k2 is e.args[0][0] and And(g, Not(g2)) is FALSE for l2, k2, g2 in parts))]
            if kind == "set":
                out.sort(key=lambda x: T._dga(x))
        # identity comp over a collection of the same kind
        if len(out) == 1 and kind != "dict":
            (lts, g, e), = out
            if len(lts) == 1 and g is TRUE and isinstance(e, Term) and e.op in ("elem", "key") and e.args[0] is lts[0].args[0] and e.args[1] == lts[0].args[1]:
                return e.args[0]
        return Term("comp", kind, tuple(out))

    def project(self, lrs, g, e):
        """Loops an element does not depend on only ask whether some iteration adds it."""
        i = len(lrs) - 1
        while i >= 0:
            lr = lrs[i]
            bv = set(lr.bvs())
            rest = lrs[:i] + lrs[i + 1:]
            if not (free(e) & bv) and not any(free(o.dom) & bv or o.stop is not FALSE and free(o.stop) & bv for o in rest) and (lr.stop is FALSE or lr.stop is g) and lr.kind == "for":
                g = self.exists1(LoopRefNoStop(lr), g)
                lrs = rest
                if g is FALSE:
                    break
            i -= 1
        return lrs, g

    def forced(self, g):
        """{var: index} of the variables whose value g forces."""
        r = Forced()
        r.care = g
        for v in T.support(g):
            live = [i for i in range(len(T.domain(v))) if T.cof(g, v, i) is not FALSE]
            if len(live) == 1:
                r[v] = live[0]
        return r

    def cof_forced(self, f, forced):
        for v, i in forced.items():
            if isinstance(f, Node) and v in T.support(f):
                f = T.cof(f, v, i)
        return T.care(f, forced.care) if isinstance(f, Node) and isinstance(forced, Forced) else f

    def simplify(self, v, forced):
        """Simplify formulas nested anywhere in v under forced atoms."""
        if not forced:
            return v
        fk = set(forced)
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, (Term, Node)):
                return x
            if not (free(x) & fk):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if isinstance(x, Node):
                y = self.cof_forced(x, forced)
                if isinstance(y, Node):
                    var = y.var
                    nv = Term(var.op, *[go(a) for a in var.args]) if free(var) & fk else var
                    if nv is var or not all(isinstance(a, (Term, str)) or not isinstance(a, Node) for a in nv.args):
                        y = case(var, [go(k) for k in y.kids])
                    else:
                        y = case(nv, [go(k) for k in y.kids])
                else:
                    y = go(y)
                r = y
            else:
                r = self.rebuild(x.op, tuple(go(y) for y in x.args))
            memo[x] = r
            return r

        return go(v)

    # ================================================================ access
    def attr_term(self, b, name):
        # facts about topology dictionaries: the key of an element is its id
        if b.op == "idx" and isinstance(b.args[0], Term) and b.args[0].op == "attr" and \
                (b.args[0].args[1], name) in (("sites", "_site_id"), ("links", "_link_id"), ("sectors", "_sector_id"), ("demand_sites", "_demand_id")):
            return b.args[1]
        if name == "_site_id" and b.op == "attr" and b.args[1] in ("_tx_site", "_rx_site"):
            l = b.args[0]
            if l.op == "idx" and l.args[0].op == "attr" and l.args[0].args[1] == "links":
                c = conn_path(l.args[1])
                if c is not None:
                    tx, rx = c
                    return tx if b.args[1] == "_tx_site" else rx
        if b.op == "new":
            for k, v in b.args[1]:
                if k == name:
                    c = self.p.class_by_name.get(b.args[0])
                    if c is not None and (c.is_namedtuple or c.is_dataclass):
                        return v
        return Term("attr", b, name)

    def getattr(self, v, name, st, fr, node=None):
        return self.lift_guard(lambda t, g: self.getattr1(t, name, st, fr, node), v, st)

    def lift_guard(self, f, v, st):
        """Apply f to each leaf of v under its condition (effects are guarded)."""
        if isinstance(v, Term):
            return f(v, st.guard)
        g0 = st.guard
        res = UNDEF
        exit_g = FALSE
        first = True
        for leaf, c in leaves(v):
            st.guard = And(g0, c)
            if st.guard is FALSE and g0 is not FALSE:
                continue
            r = f(leaf, st.guard)
            exit_g = Or(exit_g, st.guard)
            res = r if first else Ite(c, r, res)
            first = False
        st.guard = exit_g
        return res

    def getattr1(self, t, name, st, fr, node):
        if t.op == "ref":
            return self.ref_attr(t, name, st, fr)
        if t is NONE or t is UNDEF:
            return UNDEF if t is UNDEF else Term("attr", t, name)
        if t.op == "enum":
            c = self.p.class_by_name[t.args[0]]
            if name in ("name",):
                return Const(t.args[1])
            if name == "value":
                return self.enum_value(c, t.args[1])
            g = self.p.find_getter(c, name)
            if g is not None:
                return self.inline(g, t, [], {}, st, fr, node)
            return Term("attr", t, name)
        if t.op == "bound" or t.op == "closure":
            return Term("attr", t, name)
        if (t, name) in st.heap:
            return st.heap[(t, name)]
        c = self.cls_of(t)
        g = None
        if c is not None:
            g = self.p.find_getter(c, name)
        elif name in self.trivial:
            nm = self.trivial[name]
            if (t, nm) in st.heap:
                return st.heap[(t, nm)]
            return self.attr_term(t, nm)
        elif t.op not in ("const", "comp", "tuple"):
            cands = [k for m in self.p.modules.values() for k in m.classes.values() if name in k.getters]
            fields = any(name in k.attrs_ann and name not in k.getters for m in self.p.modules.values() for k in m.classes.values())
            if len(cands) == 1 and not fields:
                c = cands[0]
                g = c.getters[name]
        if g is not None:
            if self.trivial.get(name) and f"{g.module.short}:{g.cls.name}.{name}" not in self.keep:
                nm = self.trivial[name]
                if (t, nm) in st.heap:
                    return st.heap[(t, nm)]
                return self.attr_term(t, nm)
            if g.qual in self.keep or len(self.stack) >= self.max_depth or g in self.stack:
                return self.attr_term(t, name)
            mark = (len(self.effects), dict(st.heap), st.guard)
            r = self.inline(g, t, [], {}, st, fr, node)
            if any(e.kind != "call" for e in self.effects[mark[0]:]) or r.opaque:
                del self.effects[mark[0]:]
                st.heap, st.guard = mark[1], mark[2]
                r = self.attr_term(t, name)
                ty = self.ann_type(g.node.returns, g.module)
                if ty is not None and isinstance(r, Term):
                    self.types[r] = ty
            return r
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None:
                return Term("bound", t, name)
            k = self.class_const(c, name, st)
            if k is not None:
                return k
        return self.attr_term(t, name)

    def class_const(self, c, name, st):
        for k in self.p.mro(c):
            if name in k.consts and not (k.is_namedtuple or k.is_dataclass):
                try:
                    return self.eval_global(k.consts[name], k.module)
                except Limit:
                    return None
        return None

    def enum_value(self, c, member):
        v = c.consts.get(member)
        if isinstance(v, ast.Constant):
            return Const(v.value)
        return Term("attr", Term("enum", c.name, member), "value")

    def ref_attr(self, t, name, st, fr):
        o = self.refs[t]
        if isinstance(o, Cls):
            if o.is_enum and name in o.consts:
                return Term("enum", o.name, name)
            m = self.p.find_method(o, name)
            if m is not None:
                return Term("bound", t, name)
            k = self.class_const(o, name, st)
            if k is not None:
                return k
            return Term("attr", t, name)
        if isinstance(o, tuple) and o[0] in ("mod", "ext"):
            d = o[1]
            if d in self.p.modules:
                r = self.p.resolve_name(self.p.modules[d], name)
                if r is not None:
                    return self.mkref(r)
            full = f"{d}.{name}"
            if full in self.p.modules:
                return self.mkref(("mod", full))
            if full in ("math.inf", "numpy.inf", "float.inf"):
                return Const(math.inf)
            return self.mkref(("ext", full))
        return Term("attr", t, name)

    def mkref(self, r):
        if isinstance(r, Func):
            t = Term("ref", "func", r.qual)
        elif isinstance(r, Cls):
            t = Term("ref", "cls", r.name)
        elif isinstance(r, tuple) and r[0] == "global":
            return self.eval_global(r[2], r[1])
        elif isinstance(r, tuple):
            t = Term("ref", "ext", r[1])
        else:
            return Term("opaque", "ref")
        self.refs[t] = r
        return t

    def eval_global(self, node, module):
        key = node
        if key in self.glob_cache:
            r = self.glob_cache[key]
            if r is None:
                return Term("opaque", "recursive global")
            return r
        self.glob_cache[key] = None
        sv, self.loops = self.loops, []
        se, self.effects = self.effects, []
        st = State({}, {}, TRUE)
        fr = Frame(None, module, None)
        try:
            r = self.snap(self.eval(node, st, fr))
        finally:
            self.loops, self.effects = sv, se
        if isinstance(r, Term) and r.op == "call":
            r = Term("global", module.short, r)
        self.glob_cache[key] = r
        return r

    def index(self, v, k):
        return lift(self.index1, v, k)

    def index1(self, t, k):
        if t.op == "range" and is_num(k) and all(is_num(x) for x in t.args):
            try:
                return Const(range(*(int(x.args[0]) for x in t.args))[int(k.args[0])])
            except (IndexError, ValueError):
                return UNDEF
        if t.op == "elem" and isinstance(k, Term) and is_num(k):
            mp = self.model_part(t.args[0], "outgoing_links" if k is ZERO else "incoming_links")
            if mp is not None and k in (ZERO, T.ONE):
                return mp[1]
        if is_num(k) and t.op in ("elem", "elemb", "attr", "idx", "call", "sym"):
            c = self.cls_of(t)
            if c is not None and c.is_namedtuple:
                fs = [x for x, _ in c.fields]
                i = int(k.args[0])
                if -len(fs) <= i < len(fs):
                    return self.attr_term(t, fs[i])
        if t.op == "obj":
            if k.op != "const" or True:
                c = self.objs[t]
                if self.building(c):
                    pre = self.pre_read(t, k)
                    if pre is not None:
                        return lift(self.index1, pre, k)
                    self.bused.add(t)
                    r = Term("idx", self.bterm(c), k)
                    if c.kind == "dict":
                        here = tuple(self.loops)
                        for l, g, e in c.events:
                            if l == here and isinstance(e, Term) and e.op == "tuple":
                                x = e.args[0][1]
                                if isinstance(x, Term) and x.op == "part" and x.args[0] == "init":
                                    continue
                                if isinstance(x, Term) and x.op == "part" and x.args[0] == "sum":
                                    x = self.binop(ast.Add(), r, x.args[1].args[0] if x.args[1].op == "v" else x.args[1])
                                r = Ite(And(g, lift(self.eq, e.args[0][0], k)), x, r)
                    return r
                t = self.snap(t)
                if isinstance(t, Node):
                    return lift(self.index1, t, k)
        if t.op == "cellmap" and any(x is k for x in t.args[0]):
            return Term("cell", *t.args[1:])
        if t.op == "tuple":
            if is_num(k):
                i = int(k.args[0])
                if -len(t.args[0]) <= i < len(t.args[0]):
                    return t.args[0][i]
        if t.op == "new":
            c = self.p.class_by_name.get(t.args[0])
            if c is not None and c.is_namedtuple and is_num(k) and 0 <= int(k.args[0]) < len(t.args[1]):
                return t.args[1][int(k.args[0])][1]
        if t.op == "comp" and t.args[0] == "dict":
            ents = self.open_entries(t)
            if all(not l for l, _, _ in ents):
                r = Term("keyerror",)
                for _, g, e in ents:
                    kk, vv = self.unpack1(e, 0), self.unpack1(e, 1)
                    r = Ite(And(g, lift(self.eq, k, kk)), vv, r)
                return r
            if len(ents) == 1 and len(ents[0][0]) == 1:
                lr, g, e = ents[0]
                kk = self.unpack1(e, 0)
                if isinstance(kk, Term) and kk.op in ("key", "elem") and kk.args[0] is lr[0].dom and kk.args[1] == lr[0].depth:
                    vv = self.subst(self.unpack1(e, 1), {kk: k})
                    return vv
            if len(ents) == 1 and len(ents[0][0]) > 1:
                lrs, g, e = ents[0]
                kk = self.unpack1(e, 0)
                if isinstance(kk, Term) and kk.op == "tuple" and (k.op == "tuple" and len(k.args[0]) == len(kk.args[0]) or len(kk.args[0]) == 2):
                    vs = {Term(o, l.dom, l.depth) for l in lrs for o in ("key", "elem")}
                    if all(isinstance(x, Term) and x in vs for x in kk.args[0]) and len(set(kk.args[0])) == len(lrs) == len(kk.args[0]):
                        ks = [self.index1(k, Const(i)) for i in range(len(lrs))]
                        if all(isinstance(x, Term) for x in ks):
                            return self.subst(self.unpack1(e, 1), dict(zip(kk.args[0], ks)))
            v = self.own_key(t, k)
            if v is not None:
                return v
        if t.op == "comp" and t.args[0] == "list" and is_num(k):
            ents = t.args[1]
            if all(not l and g is TRUE for l, g, _ in ents):
                i = int(k.args[0])
                if -len(ents) <= i < len(ents):
                    return ents[i][2]
        # xs[i] with i ranging over range(len(xs))
        if k.op == "pos" and k.args[0] is t:
            return Term("elem", t, k.args[1])
        if t.op == "elem" and isinstance(t.args[0], Term) and t.args[0].op == "zip" and is_num(k):
            xs = t.args[0].args[0]
            i = int(k.args[0])
            if 0 <= i < len(xs):
                return Term("elem", xs[i], ("z", t.args[1]) if False else t.args[1])
        return Term("idx", t, k)

    def own_key(self, d, k):
        """d[k] where k is the key of the iteration over d being executed: the
        value of that iteration, as `for k, v in d.items()` binds it."""
        if len(d.args[1]) != 1 or not self.loops:
            return None
        loops, g, e = d.args[1][0]
        if has_part(e) or len(loops) > 2:
            return None
        for combo in itertools.permutations(self.loops, len(loops)):
            m = {}
            for lt, lr in zip(loops, combo):
                dom0, lvl, stop = lt.args
                if (self.subst(dom0, m) if m else dom0) is not lr.dom:
                    break
                for o in ("key", "elem", "pos"):
                    m[Term(o, dom0, lvl)] = Term(o, lr.dom, lr.depth)
            else:
                e1 = self.subst(e, m)
                if self.unpack1(e1, 0) is k:
                    return self.unpack1(e1, 1)
        return None

    def unpack1(self, e, i):
        return lift(lambda t: self.index1(t, Const(i)), e)

    # ================================================================ iteration
    def iterate(self, v, st, fr):
        """[(cond, [(looprefs, guard, elem)])] alternatives of iterating v."""
        out = []
        for leaf, c in leaves(self.snap(v)):
            out.append((c, self.iter1(leaf, st, fr)))
        return out

    def depth_of(self, dom, extra=()):
        return sum(1 for l in self.loops if l.dom is dom) + sum(1 for l in extra if l.dom is dom)

    def iter1(self, t, st, fr):
        mp = self.model_part(t, "type_sets")
        if mp is not None:
            return self.typed_locations(*mp)
        if t.op == "ref" and t.args[0] == "cls":
            c = self.p.class_by_name.get(t.args[1])
            if c is not None and c.is_enum and 0 < len(T._domains.get(c.name, ())) <= 8:
                return [([], TRUE, Term("enum", c.name, x)) for x in T._domains[c.name]]
        d = t.args[0] if t.op in ("items", "values", "keys") else t
        if isinstance(d, Term) and d.op == "comp" and d.args[0] == "dict" and any(has_part(e) for _, _, e in d.args[1]):
            # groups: one iteration per distinct key
            lr = LoopRef(Term("keys", d), 0)
            lr.depth = self.depth_of(lr.dom)
            k = Term("key", lr.dom, lr.depth)
            v = Term("idx", d, k)
            return [([lr], TRUE, Term("tuple", (k, v)) if t.op == "items" else v if t.op == "values" else k)]
        if t.op == "comp":
            return [(l, g, (self.unpack1(e, 0) if t.args[0] == "dict" else e)) for l, g, e in self.open_entries(t)]
        if t.op == "tuple":
            return [([], TRUE, x) for x in t.args[0]]
        if t.op == "items":
            d = t.args[0]
            if d.op == "comp":
                return [(l, g, e) for l, g, e in self.open_entries(d)]
            lr = LoopRef(self.keysdom(d), 0)
            lr.depth = self.depth_of(lr.dom)
            k = Term("key", lr.dom, lr.depth)
            return [([lr], TRUE, Term("tuple", (k, self.index1(d, k))))]
        if t.op == "values":
            d = t.args[0]
            if d.op == "comp":
                return [(l, g, self.unpack1(e, 1)) for l, g, e in self.open_entries(d)]
            lr = LoopRef(self.keysdom(d), 0)
            lr.depth = self.depth_of(lr.dom)
            return [([lr], TRUE, self.index1(d, Term("key", lr.dom, lr.depth)))]
        if t.op == "keys" or self.is_kind(t, "dict"):
            d = t.args[0] if t.op == "keys" else t
            if d.op == "comp":
                return self.iter1(d, st, fr)
            lr = LoopRef(self.keysdom(d), 0)
            lr.depth = self.depth_of(lr.dom)
            return [([lr], TRUE, Term("key", lr.dom, lr.depth))]
        if t.op == "enumerate":
            d = t.args[0]
            res = []
            for lrs, g, e in self.iter1(d, st, fr):
                if len(lrs) == 1:
                    i = Term("pos", lrs[0].dom, lrs[0].depth)
                    i = T.add(i, t.args[1])
                else:
                    i = Term("opaque", "enumerate")
                res.append((lrs, g, Term("tuple", (i, e))))
            if all(not l for l, _, _ in res):
                res = [(l, g, Term("tuple", (T.add(Const(n), t.args[1]), self.unpack1(e, 1)))) for n, (l, g, e) in enumerate(res)]
            return res
        if t.op == "zip":
            lr = LoopRef(t, self.depth_of(t))
            e = Term("elem", t, lr.depth)
            return [([lr], TRUE, Term("tuple", tuple(Term("idx", e, Const(i)) for i in range(len(t.args[0])))))]
        if t.op == "range":
            lo, hi, stp = t.args
            if lo is ZERO and stp is T.ONE and hi.op == "len":
                d = hi.args[0]
                lr = LoopRef(d, self.depth_of(d))
                return [([lr], TRUE, Term("pos", d, lr.depth))]
            if is_num(lo) and is_num(hi) and is_num(stp) and 0 <= hi.args[0] - lo.args[0] <= 6:
                return [([], TRUE, Const(i)) for i in range(int(lo.args[0]), int(hi.args[0]), int(stp.args[0]))]
            lr = LoopRef(t, self.depth_of(t))
            return [([lr], TRUE, Term("elem", t, lr.depth))]
        if t is UNDEF:
            return []
        xs = self.items_of_tuple(t)
        if xs is not None:
            return [([], TRUE, x) for x in xs]
        lr = LoopRef(t, self.depth_of(t))
        return [([lr], TRUE, Term("elem", t, lr.depth))]

    def keysdom(self, d):
        return d if d.op == "keys" else Term("keys", d)

    # ================================================================ effects
    def final_effects(self):
        for e in self.effects:
            if isinstance(e.value, (Term, Node)) and self.is_objval(e.value):
                e.value = self.snap(e.value)
        return self.effects

    def emit(self, kind, st, target=None, key=None, value=None, node=None, extra=None):
        if st.guard is FALSE:
            return
        self.seq += 1
        if value is not None and not (kind in ("setattr", "setitem") and self.is_objval(value)):
            # a local container that is stored goes on changing: its final contents count
            value = self.snap(value)
        f = self.stack[-1] if self.stack else None
        self.effects.append(Effect(kind, self.loops, st.guard, target, key, value, node, f, self.seq, extra))

    def set_attr(self, base, name, value, st, fr, node):
        def one(t, g):
            c = self.cls_of(t)
            if c is not None:
                s = self.p.find_setter(c, name)
                if s is not None and s.qual not in self.keep and len(self.stack) < self.max_depth and s not in self.stack:
                    self.inline(s, t, [value], {}, st, fr, node)
                    return NONE
                if s is not None:
                    self.emit("setattr", st, t, name, value, node)
                    return NONE
            elif name in self.trivial or self.unique_setter(name):
                s = self.unique_setter(name)
                if s is not None and s.qual not in self.keep:
                    self.inline(s, t, [value], {}, st, fr, node)
                    return NONE
            self.emit("setattr", st, t, name, value, node)
            st.heap[(t, name)] = value
            return NONE
        g0 = st.guard
        if isinstance(base, Term):
            one(base, g0)
        else:
            self.lift_guard(one, base, st)

    def unique_setter(self, name):
        c = [k.setters[name] for m in self.p.modules.values() for k in m.classes.values() if name in k.setters]
        return c[0] if len(c) == 1 else None

    def mutate(self, recv, method, args, st, fr, node):
        """Container mutation on a leaf receiver; returns the call's value."""
        if recv.op == "obj":
            return self.mutate_obj(recv, method, args, st, node)
        if method == "setdefault":
            k = args[0]
            tgt = self.index1(recv, k) if not isinstance(k, Node) else lift(self.index1, recv, k)
            dflt = self.snap(args[1]) if len(args) > 1 else NONE
            if True:
                sub = st.guard
                st.guard = And(sub, Not(lift(self.contains, k, recv)))
                self.emit("setitem", st, recv, k, dflt, node)
                st.guard = sub
            return tgt
        if method == "pop" and self.is_kind(recv, "dict") or method == "pop" and len(args) == 2:
            self.emit("delitem", st, recv, args[0], None, node)
            return lift(self.index1, recv, args[0])
        if method == "discard":
            method = "remove"
        if method == "update" and self.is_kind(recv, "dict", "set") or method == "extend":
            for c, ents in self.iterate(args[0] if not (self.is_kind(recv, "dict")) else Term("items", self.snap(args[0])) if isinstance(self.snap(args[0]), Term) else args[0], st, fr):
                for lrs, g, e in ents:
                    sub = st.guard
                    self.loops.extend(lrs)
                    st.guard = And(sub, c, g)
                    if self.is_kind(recv, "dict"):
                        self.emit("setitem", st, recv, self.unpack1(e, 0), self.unpack1(e, 1), node)
                    else:
                        self.emit("mut", st, recv, "add" if method == "update" else "append", Term("tuple", (self.snap(e),)), node)
                    del self.loops[len(self.loops) - len(lrs):]
                    st.guard = sub
            return NONE
        self.emit("mut", st, recv, method, Term("tuple", tuple(self.snap(a) for a in args)), node)
        if method == "pop":
            return Term("call", "pop", recv, *[self.snap(a) for a in args])
        return NONE

    def sort_two(self, o, st):
        """xs.sort() of a list of exactly two values."""
        c = self.objs[o]
        if len(c.events) == 2 and c.kind == "list" and all(l == tuple(self.loops) and g is st.guard and isinstance(e, Term) for l, g, e in c.events):
            es = sorted((e for _, _, e in c.events), key=lambda x: x.dg)
            c.events = [(l, g, Term("nth_sorted", i, *es)) for i, (l, g, _) in enumerate(c.events)]
            return NONE
        return None

    def mutate_obj(self, o, method, args, st, node):
        c = self.objs[o]
        loops = tuple(self.loops)
        if method in ("append", "add"):
            x = self.snap(args[0])
            g = st.guard
            if isinstance(x, Term):
                # "if x not in xs: xs.append(x)": an ordered set
                a = Term("in", x, self.bterm(c))
                if a in T.support(g) and T.cof(g, a, 1) is FALSE:
                    g = T.cof(g, a, 0)
                    c.dedup = True
            c.events.append((loops, g, x))
            return NONE
        if method in ("extend", "update", "union_update"):
            for a in args:
                for cc, ents in self.iterate(a if c.kind != "dict" else lift(lambda t: Term("items", t), self.snap(a)), st, None):
                    for lrs, g, e in ents:
                        c.events.append((loops + tuple(lrs), And(st.guard, cc, g), e))
            return NONE
        if method == "setdefault":
            k, dv = self.snap(args[0]), self.snap(args[1]) if len(args) > 1 else NONE
            if isinstance(k, Term) and c.default is None:
                if dv in EMPTY or dv is ZERO:
                    c.events.append((loops, st.guard, Term("tuple", (k, Term("part", "init", dv)))))
                elif isinstance(dv, Term):
                    g = And(st.guard, Not(self.contains(k, o)))
                    if g is not FALSE:
                        c.events.append((loops, g, Term("tuple", (k, dv))))
            return Term("objidx", o, k)
        if method in ("discard", "remove", "difference_update", "intersection_update") and not self.building(c) and c.kind in ("set", "list"):
            x = self.snap(args[0])
            new = []
            for l, g, e in c.events:
                if method == "difference_update":
                    cond = Not(lift(self.contains, e, x))
                elif method == "intersection_update":
                    cond = lift(self.contains, e, x)
                else:
                    cond = Not(lift(self.eq, e, x))
                new.append((l, And(g, Or(cond, Not(st.guard))), e))
            c.events = new
            return NONE
        if method == "clear" and not self.building(c):
            c.events = [(l, And(g, Not(st.guard)), e) for l, g, e in c.events]
            return NONE
        if method in ("sort", "reverse"):
            return NONE
        if method in ("pop", "popleft", "popitem", "insert", "appendleft", "remove", "discard", "clear"):
            for_val = Term("call", method, self.bterm(c), *[self.snap(a) for a in args])
            if method in ("insert", "appendleft"):
                c.events.append((loops, st.guard, self.snap(args[-1])))
            else:
                c.events.append((loops, st.guard, self.bterm(c)))
            return for_val
        return None

    def additive(self, c, key, v, g=TRUE):
        """e, when d[key] = v adds e to what d holds for key (0 at first)."""
        if not self.building(c) or not isinstance(key, Term) or is_boolval(v):
            return None
        bt = self.bterm(c)
        cell, at = Term("idx", bt, key), Term("in", key, bt)
        if cell not in free(v) or bt in free(key):
            return None
        has = v
        if at in free(v):
            if not isinstance(v, Node) or at not in T.support(v):
                return None
            has = T.cof(v, at, 1)
        try:
            e = self.binop(ast.Sub(), has, cell)
        except Exception:
            return None
        if bt in free(e) or is_boolval(e):
            return None
        if has is not v and T.cof(v, at, 0) is not e:
            return None
        if isinstance(e, Node):
            e = T.care(T.constrain(e, g), g)
        return e if isinstance(e, Term) else Term("v", e)

    def set_item(self, base, key, value, st, fr, node):
        key = self.snap(key)

        def one(t, g):
            if t.op == "obj":
                c = self.objs[t]
                v = self.snap(value)
                if c.kind == "dict":
                    # d[k] = <empty container> guarded by "k not in d": auto-vivification
                    if isinstance(v, Term) and (v.op == "comp" and not v.args[1] or v is ZERO) and isinstance(key, Term):
                        a = Term("in", key, self.bterm(c))
                        if a in T.support(st.guard) and T.cof(st.guard, a, 1) is FALSE:
                            c.events.append((tuple(self.loops), T.cof(st.guard, a, 0), Term("tuple", (key, Term("part", "init", v)))))
                            return NONE
                    cell = Term("objidx", t, key) if isinstance(key, Term) else None
                    if cell is not None and isinstance(c.default, Term) and cell in free(v) and not is_boolval(v):     # d[k] += e
                        e = self.binop(ast.Sub(), v, cell)
                        if isinstance(e, Term) and not any(x.op == "objidx" for x in free(e)):
                            self.vivify(c, key, st)
                            c.events.append((tuple(self.loops), st.guard, Term("tuple", (key, Term("part", "sum", e)))))
                            return NONE
                    e = self.additive(c, key, v, st.guard)
                    if e is not None:
                        c.events.append((tuple(self.loops), st.guard, Term("tuple", (key, Term("part", "sum", e)))))
                        return NONE
                    if isinstance(value, Term) and value.op == "obj":
                        # nested container: later events through d[k] are recorded as paths
                        c.events.append((tuple(self.loops), st.guard, Term("tuple", (key, v))))
                        return NONE
                    c.events.append((tuple(self.loops), st.guard, Term("tuple", (key, v))))
                else:
                    c.events.append((tuple(self.loops), st.guard, self.bterm(c)))
                return NONE
            if t.op == "objidx" and self.objs[self.root_obj(t)].kind == "list":
                self.emit("setitem", st, Term("idx", self.bterm(self.objs[self.root_obj(t)]), t.args[1]), key, value, node)
                return NONE
            if t.op == "objidx" or t.op == "idx" and isinstance(t.args[0], Term) and is_building(t.args[0]):
                v, how = self.snap(value), "set"
                cell = Term("objidx", t, key) if isinstance(key, Term) else None
                if cell is not None and cell in free(v) and not is_boolval(v):     # d[j][k] += e
                    try:
                        e = self.binop(ast.Sub(), v, cell)
                        if not any(x.op == "objidx" for x in free(e)):
                            v, how = e, "addto"
                    except Exception:
                        pass
                if any(x.op == "objidx" for x in free(v)):
                    self.emit("setitem", st, Term("idx", self.bterm(self.objs[self.root_obj(t)]), t.args[1]) if t.op == "objidx" else t, key, v, node)
                    return NONE
                self.nested_event(t, how, Term("tuple", (key, v)), st)
                return NONE
            self.emit("setitem", st, t, key, value, node)
            return NONE
        if isinstance(base, Term):
            one(base, st.guard)
        else:
            self.lift_guard(one, base, st)

    def vivify(self, c, key, st):
        """Touching a missing key of a defaultdict stores its default."""
        if isinstance(c.default, Term) and c.default not in EMPTY and c.default is not ZERO:
            c.events.append((tuple(self.loops), st.guard, Term("tuple", (key, Term("part", "init", c.default)))))

    def root_obj(self, t):
        while t.op == "objidx":
            t = t.args[0]
        return t

    def nested_event(self, t, how, val, st):
        """Event on d[k] (k a key of a local dict): recorded as a path event."""
        o = t.args[0]
        path = [t.args[1]]
        while o.op in ("objidx",):
            path.insert(0, o.args[1])
            o = o.args[0]
        c = self.objs.get(o)
        if c is None:
            return
        g = st.guard
        self.vivify(c, path[0], st)
        if how == "add" and t.op == "objidx" and len(path) == 1 and isinstance(val, Term) and self.building(c) and c.default is None:
            # adding what is there already changes nothing
            r = self.contains(val, t)
            if And(g, r) is FALSE:
                g = T.care(g, Not(r))
        c.events.append((tuple(self.loops), g, Term("tuple", (path[0] if len(path) == 1 else Term("tuple", tuple(path)), Term("part", how, val)))))

    # ================================================================ functions
    def cls_ref(self, func, recv):
        """The class a class method is called on."""
        if isinstance(recv, Term):
            if recv.op == "ref":
                r = self.refs.get(recv)
                return recv if isinstance(r, Cls) else self.mkref(func.cls)
            c = self.cls_of(recv)
            if c is not None and func.cls in self.p.mro(c):
                return self.mkref(c)
        return self.mkref(func.cls)

    def inline(self, func, self_term, args, kwargs, st, fr, node, closure_env=None):
        """Inline a call; returns its value.  st is updated in place."""
        self.stack.append(func)
        ENTERED.add(func.qual)
        env = dict(closure_env or {})
        params = func.node.args
        names = [a.arg for a in params.posonlyargs + params.args]
        nfr = Frame(func, func.module, func.cls, self_term)
        nfr.base_loops = tuple(self.loops)
        pos = list(args)
        if func.kind in ("method", "getter", "setter", "class") and names and func.cls is not None:
            env[names[0]] = self_term if func.kind != "class" else self.cls_ref(func, self_term)
            names = names[1:]
        ann = {a.arg: a.annotation for a in params.posonlyargs + params.args + params.kwonlyargs}
        dm = func.module
        defaults = dict(zip([a.arg for a in params.posonlyargs + params.args][::-1], params.defaults[::-1]))
        for a, d in zip(params.kwonlyargs, params.kw_defaults):
            if d is not None:
                defaults[a.arg] = d
        kw = dict(kwargs)
        for n in names + [a.arg for a in params.kwonlyargs]:
            if n in names and pos:
                env[n] = pos.pop(0)
            elif n in kw:
                env[n] = kw.pop(n)
            elif n in defaults:
                env[n] = self.eval_global(defaults[n], dm) if not isinstance(defaults[n], ast.Constant) else Const(defaults[n].value)
            else:
                env[n] = Term("sym", f"?{n}")
            v = env[n]
            if isinstance(v, Term) and v.op not in ("const", "enum") and self.typeof(v) is None:
                ty = self.ann_type(ann.get(n), dm)
                if ty is not None and v.op in ("sym", "attr", "idx", "elem", "key", "call", "first", "last", "new"):
                    self.types[v] = ty
        if params.vararg is not None:
            env[params.vararg.arg] = Term("tuple", tuple(pos))
        if params.kwarg is not None:
            env[params.kwarg.arg] = Term("comp", "dict", tuple(((), TRUE, Term("tuple", (Const(k), v))) for k, v in kw.items()))
        nst = State(env, st.heap, st.guard)
        nfr.given = dict(env)
        g0 = st.guard
        body = func.node.body if not isinstance(func.node, ast.Lambda) else [ast.Return(value=func.node.body)]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(func.node)):
            nfr.yields = self.new_obj("list", nst)
        self.exec_block(body, nst, nfr)
        self.stack.pop()
        # fall through returns None
        if nst.guard is not FALSE:
            nst.heap.update(self.lib_states(nfr, nst))
            nfr.returns.append((nst.guard, tuple(self.loops), NONE, nst.heap))
        val = UNDEF
        gout = FALSE
        nb = len(nfr.base_loops)
        heaps = []
        for g, loops, v, heap in reversed(nfr.returns):
            rel = loops[nb:]
            if rel:
                bvs = {b for lr in rel for b in lr.bvs()}
                c = self.exists(rel, g)
                gi = self.cof_forced(g, self.forced(g0))
                if free(v) & bvs:
                    v = self.snap(v)
                    lts, (gg, vv) = self.close(list(rel), gi, v)
                    if vv.opaque:
                        pass
                    t0 = Term("first", lts, gg, vv)
                    ty = self.typeof(v) if isinstance(v, Term) else None
                    if ty is not None:
                        self.types[t0] = ty
                    v = t0
            else:
                c = g
            val = v if val is UNDEF else Ite(self.cof_forced(c, self.forced(g0)), v, val)
            gout = Or(gout, c)
            heaps.append((c, heap, bool(rel)))
        st.guard = gout
        # merge heaps of the exits
        if heaps:
            h = dict(heaps[0][1])
            for c, h2, inl in heaps[1:]:
                h = self.merge_heap(c, h2, h)
            st.heap.clear()
            st.heap.update(h)
        self.lib_back(nfr, st, node)
        if nfr.yields is not None:
            return self.snap(nfr.yields)
        if len(nfr.returns) == 1 and getattr(nfr, "ret_obj", None) is not None and nfr.returns[0][1][nb:] == () and nfr.returns[0][0] is g0:
            return nfr.ret_obj      # a fresh container goes on living in the caller
        ty = self.ann_type(getattr(func.node, "returns", None), func.module)
        if ty is not None and isinstance(val, Term) and val.op not in ("const", "enum", "obj") and self.typeof(val) is None:
            self.types[val] = ty
        return val

    def lib_back(self, nfr, st, node):
        """Hand the final states of changed arguments to the caller's names."""
        names = [k for k in st.heap if k[1] == "#state"]
        if not names:
            return
        if not self.stack:
            return
        params = nfr.func.node.args
        pn = [a.arg for a in params.posonlyargs + params.args]
        if nfr.func.cls is not None and nfr.func.kind in ("method", "getter", "setter", "class"):
            pn = pn[1:]
        for k in names:
            v = st.heap.pop(k)
            p = k[0].args[0][1:]
            if nfr.given.get(p) is None:
                continue
            v = self.subst(v, {Term("attr", k[0], "#state"): nfr.given[p]})
            a = None
            if isinstance(node, ast.Call):
                if p in pn and pn.index(p) < len(node.args):
                    a = node.args[pn.index(p)]
                for kwd in node.keywords:
                    if kwd.arg == p:
                        a = kwd.value
            if isinstance(a, ast.Name) and a.id in st.env:
                st.env[a.id] = v

    def lib_exit(self, func, st):
        """Final states of changed parameters of the analysed function are effects."""
        for k in [k for k in st.heap if k[1] == "#state"]:
            v = st.heap.pop(k)
            t = Term("sym", k[0].args[0][1:])
            v = self.subst(v, {Term("attr", k[0], "#state"): t})
            self.emit("setattr", st, t, "#state", v, func.node)

    def merge_heap(self, c, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            if k in h1 and k in h2:
                out[k] = Ite(c, h1[k], h2[k])
            else:
                b = Term("attr", k[0], k[1])
                out[k] = Ite(c, h1.get(k, b), h2.get(k, b))
        return out

    # ================================================================ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.guard is FALSE:
                return
            self.exec(s, st, fr)

    def exec(self, s, st, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return
        m(s, st, fr)

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, fr)

    def x_Pass(self, s, st, fr):
        pass

    def x_Global(self, s, st, fr):
        for n in s.names:
            st.env.setdefault("#global", set())
            st.env["#global"] = st.env["#global"] | {n}

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        fr.ret_obj = v if isinstance(v, Term) and v.op == "obj" and v in self.objs else None
        v = self.snap(v)
        if st.guard is FALSE:
            return
        fr.returns.append((st.guard, tuple(self.loops), v, dict(st.heap, **{}) if not getattr(fr, "given", None) else {**st.heap, **self.lib_states(fr, st)}))
        self.last_return = (s, v)
        st.guard = FALSE

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            exc = Term("reraise")
        else:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            v = self.eval(n, st, fr)
            exc = v
        self.do_raise(exc, st, fr, s)

    def do_raise(self, exc, st, fr, node):
        if st.guard is FALSE:
            return
        def name(t):
            if t.op == "ref":
                return Term("exc", t.args[1].split(".")[-1])
            if t.op == "new":
                return Term("exc", t.args[0])
            if t.op == "call":
                return Term("exc", str(t.args[0]).split(".")[-1])
            return t
        exc = lift(name, exc)
        # an enclosing handler of this frame catches it
        for h in reversed(fr.handlers):
            if h["active"]:
                h["caught"].append((st.guard, dict(st.env), dict(st.heap), exc, tuple(self.loops)))
                st.guard = FALSE
                return
        for l, c in leaves(exc):
            sub = st.guard
            st.guard = And(sub, c)
            self.emit("raise", st, l, node=node)
            st.guard = sub
        st.guard = FALSE

    def x_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr))
        sub = st.copy(And(st.guard, Not(c)))
        self.do_raise(Term("ref", "ext", "AssertionError"), sub, fr, s)
        st.guard = And(st.guard, c)

    def boxed(self, v, st, s):
        """A local container whose contents the analysis cannot express becomes an
        object of its own: what is done to it is an effect."""
        if not (isinstance(v, Term) and v.op == "obj"):
            return v
        self.born.setdefault(v.args[0], s)
        if s not in self.boxset:
            return v
        self.nbox += 1
        b = Term("box", self.boxnames.get(self.nbox, self.nbox))
        self.types[b] = self.types.get(v)
        c = self.objs[v]
        d = c.default
        self.emit("box", st, b, None, Term("tuple", (self.snap_obj(v), d if isinstance(d, Term) else Const(d is not None))), s)
        return b

    def x_Assign(self, s, st, fr):
        if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and len(s.value.elts) == len(s.targets[0].elts) \
                and not any(isinstance(e, ast.Starred) for e in s.value.elts + s.targets[0].elts):
            # a, b = x, y: no tuple is built
            vals = [self.boxed(self.eval(e, st, fr), st, e) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, st, fr, s)
            return
        v = self.eval(s.value, st, fr)
        v = self.boxed(v, st, s)
        for t in s.targets:
            self.assign(t, v, st, fr, s)

    def x_AnnAssign(self, s, st, fr):
        if s.value is None:
            return
        v = self.eval(s.value, st, fr)
        if isinstance(v, Term) and v.op == "obj":
            ty = self.ann_type(s.annotation, fr.module)
            if ty is not None:
                self.types[v] = ty
            v = self.boxed(v, st, s)
        elif isinstance(v, Term) and v.op in ("call", "attr", "idx") and self.typeof(v) is None:
            ty = self.ann_type(s.annotation, fr.module)
            if ty is not None:
                self.types[v] = ty
        self.assign(s.target, v, st, fr, s)

    def x_AugAssign(self, s, st, fr):
        cur = self.eval(as_load(s.target), st, fr)
        if isinstance(cur, Term) and cur.op == "obj" and self.objs[cur].kind in ("list", "set") and isinstance(s.op, (ast.Add, ast.BitOr)) \
                and isinstance(s.value, (ast.List, ast.Tuple, ast.Set)) and not any(isinstance(e, ast.Starred) for e in s.value.elts):
            for x in [self.eval(e, st, fr) for e in s.value.elts]:
                self.mutate_obj(cur, "append" if self.objs[cur].kind == "list" else "add", [x], st, s)
            return
        rhs = self.eval(s.value, st, fr)
        if isinstance(cur, Term) and cur.op == "obj":
            o = {"Add": "extend", "BitOr": "update", "Sub": "difference_update", "BitAnd": "intersection_update"}.get(type(s.op).__name__)
            if o:
                self.mutate_obj(cur, o, [rhs], st, s)
                return
        if isinstance(cur, Term) and self.is_kind(cur, "list", "set") and type(s.op).__name__ in ("Add", "BitOr") and not (isinstance(s.target, ast.Name) and s.target.id in getattr(fr, "rebound", ())):
            self.mutate(cur, "extend" if self.is_kind(cur, "list") else "update", [rhs], st, fr, s)
            return
        v = self.binop(s.op, cur, rhs)
        self.assign(s.target, v, st, fr, s)

    def loaded(self, node):
        r = self.loads.get(node)
        if r is None:
            r = self.loads[node] = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)} \
                | {n.target.id for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)} \
                | {x for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        return r

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if t.id in st.env.get("#global", ()):
                self.emit("setglobal", st, Term("global", fr.module.short, t.id), None, v, node)
            elif fr is not None and fr.func is not None and getattr(fr.func, "node", None) is not None and t.id not in self.loaded(fr.func.node):
                return          # never read
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v = self.snap(v)
            if n == 2 and not star and isinstance(v, Term) and v.op == "elem":
                self.pairs2.add(v)      # it was unpacked, so it is a pair
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, Term("opaque", "star"), st, fr, node)
                elif star and i > star[0]:
                    self.assign(e, lift(lambda x: self.index1(x, Const(i - n)), v), st, fr, node)
                else:
                    self.assign(e, self.unpack1(v, i), st, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            self.set_attr(b, t.attr, v, st, fr, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            k = self.eval(t.slice, st, fr)
            self.set_item(b, k, v, st, fr, node)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                k = self.eval(t.slice, st, fr)

                def one(x, g):
                    if x.op == "obj":
                        c = self.objs[x]
                        if c.kind == "dict" and not self.building(c):
                            c.events = [(l, And(g0, Or(Not(lift(self.eq, self.unpack1(e, 0), k)), Not(st.guard))), e) for l, g0, e in c.events]
                        else:
                            c.events.append((tuple(self.loops), st.guard, Term("opaque", "del")))
                    else:
                        self.emit("delitem", st, x, self.snap(k), None, s)
                    return NONE
                self.lift_guard(one, b, st)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, fr)
                self.emit("delattr", st, b, t.attr, None, s)

    def x_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr))
        self.branch(c, s.body, s.orelse, st, fr)

    def branch(self, c, body, orelse, st, fr):
        g = st.guard
        gt, gf = And(g, c), And(g, Not(c))
        if gf is FALSE:
            self.exec_block(body, st, fr)
            return
        if gt is FALSE:
            self.exec_block(orelse, st, fr)
            return
        a = st.copy(gt)
        b = st.copy(gf)
        self.exec_block(body, a, fr)
        self.exec_block(orelse, b, fr)
        self.merge(c, a, b, st)

    def merge(self, c, a, b, st):
        if a.guard is FALSE:
            st.env, st.guard = b.env, b.guard
            st.heap.clear()
            st.heap.update(b.heap)
            return
        if b.guard is FALSE:
            st.env, st.guard = a.env, a.guard
            st.heap.clear()
            st.heap.update(a.heap)
            return
        env = {}
        for k in set(a.env) | set(b.env):
            if k == "#global":
                env[k] = a.env.get(k, frozenset()) | b.env.get(k, frozenset())
                continue
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            env[k] = x if x is y else Ite(c, x, y)
        st.env = env
        h = self.merge_heap(c, a.heap, b.heap)
        st.heap.clear()
        st.heap.update(h)
        st.guard = Or(a.guard, b.guard)

    # ---------------------------------------------------------------- loops
    def as_mapping(self, v, expr, target, body, st):
        """Iterating a value of unknown type that is known to be a dict here, or
        that the body subscripts by its own elements, walks over its keys."""
        v = self.snap(v)

        def one(t):
            if t.op not in ("idx", "elem", "attr", "param", "call", "var") or self.typeof(t) is not None:
                return t
            a = Term("isinstance", t, Term("ref", "ext", "dict"))
            if a in T.support(st.guard) and T.cof(st.guard, a, 0) is FALSE:
                return Term("keys", t)
            if isinstance(target, ast.Name):
                me = ast.dump(expr)
                for b in body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == target.id and ast.dump(x.value) == me:
                            return Term("keys", t)
            return t
        return lift(one, v) if isinstance(v, (Term, Node)) else v

    def x_For(self, s, st, fr):
        it = self.as_mapping(self.eval(s.iter, st, fr), s.iter, s.target, s.body, st)
        alts = self.iterate(it, st, fr)
        brk_any = FALSE
        assigned = assigned_names(s.body + [s])
        for c, ents in alts:
            g_alt = And(st.guard, c)
            if g_alt is FALSE:
                continue
            if len(alts) > 1:
                sub = st.copy(g_alt)
                brk = self.run_entries(s, ents, assigned, sub, fr)
                rest = st.copy(And(st.guard, Not(c)))
                self.merge(c, sub, rest, st)
            else:
                brk = self.run_entries(s, ents, assigned, st, fr)
            brk_any = Or(brk_any, brk)
        if s.orelse:
            self.branch(Not(brk_any), s.orelse, [], st, fr)

    def run_entries(self, s, ents, assigned, st, fr):
        """Runs the loop body for each entry; returns formula 'loop was broken'."""
        broken = FALSE
        live_after_break = []
        for lrs, g, e in ents:
            if not lrs:
                if st.guard is FALSE:
                    break
                gi = And(st.guard, g)
                if gi is FALSE:
                    continue
                sub = st.copy(gi)
                skip = st.copy(And(st.guard, Not(g)))
                ctx = {"cont": [], "brk": []}
                fr.lctx.append(ctx)
                self.assign(s.target, e, sub, fr, s)
                self.exec_block(s.body, sub, fr)
                fr.lctx.pop()
                self.join_saved(sub, ctx["cont"])
                if skip.guard is FALSE:
                    st.env, st.guard = sub.env, sub.guard
                    st.heap.clear(); st.heap.update(sub.heap)
                else:
                    self.merge(g, sub, skip, st)
                live_after_break += ctx["brk"]
            else:
                b = self.run_loop(s, lrs, g, e, assigned, st, fr)
                broken = Or(broken, b)
        for bg, benv, bheap in live_after_break:
            broken = Or(broken, bg)
        self.join_saved(st, live_after_break)
        return broken

    def join_saved(self, st, saved):
        for g, env, heap in saved:
            if g is FALSE:
                continue
            if st.guard is FALSE:
                st.env, st.guard = env, g
                st.heap.clear(); st.heap.update(heap)
            else:
                a = State(env, heap, g)
                b = State(st.env, dict(st.heap), st.guard)
                self.merge(g, a, b, st)

    def self_keyed(self, s, lrs, env0, body):
        """Local dicts the body of a loop over distinct keys only touches at the
        key of the current iteration: before anything was stored there in this
        iteration, such a dict reads as it did before the loop."""
        if len(lrs) != 1 or not isinstance(s, ast.For):
            return {}
        ts = [x for x in ast.walk(s.target) if isinstance(x, ast.Name)]
        t = next((x for x in ts if isinstance(body.env.get(x.id), Term) and body.env[x.id] is Term("key", lrs[0].dom, lrs[0].depth)), None)
        if t is None or t.id in assigned_names(s.body):
            return {}
        k = body.env[t.id]
        ok, no = set(), set()
        seen = set()

        def is_key(x):
            return isinstance(x, ast.Name) and x.id == t.id
        for b in s.body:
            for n in ast.walk(b):
                d = None
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and is_key(n.slice):
                    d = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("get", "setdefault", "pop") and n.args and is_key(n.args[0]):
                    d = n.func.value
                elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and is_key(n.left) and isinstance(n.comparators[0], ast.Name):
                    d = n.comparators[0]
                if d is not None:
                    ok.add(id(d))
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name):
                    v = env0.get(n.id)
                    if isinstance(v, Term) and v.op == "obj":
                        (seen if id(n) in ok else no).add(v)
                    elif isinstance(v, Node) or isinstance(v, Term) and v.op in ("tuple", "objidx", "bound", "closure"):
                        no |= {x for x in self.objs if mentions_obj(v)}
        r = {}
        for o in seen - no:
            c = self.objs.get(o)
            if c is not None and c.kind == "dict" and c.default is None and len(c.loops) == len(self.loops) - 1 and o not in self.selfkeyed:
                r[o] = (self.snap_pre(o), k, len(self.loops) - 1)
        return r

    def snap_pre(self, o):
        loops = self.loops
        self.loops = loops[:-1]
        try:
            return self.snap_obj(o)
        finally:
            self.loops = loops

    def pre_read(self, o, k):
        """The content of a self-keyed dict as the current iteration found it."""
        sk = self.selfkeyed.get(o)
        if sk is None or sk[1] is not k:
            return None
        d = sk[2]
        if len(self.loops) <= d or any(len(l) > d and l[d] is self.loops[d] for l, _, _ in self.objs[o].events):
            return None
        return sk[0]

    def dead_after(self, s, fr):
        """Names assigned in the loop whose value is never read once it ends."""
        func = getattr(fr.func, "node", None)
        if s is None or fr.lctx or not isinstance(s, ast.For) or not isinstance(func, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ()
        k = (id(s), id(func))
        r = self.deads.get(k)
        if r is None:
            inside = {id(x) for x in ast.walk(s)}
            own, read = set(), set()
            for x in ast.walk(func):
                if isinstance(x, ast.Name):
                    if id(x) not in inside:
                        if not isinstance(x.ctx, ast.Store):
                            read.add(x.id)
                    elif isinstance(x.ctx, ast.Store):
                        own.add(x.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    read.update(x.names)
                elif isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not func:
                    read.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
            self.deads[k] = r = own - read if id(s) in {id(x) for x in ast.walk(func)} else set()
        return r

    def run_loop(self, s, lrs, g, e, assigned, st, fr, test=None):
        g_in = st.guard
        libs = {lib_target(x) for b in s.body for x in ast.walk(b) if isinstance(x, ast.Call)} & set(assigned)
        for n in sorted(libs - {None, "#global"}):
            v = st.env.get(n)   # a list that becomes a heap inside the loop
            if v is not None and self.is_objval(v) and all(self.only_rebound(n, b) for b in s.body) and not any(k != n and v2 is v for k, v2 in st.env.items()):
                v = self.snap(v)
                if not self.is_objval(v):
                    st.env[n] = v
        mut = self.maymutate(s.body, st, fr)
        for lr in lrs:
            lr.mut = mut
        self.loops.extend(lrs)
        n_eff = len(self.effects)
        n_ret = len(fr.returns)
        carried = {}
        entry_env = dict(st.env)
        body = st.copy(And(g_in, g))
        start = [n for n in assigned if n in entry_env and n != "#global"]
        # (the numbering must not depend on how the body is laid out)
        start.sort(key=lambda n: T._dga(entry_env[n]) if not self.is_objval(entry_env[n]) else "~")
        for i, n in enumerate(start):
            if n in entry_env:
                x0 = entry_env[n]
                if self.is_objval(x0):
                    # a container replaced, but not changed in place, by the body
                    if mut is None or not (isinstance(x0, Term) and x0.args[0] not in mut):
                        continue
                    x0 = self.snap(x0)
                    if self.is_objval(x0):
                        continue
                if n == "#global":
                    continue
                if isinstance(x0, Node) and not is_boolval(x0):
                    x0 = T.care(T.constrain(x0, g_in), g_in)
                if is_boolval(x0):
                    a = atom(Term("accb", len(self.loops), i))
                else:
                    a = Term("acc", len(self.loops), i)
                    ty = self.typeof(x0) if x0 is not NONE else None
                    if ty is not None and ty != ("none",):
                        self.types[a] = ty
                carried[n] = (a, x0)
                body.env[n] = a
        heap0 = dict(body.heap)
        ctx = {"cont": [], "brk": []}
        fr.lctx.append(ctx)
        if s is not None and getattr(s, "target", None) is not None:
            self.assign(s.target, e, body, fr, s)
        if test is not None:
            t = self.truth(self.eval(test, body, fr))
            body.guard = And(body.guard, t)
        gi = body.guard
        sk = self.self_keyed(s, lrs, entry_env, body) if test is None else {}
        self.selfkeyed.update(sk)
        self.exec_block(s.body, body, fr)
        for o in sk:
            self.selfkeyed.pop(o, None)
        fr.lctx.pop()
        self.join_saved(body, ctx["cont"])
        brk = FALSE
        for bg, _, _ in ctx["brk"]:
            brk = Or(brk, bg)
        self.join_saved(body, ctx["brk"])
        g_out = body.guard
        exitf = And(gi, Not(g_out))
        forced_in = self.forced(g_in)
        brk_rel = self.cof_forced(brk, forced_in)
        if brk is not FALSE:
            for lr in lrs[:1]:
                lr.stop = And(self.cof_forced(brk, forced_in))
        del self.loops[len(self.loops) - len(lrs):]
        if self.bused:
            exitf, brk, brk_rel, g_out = self.settle(lrs, n_eff, n_ret, fr, body, exitf, brk, brk_rel, g_out)
        # early exits (return/raise) inside the loop stop it
        after = And(g_in, Not(self.exists(lrs, exitf)))
        broken = self.exists(lrs, brk)
        # variables
        env = dict(st.env)
        accs = {a if isinstance(a, Term) else a.var for a, _ in carried.values()}
        fsys = self.for_system(carried, body.env, lrs, g_in, gi, g_out, brk, forced_in, n_eff, n_ret, fr)
        dead = self.dead_after(s, fr)
        for n, v in body.env.items():
            if n in dead and not self.is_objval(v) and not (n in carried and self.is_objval(carried[n][1])):
                env[n] = UNDEF
            elif n in carried:
                a, x0 = carried[n]
                r = self.carry(n, a, x0, v, lrs, gi, g_out, brk, forced_in, accs)
                if n in fsys and any(isinstance(y, Term) and (y.op == "opaque" or free(y) & accs) for y in free(r)):
                    colour = fsys[n]
                    r = Term("afterfor", colour)
                    ty = self.types.get(a.var if isinstance(a, Node) else a)
                    if ty is not None:
                        self.types[r] = ty
                    r = atom(r) if isinstance(a, Node) else r
                env[n] = r
            elif n not in entry_env:
                if n in assigned or True:
                    env[n] = self.last_value(v, lrs, self.cof_forced(g_out, forced_in), UNDEF)
            else:
                env[n] = v
        st.env = env
        # heap: keep facts that still hold
        newh = {}
        for k, v in body.heap.items():
            if k in heap0 and heap0[k] is v:
                newh[k] = v
        bvs = {b for lr in lrs for b in lr.bvs()}
        for k, v in body.heap.items():
            if k not in newh and not (free(k[0]) & bvs) and False:
                newh[k] = v
        st.heap.clear()
        st.heap.update(newh)
        st.guard = after
        return broken

    def for_system(self, carried, benv, lrs, g_in, gi, g_out, brk, forced_in, n_eff, n_ret, fr):
        """The carried variables of a for loop as a system of initial values and
        updates; their values during the loop replace the accumulator symbols.
        {name: colour}"""
        if not carried or not lrs:
            return {}
        var = {n: (a.var if isinstance(a, Node) else a) for n, (a, _) in carried.items()}
        accs = set(var.values())

        def uses(x):
            return isinstance(x, (Term, Node)) and bool(free(x) & accs)
        outs = {}
        try:
            done = Or(self.cof_forced(g_out, forced_in), self.cof_forced(brk, forced_in))
            gi2 = self.cof_forced(gi, forced_in)
            for n, (a, x0) in carried.items():
                o = benv.get(n, UNDEF)
                if o is a:
                    continue
                o = self.snap(o) if not is_boolval(o) else o
                o = Ite(And(gi2, done), o, a)
                outs[n] = T.care(T.constrain(o, g_in), g_in) if isinstance(o, Node) and not is_boolval(o) else o
        except Limit:
            return {}
        first = FALSE               # the first iteration finds the initial value
        if len(lrs) == 1 and isinstance(lrs[0].dom, Term) and lrs[0].dom.op == "range" and is_num(lrs[0].dom.args[0]):
            first = self.eq(Term("elem", lrs[0].dom, lrs[0].depth), lrs[0].dom.args[0])
        one = {var[n]: Term("wini", x0 if isinstance(x0, Term) else Term("v", x0)) for n, (a, x0) in carried.items()}
        # ... and those the later iterations do not build on never show otherwise
        fresh = {n for n, o in outs.items() if first is not FALSE and not isinstance(carried[n][0], Node) and not is_boolval(o)
                 and isinstance(o, Node) and var[n] not in free(Ite(first, ZERO, o))}
        for n in fresh:
            one[var[n]] = Ite(first, carried[n][1], one[var[n]])
        # parts of the values that are not representable stay as they were
        colour = {}
        for n, o in outs.items():
            x0 = carried[n][1]
            u = self.wsubst(o, one)
            lts, (gg, v2) = self.close([LoopRefNoStop(l) for l in lrs], TRUE, u if not is_boolval(u) else Term("v", u))
            colour[n] = Term("fcol", x0 if isinstance(x0, Term) else Term("v", x0), lts, v2 if isinstance(v2, Term) else Term("v", v2))
        el = Term("elem", lrs[-1].dom, lrs[-1].depth)
        m = {}
        for n in carried:
            if n not in colour:
                m[var[n]] = carried[n][1]
                continue
            v = Term("fv", colour[n], el)
            ty = self.types.get(var[n])
            if ty is not None:
                self.types[v] = ty
            m[var[n]] = Ite(first, carried[n][1], v) if n in fresh else v
        self.subst_inner(n_eff, n_ret, fr, m)
        for e in self.effects[n_eff:]:
            for k in ("guard", "target", "key", "value"):
                v = getattr(e, k)
                if uses(v):
                    setattr(e, k, self.wsubst(v, m))
        for i in range(n_ret, len(fr.returns)):
            g, l, v, h = fr.returns[i]
            if uses(g) or uses(v):
                fr.returns[i] = (self.wsubst(g, m), l, self.wsubst(v, m) if isinstance(v, (Term, Node)) else v, h)
        for c in self.objs.values():
            if any(len(l) > len(self.loops) and (uses(g) or uses(e)) for l, g, e in c.events):
                c.events = [(l, self.wsubst(g, m), self.wsubst(e, m)) for l, g, e in c.events]
        return colour

    def settle(self, lrs, n_eff, n_ret, fr, body, *vals):
        """Membership tests in a container filled by the loop just left mean 'added by an earlier iteration'."""
        m = {}
        for o in list(self.bused):
            c = self.objs[o]
            if len(c.loops) != len(self.loops):
                continue
            self.bused.discard(o)
            n = len(c.loops)
            inside = [ev for ev in c.events if len(ev[0]) > n]
            if c.kind == "dict":
                self.settle_dict(o, c, lrs, m)
                if self.bterm(c) not in m:
                    self.settle_keys(c, lrs, m)
                continue
            if any(isinstance(e, Term) and T._opq(e) for _, _, e in c.events) or c.kind == "dict":
                continue
            inside = [ev for ev in inside if ev[0][n] is lrs[0]]
            if not inside or any(T._opq(e) if isinstance(e, Term) else True for _, _, e in inside):
                continue
            pre = [ev for ev in c.events if not (len(ev[0]) > n and ev[0][n] is lrs[0])]
            bt = self.bterm(c)
            if any(T._opq(g) or bt in free(e) or not isinstance(e, Term) for _, g, e in pre):
                continue
            # what an earlier iteration adds, whether or not it was there already
            a_events, ok = [], True
            for l, g, e in inside:
                if bt in free(g):
                    at = Term("in", e, bt)
                    if at in T.support(g) and T.cof(g, at, 1) is FALSE and bt not in free(T.cof(g, at, 0)):
                        g = T.cof(g, at, 0)
                    else:
                        ok = False
                a_events.append((l[n:], self.cof_forced(g, self.forced(c.guard)), e))
            if not ok:
                continue
            m[bt] = Term("earlier", self.make_comp("set", a_events))
            if pre:
                m[bt] = Term("either", self.make_comp("set", [(l[n:], g, e) for l, g, e in pre]), m[bt])
        if not m:
            return vals
        for e in self.effects[n_eff:]:
            e.guard = self.subst(e.guard, m)
            for k in ("target", "key", "value"):
                v = getattr(e, k)
                if isinstance(v, (Term, Node)):
                    setattr(e, k, self.subst(v, m))
        for i in range(n_ret, len(fr.returns)):
            g, l, v, h = fr.returns[i]
            fr.returns[i] = (self.subst(g, m), l, self.subst(v, m) if isinstance(v, (Term, Node)) else v, h)
        for k, v in list(body.env.items()):
            if isinstance(v, (Term, Node)):
                body.env[k] = self.subst(v, m)
        body.guard = self.subst(body.guard, m)
        for c in self.objs.values():
            if any(len(l) > len(self.loops) for l, _, _ in c.events):
                c.events = [(l, self.subst(g, m), self.subst(e, m)) for l, g, e in c.events]
        return tuple(self.subst(v, m) for v in vals)

    def settle_keys(self, c, lrs, m):
        """A dict of which the loop reads nothing back but which keys it has."""
        n = len(c.loops)
        bt = self.bterm(c)
        if any(not (len(ev[0]) > n and ev[0][n] is lrs[0]) for ev in c.events):
            return
        forced = self.forced(c.guard)
        keys = []
        for l, g, e in c.events:
            if not isinstance(e, Term) or e.op != "tuple" or len(e.args[0]) != 2 or has_part(e):
                return
            for K, cond in (leaves(e.args[0][0]) if isinstance(e.args[0][0], Node) else ((e.args[0][0], TRUE),)):
                at = Term("in", K, bt)
                gk = And(g, cond)
                if bt in free(gk) and at in T.support(gk) and T.cof(gk, at, 1) is FALSE:
                    gk = T.cof(gk, at, 0)
                if bt in free(gk) or bt in free(K) or T._opq(gk) or T._opq(K):
                    return
                keys.append((l[n:], self.cof_forced(gk, forced), K))
        for l, g, e in c.events:
            for x in free(g) | free(e):
                if isinstance(x, Term) and bt in x.args and x.op != "in":
                    return
        m[bt] = Term("earlier", self.make_comp("set", keys))

    def settle_dict(self, o, c, lrs, m):
        """A dict whose entry for the current key is read back: a fold per key."""
        n = len(c.loops)
        bt = self.bterm(c)
        inside = [ev for ev in c.events if len(ev[0]) > n and ev[0][n] is lrs[0]]
        if not inside:
            return
        # keys filled in before the loop with empty collections hold nothing
        empty = EMPTY
        pre = [ev for ev in c.events if not (len(ev[0]) > n and ev[0][n] is lrs[0])]
        if not all(isinstance(e, Term) and e.op == "tuple" and len(e.args[0]) == 2 and e.args[0][1] in empty for _, _, e in pre):
            return
        if all(has_part(e) and isinstance(e, Term) for _, _, e in inside):
            # a dict of collections: what earlier iterations put there
            evs = []
            for l, g, e in inside:
                K, part = e.args[0]
                if part.args[0] == "init":
                    # nothing happens when the key is there already
                    at = Term("in", K, bt)
                    if at in T.support(g):
                        g = T.cof(g, at, 0)
                elif part.args[0] == "add":
                    at = Term("in", part.args[1], Term("idx", bt, K))
                    if at in T.support(g):
                        g0 = T.cof(g, at, 0)
                        if And(T.cof(g, at, 1), Not(g0)) is FALSE:
                            g = g0
                if bt in free(g) or bt in free(e) or T._opq(g) or e.opaque:
                    return
                evs.append((l[n:], self.cof_forced(g, self.forced(c.guard)), e))
            m[bt] = Term("earlier", self.make_comp("dict", evs))
            return
        if pre:
            return
        groups = {}
        for l, g, e in c.events:
            if not isinstance(e, Term) or e.op != "tuple" or len(e.args[0]) != 2 or T._opq(e.args[0][0]):
                return
            groups.setdefault((l, e.args[0][0]), []).append((g, e.args[0][1]))
        ks = tuple(k for _, k in groups)
        raw = Term("cellmap", ks)
        forced = self.forced(c.guard)
        out, seen = [], []
        for (L, K), evs in groups.items():
            G, V = FALSE, UNDEF
            for g, v in evs:
                g = self.cof_forced(self.subst(g, {bt: raw}), forced)
                v = self.subst(v, {bt: raw})
                if isinstance(v, Term) and v.op == "part":
                    return
                G, V = Or(G, g), Ite(g, v, V)
            if raw in free(G) or raw in free(V):
                return
            if any(And(G, o) is not FALSE for o in seen):
                return
            seen.append(G)
            # the value when a key is not written stays what it was
            V = Term("kfold", V if isinstance(V, Term) else Term("v", V))
            if V.opaque or T._opq(G):
                return
            out.append((L, G, Term("tuple", (K, V))))
        c.events = out
        C = self.make_comp("dict", [(L[n:], G, e) for L, G, e in out])
        m[bt] = Term("cellmap", ks, C)

    def is_objval(self, v):
        return any(l.op == "obj" for l, _ in leaves(v)) if isinstance(v, Node) else isinstance(v, Term) and v.op == "obj"

    def last_value(self, v, lrs, g, x0):
        v0 = v
        if isinstance(v, Term) and v.op == "obj":
            return v
        v = self.snap(v)
        bvs = {b for lr in lrs for b in lr.bvs()}
        if not (free(v) & bvs):
            return v
        broke = any(lr.stop is not FALSE for lr in lrs)
        p = lrs[0].stop if broke else g
        op = "first" if broke else "last"
        lts, (gg, vv) = self.close([LoopRefNoStop(l) for l in lrs], p, v)
        t = Term(op, lts, gg, vv)
        if isinstance(v, Term):
            ty = self.typeof(v)
            if ty:
                self.types[t] = ty
        return t

    def carry_lib(self, a, x0, rel, lrs, gi, brk, forced_in, accs):
        """Every iteration only makes calls of one (commuting) kind on the object."""
        if brk is not FALSE or any(l.kind != "for" for l in lrs):
            return None
        m, ents = None, []
        g0 = self.cof_forced(gi, forced_in)
        for l, f in rel:
            if l is a:
                continue
            if not (isinstance(l, Term) and l.op == "lib" and l.args[0] is a and l.args[1] in LIB_METHODS and m in (None, l.args[1]) and isinstance(l.args[2], Term) and l.args[2].op == "comp"):
                return None
            m = l.args[1]
            if free(f) & accs or free(l.args[2]) & accs:
                return None
            for ls, g, e in self.open_entries(l.args[2]):
                ents.append((list(lrs) + list(ls), And(g0, f, g), e))
        if m is None:
            return None
        out = []
        for ls, g, e in ents:
            lts, (g2, e2) = self.close(ls, g, e)
            out.append((lts, g2, e2))
        c = Term("comp", "set", tuple(out))
        ents = self.open_entries(c)
        return lift(lambda p: self.lib_state(p, m, ents), x0)

    def carry(self, n, a, x0, out, lrs, gi, go, brk, forced_in, accs):
        if isinstance(a, Node):      # boolean accumulator
            var = a.var
            if out is a:
                return x0
            ok = is_boolval(out)
            if ok:
                t1, t0 = T.cof(out, var, 1), T.cof(out, var, 0)
                others = (free(t1) | free(t0)) & accs
                if not others:
                    if t1 is TRUE:
                        p = And(gi, t0)
                        return Or(x0, self.cof_forced(self.exists(lrs, p), forced_in))
                    if t0 is FALSE:
                        p = And(gi, Not(t1))
                        return And(x0, Not(self.cof_forced(self.exists(lrs, p), forced_in)))
                    # assigned a constant under a condition: out = p ? const : acc
                    chg = Not(lift(self.eq2, t1, t0)) if False else None
                    keep1, keep0 = t1, Not(t0)
                    # value after: independent last value
                    if t1 is t0:
                        return self.last_value(t1, lrs, self.cof_forced(go, forced_in), x0) if free(t1) & {b for l in lrs for b in l.bvs()} else Ite(self.exists(lrs, gi), t1, x0)
            return Term("opaque", "boolacc") if not ok else Or(And(Term_atom_opaque("boolacc", out), TRUE), FALSE)
        if out is a:
            return x0
        out = self.snap(out)
        rel = [(l, f) for l, f in leaves(out)]
        keep = FALSE
        others = FALSE
        simple = True
        for l, f in rel:
            if free(f) & accs:
                simple = False
            if l is a:
                keep = Or(keep, f)
            else:
                others = Or(others, f)
                if free(l) & accs:
                    simple = False
        bvs = {b for lr in lrs for b in lr.bvs()}
        r = self.carry_lib(a, x0, rel, lrs, gi, brk, forced_in, accs)
        if r is not None:
            return r
        if simple:
            p = And(self.cof_forced(gi, forced_in), others)
            if brk is not FALSE:
                pass
            v = out
            for l, f in rel:
                pass
            # restrict value to the assignment condition
            vv = lift_leaf_drop(out, a)
            if not (free(vv) & bvs):
                val = vv
            else:
                broke = brk is not FALSE
                lts, (gg, v2) = self.close([LoopRefNoStop(l) for l in lrs], p, vv)
                val = Term("first" if broke else "last", lts, gg, v2)
                ty = self.typeof(vv) if isinstance(vv, Term) else self.typeof(a)
                if ty is None:
                    ty = self.types.get(a)
                if ty:
                    self.types[val] = ty
            return Ite(self.exists(lrs, p), val, x0)
        # additive accumulator
        try:
            if all(as_poly(l) is not None and as_poly(l).get(((a, 1),)) == 1 and not any(
                    a in free(t) for m in as_poly(l) if m != ((a, 1),) for t, _ in m) and not (free(f) & accs) for l, f in rel):
                e = lift(lambda l: T.add(l, T.neg(a)), out)
                e = Ite(self.cof_forced(gi, forced_in), e, ZERO)
                if not (free(e) & accs) and brk is FALSE:
                    return lift(T.add, x0, self.sum_over(lrs, e))
        except Limit:
            pass
        if free(out) & (accs - {a}):
            return Term("opaque", "carried", n)
        a0 = Term("acc0", "f")
        try:
            # what an iteration that leaves the function would have carried on does not matter
            out = Ite(Or(Not(self.cof_forced(gi, forced_in)), self.cof_forced(Or(go, brk), forced_in)), out, a)
        except Limit:
            pass
        o2 = self.subst(T.care(T.constrain(out, forced_in.care), forced_in.care) if isinstance(out, Node) and isinstance(forced_in, Forced) else out, {a: a0})
        gi = self.cof_forced(gi, forced_in)
        if isinstance(o2, Node) and not is_boolval(o2) and not (free(gi) & accs):
            o2 = T.care(T.constrain(o2, gi), gi)
        lts, (gg, v2) = self.close(list(lrs), gi, o2)
        return Term("fold", x0 if isinstance(x0, Term) else Term("v", x0), lts, gg, v2)

    def x_While(self, s, st, fr):
        s = leading_test(s)
        f = counting_loop(s, fr.func.node if fr.func is not None else None)
        if f is not None and isinstance(st.env.get(f.target.id), Term):
            return self.x_For(f, st, fr)
        dom = Term("while", len(self.loops), ast.dump(s.test)[:0])
        lr = LoopRef(dom, self.depth_of(dom), "while")
        b = self.run_while(s, lr, st, fr)

    def subst_inner(self, n_eff, n_ret, fr, m):
        """Replaces loop variables in the domains of the loops nested in the one just left."""
        n, seen = len(self.loops), set()
        recs = [e.loops for e in self.effects[n_eff:]] + [l for _, l, _, _ in fr.returns[n_ret:]]
        recs += [l for c in self.objs.values() for l, _, _ in c.events]
        for l in recs:
            for lr in l[n:]:
                if id(lr) in seen:
                    continue
                seen.add(id(lr))
                if isinstance(lr.dom, Term) and lr.dom.op != "while" and free(lr.dom) & set(m):
                    d = self.wsubst(lr.dom, m)
                    if isinstance(d, Term):
                        lr.dom = d

    def only_rebound(self, n, s):
        """The name is read, assigned and augmented in the loop, never changed through a method or an item."""
        return not any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.value, ast.Name) and x.value.id == n for x in ast.walk(s))

    def run_while(self, s, lr, st, fr):
        assigned = assigned_names(s.body)
        for n in assigned:
            v = st.env.get(n)
            if v is not None and n != "#global" and self.is_objval(v) and self.only_rebound(n, s) and not any(k != n and v2 is v for k, v2 in st.env.items()):
                st.env[n] = self.snap(v)
                fr.rebound = getattr(fr, "rebound", frozenset()) | {n}
        g_in = st.guard
        forced_in = self.forced(g_in)
        lr.mut = self.maymutate(s.body + [s.test], st, fr)
        self.loops.append(lr)
        n_eff, n_ret = len(self.effects), len(fr.returns)
        body = st.copy(g_in)
        body.heap.clear()
        carried = {}
        names = [n for n in assigned if n in body.env and n != "#global" and not self.is_objval(body.env[n])]
        names.sort(key=lambda n: body.env[n].dg)
        for i, n in enumerate(names):
            if True:
                x0 = body.env[n]
                a = Term("wvt", len(self.loops), i)
                if is_boolval(x0):
                    a = atom(Term("wvb", len(self.loops), i))
                else:
                    ty = self.typeof(x0) if isinstance(x0, Term) and x0 is not NONE else None
                    if ty is not None and ty != ("none",):
                        self.types[a] = ty
                carried[n] = (a, x0)
                body.env[n] = a
        ctx = {"cont": [], "brk": []}
        fr.lctx.append(ctx)
        t = self.truth(self.eval(s.test, body, fr))
        body.guard = And(body.guard, t)
        gi = body.guard
        self.exec_block(s.body, body, fr)
        fr.lctx.pop()
        self.join_saved(body, ctx["cont"])
        g_cont = body.guard
        brk = FALSE
        for bg, _, _ in ctx["brk"]:
            brk = Or(brk, bg)
        self.join_saved(body, ctx["brk"])
        g_out = body.guard
        self.loops.pop()
        # the loop as a system of initial values and updates
        cont = self.cof_forced(g_cont, forced_in)
        done = self.cof_forced(g_out, forced_in)
        outs = {}
        for n, (a, x0) in carried.items():
            o = body.env.get(n, UNDEF)
            o = self.snap(o) if not is_boolval(o) else o
            outs[n] = Ite(done, o, a)
        var = {n: (a.var if isinstance(a, Node) else a) for n, (a, _) in carried.items()}

        def as_term(v):
            return v if isinstance(v, Term) else Term("v", v)
        one = {}
        for n, (a, x0) in carried.items():
            one[var[n]] = Term("wini", as_term(x0))
        one_b = {k: v for k, v in one.items()}
        colour = {}
        for n, (a, x0) in carried.items():
            colour[n] = Term("wcol", as_term(x0), as_term(self.wsubst(outs[n], one_b)))
        dom = Term("while", as_term(self.wsubst(cont, {var[n]: colour[n] for n in carried})))
        lr.dom = dom
        lr.depth = self.depth_of(dom)
        el = Term("elem", dom, lr.depth)
        m = {}
        for n in carried:
            v = Term("wv", colour[n], el)
            ty = self.types.get(var[n])
            if ty is not None:
                self.types[v] = ty
            m[var[n]] = v
        self.subst_inner(n_eff, n_ret, fr, m)
        for e in self.effects[n_eff:]:
            e.guard = self.wsubst(e.guard, m)
            for k in ("target", "key", "value"):
                v = getattr(e, k)
                if isinstance(v, (Term, Node)):
                    setattr(e, k, self.wsubst(v, m))
        for i in range(n_ret, len(fr.returns)):
            g, l, v, h = fr.returns[i]
            fr.returns[i] = (self.wsubst(g, m), l, self.wsubst(v, m) if isinstance(v, (Term, Node)) else v, h)
        for c in self.objs.values():
            if any(len(l) > len(self.loops) for l, _, _ in c.events):
                c.events = [(l, self.wsubst(g, m), self.wsubst(e, m)) for l, g, e in c.events]
        exitf = self.wsubst(And(gi, Not(g_out)), m)
        for n in set(body.env):
            if n in carried:
                a, x0 = carried[n]
                if outs[n] is a:
                    st.env[n] = x0
                else:
                    v = Term("afterwhile", dom, colour[n])
                    ty = self.types.get(var[n])
                    if ty is not None:
                        self.types[v] = ty
                    st.env[n] = v if not isinstance(a, Node) else atom(v)
            elif n not in st.env or st.env[n] is not body.env[n]:
                if not (n in st.env and self.is_objval(st.env[n]) and st.env[n] is body.env[n]):
                    v = body.env[n]
                    if n != "#global":
                        v = v if self.is_objval(v) else Term("afterwhile", dom, as_term(self.wsubst(self.snap(v) if not is_boolval(v) else v, m)))
                    st.env[n] = v
        st.heap.clear()
        if t is TRUE and brk is FALSE:
            st.guard = FALSE
        else:
            st.guard = And(g_in, Not(self.exists([lr], exitf)))
        return FALSE

    def wsubst(self, v, m):
        """Substitution that also replaces boolean loop variables."""
        return self.subst(v, m) if isinstance(v, (Term, Node)) else v

    def x_Break(self, s, st, fr):
        fr.lctx[-1]["brk"].append((st.guard, dict(st.env), dict(st.heap)))
        st.guard = FALSE

    def x_Continue(self, s, st, fr):
        fr.lctx[-1]["cont"].append((st.guard, dict(st.env), dict(st.heap)))
        st.guard = FALSE

    # ---------------------------------------------------------------- misc statements
    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            self.emit("with", st, v, node=s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, lift(lambda t: Term("enter", t) if t.op != "new" else t, self.snap(v)), st, fr, s)
        self.exec_block(s.body, st, fr)

    def x_Try(self, s, st, fr):
        h = {"active": bool(s.handlers), "caught": []}
        entry = st.copy()
        n_ret = len(fr.returns)
        fr.handlers.append(h)
        n0 = len(self.effects)
        self.exec_block(s.body, st, fr)
        fr.handlers.pop()
        if st.guard is not FALSE and s.orelse:
            self.exec_block(s.orelse, st, fr)
        ends = []
        n_mid = len(fr.returns)
        nth = self.tries.setdefault((id(s), *map(id, self.stack)), len(self.tries))
        for i, hd in enumerate(s.handlers):
            # explicit raises caught plus an unknown implicit exception
            a = atom(Term("implicit_exc", getattr(hd.type, "id", None) or _dotted(hd.type) or "tuple" if hd.type is not None else "any", i, nth))
            if not self.may_raise(s.body, hd.type):
                a = FALSE
            hs = entry.copy(And(entry.guard, a))
            for g, env, heap, exc, loops in h["caught"]:
                hs.guard = Or(hs.guard, g)
            if hd.name:
                hs.env[hd.name] = Term("caught", hd.name)
            self.emit_handler(hs, s, hd)
            self.exec_block(hd.body, hs, fr)
            ends.append((a, hs))
        calm = TRUE
        for a, hs in ends:
            calm = And(calm, Not(a))
        for i in range(n_ret, n_mid):       # returned from inside: nothing was raised
            g, l, v, hp = fr.returns[i]
            fr.returns[i] = (And(g, calm), l, v, hp)
        for a, hs in ends:
            if hs.guard is not FALSE:
                if st.guard is FALSE:
                    st.env, st.guard = hs.env, hs.guard
                    st.heap.clear(); st.heap.update(hs.heap)
                else:
                    stc = State(st.env, dict(st.heap), And(st.guard, Not(a)) if a is not None else st.guard)
                    self.merge(hs.guard, hs, stc, st)
            else:
                st.guard = And(st.guard, Not(a))
        if s.finalbody:
            n1 = len(self.effects)
            g = st.guard
            if st.guard is FALSE:
                fs = entry.copy()
                self.exec_block(s.finalbody, fs, fr)
            else:
                self.exec_block(s.finalbody, st, fr)
            for e in self.effects[n1:]:
                e.final = True

    x_TryStar = x_Try

    def may_raise(self, body, type_):
        """Whether the statements can implicitly raise the handled builtin."""
        names = [type_] if not isinstance(type_, ast.Tuple) else type_.elts
        need = {"AttributeError": (ast.Attribute, ast.Call), "KeyError": (ast.Subscript, ast.Call, ast.Delete), "IndexError": (ast.Subscript, ast.Call, ast.Delete),
                "ImportError": (ast.Import, ast.ImportFrom, ast.Call), "ModuleNotFoundError": (ast.Import, ast.ImportFrom, ast.Call), "StopIteration": (ast.Call, ast.Attribute)}
        kinds = [need.get(n.id) if isinstance(n, ast.Name) else None for n in names]
        if None in kinds:
            return True
        return any(isinstance(x, k) for b in body for x in ast.walk(b) for ks in kinds for k in ks)

    def emit_handler(self, st, s, hd):
        self.emit("handler", st, Term("const", _dotted(hd.type) if hd.type is not None else None), node=hd)

    def x_FunctionDef(self, s, st, fr):
        t = Term("closure", id(s))
        self.refs[t] = (s, st.env, fr)
        st.env[s.name] = t
        f = Func(fr.module, None, s, "func")
        self.refs[t] = (f, st, fr)

    def x_Import(self, s, st, fr):
        pass

    x_ImportFrom = x_Import
    x_Nonlocal = x_Import

    def x_ClassDef(self, s, st, fr):
        st.env[s.name] = Term("opaque", "localclass")

    # ================================================================ expressions
    def eval(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return Term("opaque", type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if isinstance(n.value, (bool, int, float, str)) or n.value is None:
            return Const(n.value)
        return Term("const", repr(n.value))

    def e_Name(self, n, st, fr):
        if n.id in st.env:
            return st.env[n.id]
        r = self.p.resolve_name(fr.module, n.id)
        if r is not None:
            return self.mkref(r)
        return self.mkref(("ext", n.id))

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        st.env[n.target.id] = v
        return v

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                x = self.snap(self.eval(v.value, st, fr))
                if v.conversion not in (-1, None, 115):
                    x = lift_args(lambda a: Term("call", chr(v.conversion) + "epr" if v.conversion == 114 else chr(v.conversion), a), (x,))
                if v.format_spec is not None:
                    x = lift_args(lambda a, f: self.fstring((a,)) if f is Const("") else Term("call", "format", a, f), (x, self.snap(self.eval(v.format_spec, st, fr))))
                parts.append(x)
        return lift_args(lambda *a: self.fstring(a), tuple(parts))

    def fstring(self, parts):
        """Text made of parts, however it is put together."""
        out = []
        for p in parts:
            for x in p.args[0] if p.op == "fstr" else (p,):
                if T.is_const(x) and isinstance(x.args[0], str):
                    if not x.args[0]:
                        continue
                    if out and T.is_const(out[-1]) and isinstance(out[-1].args[0], str):
                        out[-1] = Const(out[-1].args[0] + x.args[0])
                        continue
                out.append(x)
        if not out:
            return Const("")
        if len(out) == 1 and T.is_const(out[0]) and isinstance(out[0].args[0], str):
            return out[0]
        return Term("fstr", tuple(out))

    def str_format(self, t, args, kw):
        """'..{}..'.format(x): the text it makes, or None"""
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(t.args[0]):
                if lit:
                    parts.append(Const(lit))
                if field is None:
                    continue
                if conv not in (None, "s") or "{" in spec:
                    return None
                if field == "":
                    field, auto = str(auto), auto + 1
                v = args[int(field)] if field.isdigit() else kw[field]
                v = self.snap(v)
                if spec:
                    v = lift_args(lambda a: Term("call", "format", a, Const(spec)), (v,))
                parts.append(v)
        except (ValueError, KeyError, IndexError):
            return None
        return lift_args(lambda *a: self.fstring(a), tuple(parts))

    def str_percent(self, t, y):
        """'..%s..' % x, for plain markers"""
        import re
        bits = re.split(r"(%%|%[-+ #0-9.]*[a-zA-Z])", t.args[0])
        n = sum(1 for b in bits if b.startswith("%") and b != "%%")
        vals = list(y.args[0]) if y.op == "tuple" else [y]
        if n != len(vals):
            return None
        parts = []
        for b in bits:
            if b == "%%":
                parts.append(Const("%"))
            elif b.startswith("%"):
                v = vals.pop(0)
                parts.append(v if b in ("%s", "%d") else Term("call", "format", v, Const(b[1:])))
            elif b:
                parts.append(Const(b))
        return self.fstring(parts)

    def e_Slice(self, n, st, fr):
        parts = [Const(None) if x is None else self.snap(self.eval(x, st, fr)) for x in (n.lower, n.upper, n.step)]
        return lift_args(lambda *xs: Term("call", "slice", *xs), parts)

    def e_Tuple(self, n, st, fr):
        vals = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.snap(self.eval(e.value, st, fr))
                if isinstance(v, Term) and v.op == "tuple":
                    vals += list(v.args[0])
                else:
                    return Term("opaque", "starred")
            else:
                vals.append(self.eval(e, st, fr))
        return self.pair(vals)

    def e_List(self, n, st, fr):
        return self.fill(n, "list", st, fr)

    def e_Set(self, n, st, fr):
        return self.fill(n, "set", st, fr)

    def fill(self, n, kind, st, fr):
        o = self.new_obj(kind, st)
        c = self.objs[o]
        for e in n.elts:
            if isinstance(e, ast.Starred):
                for cc, ents in self.iterate(self.eval(e.value, st, fr), st, fr):
                    for lrs, g, x in ents:
                        c.events.append((tuple(self.loops) + tuple(lrs), And(st.guard, cc, g), x))
            else:
                c.events.append((tuple(self.loops), st.guard, self.snap(self.eval(e, st, fr))))
        return o

    def e_Dict(self, n, st, fr):
        o = self.new_obj("dict", st)
        c = self.objs[o]
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.mutate_obj(o, "update", [self.eval(v, st, fr)], st, n)
            else:
                kk = self.snap(self.eval(k, st, fr))
                vv = self.snap(self.eval(v, st, fr))
                c.events.append((tuple(self.loops), st.guard, Term("tuple", (kk, vv))))
        return o

    def comp(self, n, kind, elt, st, fr):
        o = self.new_obj(kind, st)
        c = self.objs[o]
        sub = st.copy()
        cmut = self.maymutate([n], st, fr)
        if not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await)) for x in ast.walk(n)):
            cmut = set()                # only reads
        if cmut is not None:
            cmut = cmut | {c.oid}

        def rec(i):
            if i == len(n.generators):
                if kind == "dict":
                    e = Term("tuple", (self.snap(self.eval(n.key, sub, fr)), self.snap(self.eval(n.value, sub, fr))))
                else:
                    e = self.snap(self.eval(elt, sub, fr))
                c.events.append((tuple(self.loops), sub.guard, e))
                return
            gen = n.generators[i]
            for cc, ents in self.iterate(self.as_mapping(self.eval(gen.iter, sub, fr), gen.iter, gen.target, [n], sub), sub, fr):
                for lrs, g, e in ents:
                    sv = dict(sub.env), sub.guard
                    for lr in lrs:
                        lr.mut = cmut
                    self.loops.extend(lrs)
                    sub.guard = And(sub.guard, cc, g)
                    self.assign(gen.target, e, sub, fr, n)
                    for t in gen.ifs:
                        sub.guard = And(sub.guard, self.truth(self.eval(t, sub, fr)))
                    if sub.guard is not FALSE:
                        rec(i + 1)
                    del self.loops[len(self.loops) - len(lrs):]
                    sub.env, sub.guard = sv
        rec(0)
        return o

    def e_ListComp(self, n, st, fr):
        return self.comp(n, "list", n.elt, st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, "list", n.elt, st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp(n, "set", n.elt, st, fr)

    def e_DictComp(self, n, st, fr):
        return self.comp(n, "dict", None, st, fr)

    def e_Lambda(self, n, st, fr):
        t = Term("closure", id(n))
        f = Func.__new__(Func)
        f.module, f.cls, f.node, f.kind, f.name = fr.module, None, n, "func", "<lambda>"
        f.qual = f"{fr.module.short}:<lambda>"
        self.refs[t] = (f, st, fr)
        return t

    def e_IfExp(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr))
        g = st.guard
        if And(g, Not(c)) is FALSE:
            return self.eval(n.body, st, fr)
        if And(g, c) is FALSE:
            return self.eval(n.orelse, st, fr)
        st.guard = And(g, c)
        a = self.eval(n.body, st, fr)
        ga = st.guard
        st.guard = And(g, Not(c))
        b = self.eval(n.orelse, st, fr)
        st.guard = Or(ga, st.guard)
        return Ite(c, a, b)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        g = st.guard
        v = self.eval(n.values[0], st, fr)
        for x in n.values[1:]:
            t = self.truth(v)
            cond = t if isand else Not(t)
            go = And(g, cond)
            if go is FALSE:
                return v
            st.guard = go
            w = self.eval(x, st, fr)
            v = Ite(t, w, v) if isand else Ite(t, v, w)
            st.guard = g if st.guard is go else Or(st.guard, And(g, Not(cond)))
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(n.op, ast.USub):
            return lift(lambda t: T.neg(t) if as_poly(t) is not None else Term("opaque", "neg"), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return lift(lambda t: Term("call", "~", t), v)

    def e_BinOp(self, n, st, fr):
        if isinstance(n.op, ast.Mult):      # [x] * n is [x for _ in range(n)]
            for l, r in ((n.left, n.right), (n.right, n.left)):
                if isinstance(l, ast.List) and len(l.elts) == 1 and isinstance(l.elts[0], (ast.Constant, ast.Name, ast.UnaryOp)):
                    c = getattr(n, "_as_comp", None)
                    if c is None:
                        c = n._as_comp = ast.copy_location(ast.ListComp(l.elts[0], [ast.comprehension(ast.Name("_", ast.Store()), ast.Call(ast.Name("range", ast.Load()), [r], []), [], 0)]), n)
                        ast.fix_missing_locations(c)
                    return self.eval(c, st, fr)
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        m = DUNDER.get(type(n.op))
        if m is not None and isinstance(a, (Term, Node)):
            c = self.class_of(a)
            if c is not None and self.p.find_method(c, m) is not None:
                return self.lift_guard(lambda t, g: UNDEF if t in (UNDEF, NONE) else self.call_method(t, m, [b], {}, st, fr, n), self.snap(a), st)
        return self.binop(n.op, a, b)

    def class_of(self, v):
        """The class of the repository a value is known to belong to."""
        for t, _ in leaves(self.snap(v)):
            c = self.cls_of(t) if isinstance(t, Term) and t not in (NONE, UNDEF) and t.op not in ("poly", "const", "ref", "tuple") else None
            if c is not None:
                return c
        return None

    def binop(self, op, a, b):
        a, b = self.snap(a), self.snap(b)
        return lift(lambda x, y: self.binop1(op, x, y), a, b)

    def is_coll(self, t):
        return t.op in ("comp", "keys", "items", "values") or self.is_kind(t, "set", "list", "dict")

    def binop1(self, op, x, y):
        o = type(op).__name__
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if x.op == "obj":
            x = self.snap(x)
        if y.op == "obj":
            y = self.snap(y)
        if isinstance(x, Node) or isinstance(y, Node):
            return lift(lambda p, q: self.binop1(op, p, q), x, y)
        if o in ("BitAnd", "BitOr", "Sub", "BitXor") and (self.is_coll(x) or self.is_coll(y)):
            return self.setop(o, x, y)
        if o == "Add" and (x.op == "comp" or y.op == "comp" or self.is_kind(x, "list") or self.is_kind(y, "list")):
            return self.setop("Concat", x, y)
        if o == "Add" and (x.op in ("fstr", "concat") or y.op in ("fstr", "concat") or self.is_str(x) or self.is_str(y)):
            return self.fstring((x, y))
        if o == "Add" and x.op == "tuple" and y.op == "tuple":
            return Term("tuple", x.args[0] + y.args[0])
        if o == "Mod" and (x.op == "const" and isinstance(x.args[0], str)):
            return self.str_percent(x, y) or Term("fstr", (x, y))
        pa, pb = as_poly(x), as_poly(y)
        if pa is None or pb is None or x.op == "const" and not is_num(x) and x not in (TRUE, FALSE) or y.op == "const" and not is_num(y) and y not in (TRUE, FALSE):
            return Term("call", "op" + o, x, y)
        if o == "Add":
            return from_poly(T.p_add(pa, pb))
        if o == "Sub":
            return from_poly(T.p_add(pa, T.p_scale(pb, -1)))
        if o == "Mult":
            return from_poly(T.p_mul(pa, pb))
        if o == "Div":
            return T.div(x, y)
        if o == "Pow":
            if is_num(y) and isinstance(y.args[0], Fraction) and y.args[0].denominator == 1 and 0 <= y.args[0] <= 6:
                p = {(): Fraction(1)}
                for _ in range(int(y.args[0])):
                    p = T.p_mul(p, pa)
                return from_poly(p)
            if is_num(y) and y.args[0] == Fraction(1, 2):
                return Term("call", "math.sqrt", x)
            return Term("call", "pow", x, y)
        if is_num(x) and is_num(y) and isinstance(x.args[0], Fraction) and isinstance(y.args[0], Fraction) and y.args[0] != 0:
            if o == "FloorDiv":
                return Const(x.args[0] // y.args[0])
            if o == "Mod":
                return Const(x.args[0] % y.args[0])
        return Term("call", "op" + o, x, y)

    def setop(self, o, x, y):
        def ents(t):
            return self.iter1(t, None, None)
        kind = "set" if o != "Concat" else "list"
        if self.is_kind(x, "list") and o == "Concat":
            kind = "list"
        res = []
        if o in ("BitOr", "Concat"):
            res = ents(x) + ents(y)
        elif o == "BitAnd":
            # put the structured operand first
            if x.op != "comp" and y.op == "comp":
                x, y = y, x
            for l, g, e in ents(x):
                sv = len(self.loops)
                self.loops.extend(l)
                res.append((l, And(g, lift(self.contains, e, y)), e))
                del self.loops[sv:]
        elif o == "Sub":
            for l, g, e in ents(x):
                sv = len(self.loops)
                self.loops.extend(l)
                res.append((l, And(g, Not(lift(self.contains, e, y))), e))
                del self.loops[sv:]
        else:
            return Term("call", "op" + o, x, y)
        return self.make_comp(kind, res)

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            sure = self.just_put(op, left, right, st)
            res = And(res, self.compare(op, left, right) if sure is None else sure)
            left = right
        return res

    def just_put(self, op, a, b, st):
        """x in c right after c.add(x) or c.remove(x), for a container of the caller."""
        if not isinstance(op, (ast.In, ast.NotIn)) or not (isinstance(b, Term) and b.op == "attr"):
            return None
        a = self.snap(a)
        for e in reversed(self.effects):
            if e.kind not in ("mut", "setitem", "delitem") or e.target is not b:
                continue
            key = e.key if e.kind != "mut" else e.value.args[0][0] if isinstance(e.value, Term) and e.value.op == "tuple" and len(e.value.args[0]) == 1 else None
            if key is not a or tuple(e.loops) != tuple(self.loops) or And(st.guard, Not(e.guard)) is not FALSE:
                return None
            there = True if e.kind == "setitem" or e.key in ("add", "append") else False if e.kind == "delitem" or e.key in ("remove", "discard") else None
            return None if there is None else TRUE if there == isinstance(op, ast.In) else FALSE
        return None

    def same(self, x, y):
        """x is y: equality, but for texts and numbers, whose equal values may be different objects."""
        if all(isinstance(t, Term) and t.op not in ("const", "enum") and (self.unopt(self.typeof(t)) or ("",))[0] == "prim" and (self.unopt(self.typeof(t)))[1] in ("str", "float") for t in (x, y)):
            return atom(Term("cmp", "Is", x, y))
        return self.eq(x, y)

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ("In", "NotIn"):
            a = self.snap(a)
            f = lift(self.contains, a, b)
            return f if o == "In" else Not(f)
        a, b = self.snap(a), self.snap(b)
        if o in ("Eq", "NotEq", "Is", "IsNot"):
            r = lift(self.same if o[:1] == "I" else self.eq, a, b)
            return r if o in ("Eq", "Is") else Not(r)
        want = {"Lt": {-1}, "LtE": {-1, 0}, "Gt": {1}, "GtE": {0, 1}}[o]

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return FALSE
            if self.is_coll(x) or self.is_coll(y) or x.op == "tuple" or y.op == "tuple":
                return atom(Term("cmp", o, x, y)) if o in ("Lt", "LtE") else atom(Term("cmp", {"Gt": "Lt", "GtE": "LtE"}[o], y, x))
            if x.op == "const" and not is_num(x) or y.op == "const" and not is_num(y):
                return atom(Term("cmp", o, x, y))
            return self.sign(x, y, want)
        return lift(f, a, b)

    def e_Attribute(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        if isinstance(b, Term) and b.op == "obj":
            return Term("bound", b, n.attr)
        return self.getattr(b, n.attr, st, fr, n)

    def e_Subscript(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        if isinstance(n.slice, ast.Slice):
            parts = [self.snap(self.eval(x, st, fr)) if x is not None else NONE for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if all(p is NONE for p in parts):
                return self.snap(b)
            return lift_args(lambda *a: Term("slice", *a), (self.snap(b),) + tuple(parts))
        k = self.snap(self.eval(n.slice, st, fr))
        if isinstance(b, Term) and b.op == "obj":
            c = self.objs[b]
            if c.kind == "dict" and (self.building(c) or c.default is not None) and isinstance(k, Term):
                return Term("objidx", b, k)
            if c.kind == "list" and isinstance(k, Term) and not is_num(k) and any(isinstance(e, Term) and e.op in ("obj", "comp") for _, _, e in c.events):
                return Term("objidx", b, k)
        if isinstance(b, Term) and b.op == "objidx":
            return Term("objidx", b, k)
        if isinstance(b, Term) and b.op == "box":
            for e in reversed(self.effects):        # what was just stored there
                if isinstance(e.target, (Term, Node)) and b in free(e.target) or isinstance(e.value, (Term, Node)) and e.kind == "call" and b in free(e.value):
                    if e.kind == "setitem" and e.target is b and e.key is k and tuple(e.loops) == tuple(self.loops) and And(st.guard, Not(e.guard)) is FALSE and not (isinstance(e.value, Term) and e.value.op == "obj"):
                        return e.value
                    break
        return self.index(b, k)

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.snap(self.eval(n.value, st, fr)) if n.value is not None else NONE
        if fr.yields is not None:
            self.objs[fr.yields].events.append((tuple(self.loops), st.guard, v))
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        if fr.yields is not None:
            self.mutate_obj(fr.yields, "extend", [v], st, n)
        return NONE

    # ================================================================ calls
    def e_Call(self, n, st, fr):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            args, kw = self.args(n, st, fr)
            m = None
            if fr.cls is not None and fr.self_term is not None:
                c = self.cls_of(fr.self_term) or fr.cls
                m = self.p.find_method(c, f.attr, after=fr.cls)
            if m is not None and len(self.stack) < self.max_depth and m not in self.stack and m.qual not in self.keep:
                return self.inline(m, fr.self_term, args, kw, st, fr, n)
            if m is not None and m.qual in self.keep:
                return self.kept_call(m, fr.self_term, args, kw, st, n)
            return self.opaque_call(f"super.{f.attr}", args, kw, st, n)
        if isinstance(f, ast.Attribute):
            d = _dotted(f)
            if d is not None and (d.startswith(IGNORED_CALLS)) and d.split(".")[0] not in st.env:
                return NONE
            recv = self.eval(f.value, st, fr)
            args, kw = self.args(n, st, fr)
            if st.guard is FALSE:
                return UNDEF
            r = self.lib_call(n, recv, args, kw, st, fr)
            if r is not None:
                return r
            return self.lift_guard(lambda t, g: self.call_method(t, f.attr, args, kw, st, fr, n), recv, st)
        if isinstance(f, ast.Name) and f.id in ("print",):
            return NONE
        fv = self.eval(f, st, fr)
        args, kw = self.args(n, st, fr)
        if st.guard is FALSE:
            return UNDEF
        r = self.lib_call(n, None, args, kw, st, fr)
        if r is not None:
            return r
        return self.lift_guard(lambda t, g: self.call_value(t, args, kw, st, fr, n), fv, st)

    def args(self, n, st, fr):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.snap(self.eval(a.value, st, fr))
                if isinstance(v, Term) and v.op == "tuple":
                    args += list(v.args[0])
                elif isinstance(v, Term) and v.op == "comp" and all(not l and g is TRUE for l, g, _ in v.args[1]):
                    args += [e for _, _, e in v.args[1]]
                else:
                    args.append(lift(lambda t: Term("star", t), v))
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                v = self.snap(v)
                if isinstance(v, Term) and v.op == "comp" and all(not l for l, _, _ in v.args[1]):
                    for _, _, e in v.args[1]:
                        kk = self.unpack1(e, 0)
                        if is_const(kk):
                            kw[kk.args[0]] = self.unpack1(e, 1)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call_value(self, t, args, kw, st, fr, n):
        if t.op == "closure":
            f, dst, dfr = self.refs[t]
            if f in self.stack and not self.changes_anything(f) and not kw:
                # a call of the function being interpreted: equal for both sides
                # when the bodies are (induction over the depth of the recursion)
                inner = [g for g in self.stack if g.name not in f.module.funcs or g is f]
                return self.opaque_call(f"recursion{inner.index(f)}", args, kw, st, n)
            if f in self.stack or len(self.stack) >= self.max_depth + 4:
                return Term("opaque", "recursion")
            return self.inline(f, None, args, kw, st, fr, n, closure_env=dst.env)
        if t.op == "bound":
            return self.call_method(t.args[0], t.args[1], args, kw, st, fr, n)
        if t.op == "ref":
            r = self.refs[t]
            if isinstance(r, Func):
                return self.call_func(r, None, args, kw, st, fr, n)
            if isinstance(r, Cls):
                return self.construct(r, args, kw, st, fr, n)
            return self.builtin(r[1], args, kw, st, fr, n)
        if t.op == "attr" and self.typeof(t.args[0]) is None and t.args[0].op == "call":
            return self.call_method(t.args[0], t.args[1], args, kw, st, fr, n)
        return self.opaque_call("value", [t] + args, kw, st, n)

    def call_func(self, f, self_term, args, kw, st, fr, n):
        if f.name == "none_throws" or f.qual.endswith(":none_throws"):
            return args[0]
        if len(self.stack) >= self.max_depth and f.qual not in self.keep and f not in self.stack:
            self.cut = True
        if (f.qual in self.keep or f in self.stack or len(self.stack) >= self.max_depth
                or f.module.short.startswith(self.no_inline_modules) and self.no_inline_modules
                or any(_dotted(d) in ("njit", "numba.njit", "jit") for d in f.node.decorator_list) and False):
            return self.kept_call(f, self_term, args, kw, st, n)
        return self.inline(f, self_term, args, kw, st, fr, n)

    def local(self, v):
        """A container of this function handed to a callee that fills it."""
        s = self.snap(v)
        if not isinstance(s, Term):
            s = Term("v", s)
        return Term("local", self.objs[v].kind, Const(None) if any(x.op == "opaque" for x in free(s)) else s)

    def kept_call(self, f, self_term, args, kw, st, n):
        bound = self.bind(f, self_term, args, kw)
        filled = [v for k, v in bound if isinstance(v, Term) and v.op == "obj" and self.mutates_param(f, k)]
        into = [(k, v) for k, v in bound if any(v is x for x in filled)]
        bound = tuple((k, self.local(v) if v in filled else self.snap(v)) for k, v in bound)
        if filled:
            for k, v in into:
                by = lift_args(lambda *vs: Term("by", f.qual, k, *vs), tuple(x for _, x in bound))
                if isinstance(by, Node):
                    by = Term("v", by)
                c = self.objs[v]
                c.events.append((tuple(self.loops), st.guard, Term("tuple", (by, by)) if c.kind == "dict" else by))
        t = lift_args(lambda *vs: Term("call", f.qual, *vs), tuple(v for _, v in bound))
        if isinstance(t, Term):
            ty = self.ann_type(f.node.returns, f.module)
            if ty is not None:
                self.types[t] = ty
        for k in [k for k, v in st.heap.items() if k[1] != "#state" and self.is_objval(v)]:
            # the callee may fill a container that is reached from an argument
            if any(k[0] is v or isinstance(v, (Term, Node)) and k[0] in free(v) for _, v in bound):
                del st.heap[k]
        if self.record_calls:
            self.emit("call", st, Term("const", f.qual), None, Term("tuple", tuple(v for _, v in bound)), n, extra=[k for k, _ in bound])
        return t

    def changes_anything(self, f):
        """Does the local function f change a container or a variable of its caller?"""
        if any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f.node)):
            return True
        own = {a.arg for a in f.node.args.args} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if any(self.mutates_param(f, a.arg) for a in f.node.args.args):
            return True
        root = lambda x: root(x.value) if isinstance(x, (ast.Subscript, ast.Attribute)) else root(x.func) if isinstance(x, ast.Call) else x
        for n in ast.walk(f.node):
            t = n.func if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES else n if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) else None
            if t is not None and not (isinstance(root(t), ast.Name) and root(t).id in own):
                return True
        return False

    def mutates_param(self, f, name, depth=2):
        """Does f change the container passed as its parameter `name`?"""
        key = (f, name)
        r = self.mutp.get(key)
        if r is None:
            self.mutp[key] = False
            r = False
            root = lambda x: root(x.value) if isinstance(x, (ast.Subscript, ast.Attribute)) else root(x.func) if isinstance(x, ast.Call) else x
            is_p = lambda x: isinstance(x, ast.Name) and x.id == name
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_p(root(n)):
                    r = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES and is_p(root(n.func)):
                    r = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and depth and any(is_p(a) for a in n.args):
                    g = f.module.funcs.get(n.func.id)
                    if g is not None:
                        names = [a.arg for a in g.node.args.args]
                        r = r or any(is_p(a) and i < len(names) and self.mutates_param(g, names[i], depth - 1) for i, a in enumerate(n.args))
            self.mutp[key] = r
        return r

    def bind(self, f, self_term, args, kw):
        params = f.node.args
        names = [a.arg for a in params.posonlyargs + params.args]
        out = []
        if f.kind in ("method", "getter", "setter", "class") and f.cls is not None and names:
            if f.kind != "class" and self_term is not None:
                out.append(("self", self_term))
            names = names[1:]
        pos = list(args)
        defaults = dict(zip([a.arg for a in params.posonlyargs + params.args][::-1], params.defaults[::-1]))
        for a, d in zip(params.kwonlyargs, params.kw_defaults):
            if d is not None:
                defaults[a.arg] = d
        kw = dict(kw)
        for nme in names + [a.arg for a in params.kwonlyargs]:
            if nme in names and pos:
                out.append((nme, pos.pop(0)))
            elif nme in kw:
                out.append((nme, kw.pop(nme)))
            elif nme in defaults:
                out.append((nme, self.eval_global(defaults[nme], f.module)))
        for x in pos:
            out.append(("*", x))
        for k in sorted(kw):
            out.append((k, kw[k]))
        return out

    def construct(self, c, args, kw, st, fr, n):
        if c.is_enum:
            return lift_args(lambda *a: Term("call", c.name, *a), tuple(self.snap(a) for a in args))
        if c.is_namedtuple or (c.is_dataclass and self.p.find_method(c, "__init__") is None):
            pos = list(args)
            bound = []
            for k in reversed(self.p.mro(c)):
                for name, d in k.fields:
                    if pos:
                        bound.append((name, pos.pop(0)))
                    elif name in kw:
                        bound.append((name, kw[name]))
                    elif d is not None:
                        bound.append((name, self.eval_global(d, k.module) if not isinstance(d, ast.Call) else Term("default", name)))
            return self.newterm(c, bound)
        init = self.p.find_method(c, "__init__")
        if init is not None:
            if c.name in self.inline_new and len(self.stack) < self.max_depth and init not in self.stack:
                self.nobj += 1
                t = Term("inst", c.name, self.nobj)
                self.types[t] = ("cls", c)
                self.inline(init, t, args, kw, st, fr, n)
                return t
            bound = self.bind(init, None, args, kw)
        else:
            bound = [(f"*{i}", a) for i, a in enumerate(args)] + sorted(kw.items())
        t = self.newterm(c, bound)
        exc = any(b.name.endswith("Exception") or b.name == "PlannerException" for b in self.p.mro(c))
        if self.record_calls and not exc:
            self.emit("call", st, Term("const", "new:" + c.name), None, t, n, extra=[k for k, _ in bound])
        return t

    def newterm(self, c, bound):
        names = tuple(k for k, _ in bound)
        only = self.new_fields.get(c.name)
        vals = tuple(self.snap(v) if only is None or k in only else Term("const", "not followed") for k, v in bound)
        t = lift_args(lambda *vs: Term("new", c.name, tuple(zip(names, vs))), vals)
        return t

    def reify(self, v, st, fr, n):
        """A function passed to code that is not analysed, as what it returns
        for a symbolic argument list."""
        if isinstance(v, Node):
            return v
        if not (isinstance(v, Term) and v.op == "closure"):
            return v
        f, dst, dfr = self.refs[v]
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or f in self.stack or self.reifying > 2:
            return v
        self.reifying += 1
        ne, nl = len(self.effects), len(self.loops)
        rec, self.record_calls = self.record_calls, False
        sub = State(dict(st.env), dict(st.heap), TRUE)
        ps = [Term("sym", f"#{self.reifying}.{i}") for i in range(len(a.posonlyargs + a.args))]
        try:
            r = self.snap(self.inline(f, None, ps, {}, sub, dfr, n, closure_env=dst.env))
            if len(self.effects) > ne or sub.guard is not TRUE:
                r = None
        finally:
            del self.effects[ne:]
            del self.loops[nl:]
            self.reifying -= 1
            self.record_calls = rec
        if r is None or isinstance(r, Term) and r.opaque:
            return v
        return Term("lambda", len(ps), r)

    # ------------------------------------------------ stateful library objects
    def lib_call(self, n, recv, args, kw, st, fr):
        """A call changing a library object held by a local name: the name gets
        the new state, a value drawn from it depends on the state before."""
        f = n.func
        nm = lib_target(n)
        if nm is None or nm not in st.env:
            return None
        m = f.attr if isinstance(f, ast.Attribute) else f.id
        if m in LIB_FUNCS:
            x, args = args[0], list(args[1:])
            m = "f:" + m
        else:
            x = recv
        x = self.snap(x)
        if not (isinstance(x, (Term, Node))) or any(l.op in ("ref", "obj") for l, _ in leaves(x)):
            return None
        if m not in LIB_METHODS and not m.startswith("f:") and not all(_drawable(l) for l, _ in leaves(x)):
            return None
        args = [self.reify(a, st, None, n) for a in args]
        vals = Term("tuple", tuple(self.snap(a) for a in args) + tuple(Term("tuple", (Const(k), self.snap(kw[k]))) for k in sorted(kw)))
        st.env[nm] = lift_args(lambda p, *vs: self.lib_state(p, m, (((), TRUE, Term("tuple", vs)),)), (x,) + vals.args[0])
        if m in LIB_METHODS:
            return NONE
        return lift_args(lambda p, *vs: Term("call", "draw." + m, p, *vs), (x,) + vals.args[0])

    def lib_state(self, prev, m, entries):
        """State after the calls of method m described by entries."""
        if m not in LIB_METHODS:
            t = Term("lib", prev, m, self.make_comp("list", list(entries)))
        else:
            old = []
            if isinstance(prev, Term) and prev.op == "lib" and prev.args[1] == m and isinstance(prev.args[2], Term) and prev.args[2].op == "comp":
                old = list(self.open_entries(prev.args[2]))
                prev = prev.args[0]
            t = Term("lib", prev, m, self.make_comp("set", old + list(entries)))
        ty = self.types.get(prev)
        if ty is not None:
            self.types[t] = ty
        return t

    def lib_states(self, nfr, st):
        """Changed parameters, as heap entries of an exit."""
        out = {}
        for n, v0 in getattr(nfr, "given", {}).items():
            v = st.env.get(n)
            if v is not v0 and isinstance(v, (Term, Node)) and any(isinstance(l, Term) and l.op in ("lib", "afterfor", "afterwhile") for l, _ in leaves(v)) and any(has_lib(l) for l, _ in leaves(v)):
                out[(Term("sym", "#" + n), "#state")] = v
        return out

    def opaque_call(self, name, args, kw, st, n):
        args = [self.reify(a, st, None, n) for a in args]
        kw = {k: self.reify(a, st, None, n) for k, a in kw.items()}
        vals = tuple(self.snap(a) for a in args) + tuple(self.snap(kw[k]) for k in sorted(kw))
        kws = tuple(sorted(kw))
        nm = name + (("(" + ",".join(kws) + ")") if kws else "")
        t = lift_args(lambda *vs: Term("call", nm, *vs), vals)
        if self.record_calls:
            self.emit("call", st, Term("const", name), None, Term("tuple", vals), n, extra=list(kws))
        return t

    MUTATORS = {"append", "add", "extend", "update", "remove", "discard", "pop", "popleft", "clear", "insert", "setdefault",
                "appendleft", "difference_update", "intersection_update", "popitem", "sort", "reverse"}

    def call_method(self, t, name, args, kw, st, fr, n):
        if t is UNDEF:
            return UNDEF
        if t.op == "const" and isinstance(t.args[0], str):
            if name == "format":
                r = self.str_format(t, args, kw if isinstance(kw, dict) else {})
                if r is not None:
                    return r
            if name == "join" and len(args) == 1 and not kw:
                a = self.snap(args[0])
                es = None
                if isinstance(a, Term) and a.op == "tuple":
                    es = list(a.args[0])
                elif isinstance(a, Term) and a.op == "comp" and str(a.args[0]) == "list" and all(not its and g is TRUE for its, g, _ in a.args[1]):
                    es = [e for _, _, e in a.args[1]]
                if es is not None and all(isinstance(e, Term) for e in es):
                    parts = [x for e in es for x in (t, e)][1:]
                    return self.fstring(parts)
        if name in ("addConstraint", "setObjective") and t.op != "ref":
            r = self.solver_method(t, name, args, kw, st, fr, n)
            if r is not None:
                return r
        if t.op == "ref":
            r = self.refs[t]
            if isinstance(r, Cls):
                m = self.p.find_method(r, name)
                if m is not None:
                    if m.kind == "method":     # Class.method(obj, ...)
                        return self.call_func(m, args[0], args[1:], kw, st, fr, n) if args else UNDEF
                    return self.call_func(m, t, args, kw, st, fr, n)
                return self.opaque_call(f"{r.name}.{name}", args, kw, st, n)
            a = self.ref_attr(t, name, st, fr)
            if isinstance(a, Term) and a.op == "ref":
                return self.call_value(a, args, kw, st, fr, n)
            return self.opaque_call(name, [t] + args, kw, st, n)
        if t.op == "obj":
            c = self.objs[t]
            if name in self.MUTATORS:
                r = self.sort_two(t, st) if name == "sort" and not args and not kw else None
                r = r if r is not None else self.mutate_obj(t, name, args, st, n)
                if r is not None:
                    return r
            if name in ("get",) and self.building(c):
                if c.kind == "dict" and not kw:
                    return self.dict_get(t, args)
                return lift_args(lambda *a: Term("call", "get", self.bterm(c), *a), tuple(self.snap(a) for a in args))
            t = self.snap(t)
            return self.lift_guard(lambda x, g: self.call_method(x, name, args, kw, st, fr, n), t, st)
        if t.op == "objidx" and self.objs[self.root_obj(t)].kind == "list" and name in self.MUTATORS:
            return self.mutate(Term("idx", self.bterm(self.objs[self.root_obj(t)]), t.args[1]), name, args, st, fr, n)
        if t.op == "objidx" or (t.op == "idx" and isinstance(t.args[0], Term) and is_building(t.args[0])):
            if name in ("append", "add"):
                self.nested_event(t, name, self.snap(args[0]), st)
                return NONE
            if name in ("extend", "update"):
                c0 = self.objs.get(t.args[0])
                if t.op == "objidx" and c0 is not None and c0.default is not None and isinstance(t.args[1], Term):
                    c0.events.append((tuple(self.loops), st.guard, Term("tuple", (t.args[1], Term("part", "init", EMPTY[0 if name == "update" else 1])))))
                for cc, ents in self.iterate(args[0], st, fr):
                    for lrs, g, e in ents:
                        self.loops.extend(lrs)
                        sub = st.guard
                        st.guard = And(sub, cc, g)
                        self.nested_event(t, "append" if name == "extend" else "add", e, st)
                        st.guard = sub
                        del self.loops[len(self.loops) - len(lrs):]
                return NONE
            if name == "setdefault":
                return Term("objidx", t, self.snap(args[0]))
        c = self.cls_of(t)
        if c is None and t.op == "enum":
            c = self.p.class_by_name[t.args[0]]
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None:
                return self.call_func(m, t, args, kw, st, fr, n)
        if t.op in ("comp", "keys", "values", "items") or self.is_kind(t, "dict", "list", "set"):
            r = self.coll_method(t, name, args, kw, st, fr, n)
            if r is not None:
                return r
        if c is None and name not in self.MUTATORS and name not in ("get", "items", "keys", "values", "copy", "join", "read", "close", "split", "strip", "lower", "index", "sort"):
            cands = self.p.method_index.get(name, [])
            if len(cands) == 1 and t.op not in ("ref", "const", "fstr") and not self.is_str(t) and not name.startswith("__"):
                return self.call_func(cands[0], t, args, kw, st, fr, n)
        if name in ("items", "keys", "values") and not args:
            return Term(name, t)
        if name == "get" and args:
            return self.dict_get(t, args)
        if name in self.MUTATORS:
            r = self.mutate(t, name, args, st, fr, n)
            return r
        sargs = [self.snap(a) for a in args]
        if name in ARRAY_METHODS and self.cls_of(t) is None:
            return self.opaque_call("numpy." + name, [t] + sargs, kw, st, n)
        return self.opaque_call("." + name, [t] + sargs, kw, st, n)

    def dict_get(self, t, args):
        d = args[1] if len(args) > 1 else NONE
        k = self.snap(args[0])
        f = lift(self.contains, k, t)
        return Ite(f, lift(self.index1, t, k), self.snap(d))

    def coll_method(self, t, name, args, kw, st, fr, n):
        if name == "keys":
            return t if t.op == "comp" and False else Term("keys", t)
        if name in ("items", "values"):
            return Term(name, t)
        if name == "get" and args:
            return self.dict_get(t, args)
        if name == "copy":
            return t
        if name in ("union", "intersection", "difference", "issubset", "isdisjoint"):
            o = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}.get(name)
            if o:
                r = t
                for a in args:
                    r = lift(lambda x, y: self.setop(o, x, y), r, self.snap(a))
                return r
            if name == "isdisjoint":
                r = lift(lambda x, y: self.setop("BitAnd", x, y), t, self.snap(args[0]))
                return Not(self.truth(r))
            return lift(lambda x, y: atom(Term("cmp", "LtE", x, y)), t, self.snap(args[0]))
        if name in self.MUTATORS:
            return self.mutate(t, name, args, st, fr, n)
        return None

    # ---------------------------------------------------------------- solver
    def solver_expr(self, t):
        """Is t an expression over variables of the solver?"""
        r = self.solver_memo.get(t)
        if r is None:
            op = t.op
            if op == "call":
                r = t.args[0] == "xpress.var"
            elif op == "idx":
                r = self.typeof(t) == ("solver", 0)
            elif op == "attr":
                r = self.typeof(t) == ("solver", 0)
            elif op == "sum":
                b = t.args[2]
                r = any(self.solver_expr(x) for x in ([b] if isinstance(b, Term) else [l for l, _ in leaves(b)]))
            elif op == "poly":
                p = as_poly(t)
                r = any(self.solver_expr(x) for m in p for x, _ in m)
            else:
                r = False
            self.solver_memo[t] = r
        return r

    def numeric_instance(self, t):
        """Is t a plain number: every sum over solver variables in it is empty."""
        if not self.solver_expr(t):
            return None
        if t.op == "poly":
            r = TRUE
            for m in as_poly(t):
                for x, _ in m:
                    if self.solver_expr(x):
                        r = And(r, self.numeric_instance(x))
            return r
        if t.op == "sum":
            l, g, _ = self.open1(t.args[0], t.args[1], t.args[2])
            return Not(self.exists(l, g))
        return FALSE

    def xpress(self, base, args, kw, st, fr, n):
        """Expressions of the modelling library: a sum is the multiset of its
        terms, a variable its type and bounds (names carry no meaning)."""
        if base == "Sum" and args and not kw:
            if len(args) > 1:
                return self.b_sum([Term("tuple", tuple(self.snap(a) for a in args))], {}, st, fr, n)
            v = self.snap(args[0])
            if isinstance(v, Term) and (self.is_kind(v, "dict") or v.op == "comp" and v.args[0] == "dict" or self.typeof(v) == ("solver", 1)):
                v = Term("values", v)
            return self.b_sum([v], {}, st, fr, n)
        if base == "var" and not args:
            d = {k: self.snap(v) for k, v in kw.items()}
            vt = d.get("vartype", Term("const", "continuous"))
            if isinstance(vt, Term) and vt.op == "ref" and vt in self.refs and isinstance(self.refs[vt], tuple):
                vt = Term("const", str(self.refs[vt][1]).split(".")[-1])
            binary = isinstance(vt, Term) and vt.op == "const" and vt.args[0] == "binary"
            lb = d.get("lb", ZERO)
            ub = d.get("ub", T.ONE if binary else Term("const", "unbounded"))
            return lift_args(lambda *a: Term("call", "xpress.var", *a), (vt, lb, ub))
        return None

    def empty_sums(self, v):
        """A sum over nothing is zero."""
        done = set()
        for _ in range(8):
            todo = None
            if isinstance(v, Node):
                for x in sorted(T.support(v), key=T._key):
                    for y in self.outer_sums(x):
                        if y.args[:2] not in done and y.args[0][0].args[0].op != "range":
                            todo = y.args[:2]
                            break
                    if todo is not None:
                        break
            if todo is None:
                return v
            done.add(todo)
            l, g, _ = self.open1(todo[0], todo[1], ZERO)
            c = self.exists(l, g)
            m = {y: ZERO for x in T.support(v) for y in self.outer_sums(x) if y.args[:2] == todo}
            v = Ite(c, v, self.subst(v, m))
        return v

    def outer_sums(self, x):
        if x.op == "sum":
            return [x] if self.solver_expr(x) else []
        if x.op == "poly":
            return [y for m in as_poly(x) for z, _ in m for y in self.outer_sums(z)]
        return [y for a in x.args if isinstance(a, Term) for y in self.outer_sums(a)] if x.op in ("sign", "eq", "cmp") else []

    def is_constraint(self, x):
        """Does the atom x compare expressions of the solver (and is no condition of the program)?"""
        if x.op in ("sign", "poly", "eq", "cmp"):
            return any(self.solver_expr(a) or self.is_constraint(a) for a in x.args if isinstance(a, Term))
        return self.solver_expr(x)

    def add_constraint(self, t, v, st, n):
        """One event per distinct constraint, under the condition it is added."""
        v = self.empty_sums(v)
        g0 = st.guard
        out = []

        def go(x, g):
            if And(g0, g) is FALSE:
                return
            if isinstance(x, Node):
                for c in sorted(T.support(x), key=T._key):
                    if not self.is_constraint(c):
                        for i in range(len(T.domain(c))):
                            lit = case(c, [TRUE if i == j else FALSE for j in range(len(T.domain(c)))])
                            go(T.cof(x, c, i), And(g, lit))
                        return
            for j, (y, h) in enumerate(out):
                if y is x:
                    out[j] = (y, Or(h, g))
                    return
            out.append((x, g))
        go(v, TRUE)
        for x, g in out:
            st.guard = And(g0, g)
            if st.guard is not FALSE:
                self.opaque_call(".addConstraint", [t, x], {}, st, n)
        st.guard = g0

    def solver_method(self, t, name, args, kw, st, fr, n):
        if name == "addConstraint" and args and not kw:
            g0 = st.guard
            for a in args:
                v = self.snap(a)
                rest = TRUE
                for leaf, c in ([(v, TRUE)] if isinstance(v, Term) else T.leaves(v)):
                    if not (isinstance(leaf, Term) and (leaf.op in ("comp", "tuple") or self.is_kind(leaf, "list"))):
                        continue
                    rest = And(rest, Not(c))
                    st.guard = And(g0, c)
                    ents, seen = [], {}
                    for l, gg, e in self.iter1(leaf, st, fr):
                        k = tuple((x.dom, tuple(x.bvs())) for x in l)
                        if e in (TRUE, FALSE) or isinstance(e, Node):
                            if k in seen:
                                i = seen[k]
                                ents[i] = (l, Or(ents[i][1], gg), Or(ents[i][2], And(gg, e)))
                            else:
                                seen[k] = len(ents)
                                ents.append((l, gg, And(gg, e)))
                        else:
                            ents.append((l, gg, e))
                    for l, gg, e in ents:
                        s2 = st.guard
                        self.loops.extend(l)
                        st.guard = And(s2, gg)
                        self.add_constraint(t, e, st, n)
                        del self.loops[len(self.loops) - len(l):]
                        st.guard = s2
                if rest is not FALSE:
                    st.guard = And(g0, rest)
                    if st.guard is not FALSE:
                        self.add_constraint(t, v, st, n)
            st.guard = g0
            return NONE
        if name == "setObjective" and args:
            kw = {k: self.snap(v) for k, v in kw.items()}
            if len(args) == 2 and "sense" not in kw:
                kw["sense"] = self.snap(args.pop())
            s = kw.get("sense")
            sense = "minimize"
            if s is not None:
                if not (isinstance(s, Term) and s.op == "ref" and isinstance(self.refs.get(s), tuple)):
                    return None
                sense = str(self.refs[s][1]).split(".")[-1]
            return self.opaque_call(".setObjective", [t, args[0], Term("const", sense)], {}, st, n)
        return None

    # ---------------------------------------------------------------- builtins
    def builtin(self, name, args, kw, st, fr, n):
        base = name.split(".")[-1]
        if name.startswith("xpress."):
            r = self.xpress(base, args, kw, st, fr, n)
            if r is not None:
                return r
        m = getattr(self, "b_" + base, None) if name == base or name.split(".")[0] in ("builtins", "pyre_extensions", "collections", "copy", "math", "functools", "itertools") or name == "dict.fromkeys" else None
        if m is not None:
            r = m(args, kw, st, fr, n)
            if r is not None:
                return r
        if name in ("typing.cast", "typing_extensions.cast") and len(args) == 2:
            return args[1]
        if name.split(".")[0] in ("math", "numpy", "np") and not kw:
            nm = "math." + base if base in ("sqrt", "log10", "cos", "sin", "tan", "atan2", "asin", "acos", "exp", "log", "pow", "radians", "degrees", "ceil", "floor", "arctan2", "arccos", "arcsin", "hypot", "deg2rad", "rad2deg", "log2", "isnan", "isinf") else name
            nm = {"math.deg2rad": "math.radians", "math.rad2deg": "math.degrees", "math.arctan2": "math.atan2", "math.arccos": "math.acos", "math.arcsin": "math.asin"}.get(nm, nm)
            vals = tuple(self.snap(a) for a in args)
            if nm == "math.log" and len(vals) == 2 and is_num(vals[1]) and vals[1].args[0] in (2, 10):
                nm, vals = "math.log" + str(int(vals[1].args[0])), vals[:1]
            if nm == "math.log10" and len(vals) == 1:
                return lift(self.log10, vals[0])
            if nm == "math.pow" and len(vals) == 2:
                return self.binop(ast.Pow(), vals[0], vals[1])
            if nm == "math.radians":
                return self.binop(ast.Mult(), vals[0], Term("sym", "deg"))
            if nm == "math.degrees":
                return self.binop(ast.Div(), vals[0], Term("sym", "deg"))
            if nm != name or name.startswith("math."):
                return lift_args(lambda *vs: Term("call", nm, *vs), vals)
        return self.opaque_call(name, args, kw, st, n)

    def log10(self, t):
        if t.op == "call" and t.args[0] == "pow" and len(t.args) == 3:
            return self.binop(ast.Mult(), t.args[2], self.log10(t.args[1]) if isinstance(t.args[1], Term) else Term("call", "math.log10", t.args[1]))
        if t.op == "call" and t.args[0] == "math.sqrt":
            return self.binop(ast.Div(), self.log10(t.args[1]), Const(2))
        return Term("call", "math.log10", t)

    def b_none_throws(self, args, kw, st, fr, n):
        return args[0]

    def b_assert_is_instance(self, args, kw, st, fr, n):
        v = self.snap(args[0])
        if isinstance(v, Term) and self.typeof(v) is None and len(args) > 1 and isinstance(args[1], Term) and args[1].op == "ref":
            c = self.refs.get(args[1])
            if isinstance(c, Cls):
                self.types[v] = ("cls", c)
        return args[0]

    def b_len(self, args, kw, st, fr, n):
        v = self.snap(args[0])

        def f(t):
            if t.op == "tuple":
                return Const(len(t.args[0]))
            if t.op == "const" and isinstance(t.args[0], str):
                return Const(len(t.args[0]))
            if t.op in ("keys", "items", "values"):
                t = t.args[0]
            mp = self.model_part(t, "type_sets")
            if mp is not None:
                (l, g, e), = self.typed_locations(*mp)
                return self.sum_over(l, Ite(g, T.ONE, ZERO))
            if t.op == "comp":
                if all(not l and g is TRUE for l, g, _ in t.args[1]) and (t.args[0] == "list" or len(t.args[1]) <= 1):
                    return Const(len(t.args[1]))
                if t.args[0] in ("dict", "set") and all(not l and g is TRUE for l, g, _ in t.args[1]):
                    ks = [e.args[0][0] if t.args[0] == "dict" and isinstance(e, Term) and e.op == "tuple" else e for _, _, e in t.args[1]]
                    if all(isinstance(k, Term) and k.op in ("const", "enum") for k in ks):
                        return Const(len(set(ks)))
                if t.args[0] == "list":
                    tot = ZERO
                    for lrs, g, e in self.open_entries(t):
                        x = self.sum_over(lrs, Ite(g, T.ONE, ZERO)) if lrs else Ite(g, T.ONE, ZERO)
                        tot = lift(T.add, tot, x)
                    return tot
            return Term("len", t)
        return lift(f, v)

    def b_sum(self, args, kw, st, fr, n):
        v = self.snap(args[0])
        start = self.snap(args[1]) if len(args) > 1 else ZERO
        tot = start
        for c, ents in self.iterate(v, st, fr):
            part = ZERO
            for lrs, g, e in ents:
                self.loops.extend(lrs)
                x = Ite(g, e, ZERO)
                x = lift(lambda l: Const(int(l.args[0])) if l in (TRUE, FALSE) else l, x)
                del self.loops[len(self.loops) - len(lrs):]
                part = lift(T.add, part, self.sum_over(lrs, x) if lrs else x)
            tot = lift(T.add, tot, Ite(c, part, ZERO))
        return tot

    def _quant(self, args, st, fr, neg):
        r = FALSE
        for c, ents in self.iterate(args[0], st, fr):
            for lrs, g, e in ents:
                f = self.truth(e)
                if neg:
                    f = Not(f)
                r = Or(r, And(c, self.exists(lrs, And(g, f))))
        return Not(r) if neg else r

    def b_any(self, args, kw, st, fr, n):
        return self._quant(args, st, fr, False)

    def b_all(self, args, kw, st, fr, n):
        return self._quant(args, st, fr, True)

    def _minmax(self, args, kw, which):
        args = [self.snap(a) for a in args]

        def many(a):
            return isinstance(a, Term) and a.op == "call" and a.args[0] == which and len(a.args) > 3

        def flat(*vs):
            vs = {x for a in vs for x in (a.args[1:] if many(a) else (a,))}
            if len(vs) == 1:
                return vs.pop()
            if len(vs) == 2:
                return self._minmax(sorted(vs, key=lambda x: x.dg), {}, which)
            return Term("call", which, *sorted(vs, key=lambda x: x.dg))
        if len(args) == 2 and not kw:
            def f(a, b):
                if many(a) or many(b):
                    return flat(a, b)
                if as_poly(a) is None or as_poly(b) is None:
                    return Term("call", which, *sorted((a, b), key=lambda x: x.dg))
                d = T.p_add(as_poly(a), T.p_scale(as_poly(b), -1))
                kids = [b, a, a] if which == "max" else [a, a, b]
                # at zero they are equal: canonical choice
                kids[1] = min((a, b), key=lambda x: x.dg)
                return self.sign_poly(d, kids)
            return lift(f, *args)
        if len(args) > 2 and not kw:
            return lift(flat, *args)
        return None

    def b_max(self, args, kw, st, fr, n):
        r = self._minmax(args, kw, "max")
        return r if r is not None else self.keyed("max", args, kw, st, fr, n)

    def b_min(self, args, kw, st, fr, n):
        r = self._minmax(args, kw, "min")
        return r if r is not None else self.keyed("min", args, kw, st, fr, n)

    def keyed(self, which, args, kw, st, fr, n):
        v = self.snap(args[0])
        key = NONE
        if "key" in kw:
            key = self.lambda_term(kw["key"], v, st, fr, n)
        d = self.snap(kw["default"]) if "default" in kw else UNDEF

        def f(t, dd):
            r = Term("call", which, t, key if isinstance(key, Term) else Term("v", key), dd)
            ty = self.elem_type(t)
            if ty:
                self.types[r] = ty
            return r
        return lift(f, v, d)

    def lambda_term(self, fn, coll, st, fr, n):
        """Canonical body of a one-argument function over elements of coll."""
        a = Term("sym", "#arg")
        if isinstance(coll, Term):
            ty = self.elem_type(coll)
            if ty:
                self.types[a] = ty
            elif a in self.types:
                del self.types[a]
        sub = st.copy()
        ne = len(self.effects)
        try:
            v = self.snap(self.lift_guard(lambda t, g: self.call_value(t, [a], {}, sub, fr, n), fn, sub))
        finally:
            del self.effects[ne:]
        return Term("lambda", v)

    def b_abs(self, args, kw, st, fr, n):
        def f(t):
            p = as_poly(t)
            if p is None:
                return Term("call", "abs", t)
            return self.sign_poly(p, [T.neg(t), ZERO, t]) if False else self.abs_term(t)
        return lift(f, self.snap(args[0]))

    def abs_term(self, t):
        if is_num(t):
            return Const(abs(t.args[0]))
        p = as_poly(t)
        lead = sorted(p.items(), key=T._pk)[0]
        if lead[1] < 0:
            t = T.neg(t)
        return Term("call", "abs", t)

    def b_fabs(self, args, kw, st, fr, n):
        return self.b_abs(args, kw, st, fr, n)

    def b_int(self, args, kw, st, fr, n):
        if len(args) != 1 or kw:
            return None

        def f(t):
            if is_num(t) and isinstance(t.args[0], Fraction):
                return Const(math.trunc(t.args[0]))
            if self.typeof(t) == ("prim", "int"):
                return t
            return Term("call", "int", t)
        return lift(f, self.snap(args[0]))

    def b_float(self, args, kw, st, fr, n):
        if not args:
            return None

        def f(t):
            if t.op == "const" and isinstance(t.args[0], str):
                try:
                    return Const(float(t.args[0]))
                except ValueError:
                    return Term("call", "float", t)
            if t.op == "poly" or is_num(t) or self.is_numeric(t):
                return t
            return Term("call", "float", t)
        return lift(f, self.snap(args[0]))

    def b_bool(self, args, kw, st, fr, n):
        return self.truth(args[0]) if args else FALSE

    def b_range(self, args, kw, st, fr, n):
        a = [self.snap(x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], T.ONE]
        elif len(a) == 2:
            a = a + [T.ONE]
        return lift_args(lambda *x: Term("range", *x), tuple(a))

    def b_enumerate(self, args, kw, st, fr, n):
        s = self.snap(args[1]) if len(args) > 1 else self.snap(kw["start"]) if "start" in kw else ZERO
        return lift_args(lambda x, y: Term("enumerate", x, y), (self.snap(args[0]), s))

    def b_zip(self, args, kw, st, fr, n):
        return lift_args(lambda *x: Term("zip", x), tuple(self.snap(a) for a in args))

    def _coll(self, kind, args, st, fr):
        if not args:
            return self.new_obj(kind, st)
        v = self.snap(args[0])

        def f(t):
            if t.op == "comp" and kind != "dict" and t.args[0] != "dict":
                if t.args[0] == kind:
                    return t
                if kind == "list":
                    return Term("comp", "list", t.args[1])
                return self.make_comp(kind, self.open_entries(t))
            if t.op == "tuple" and kind in ("set", "list"):
                return self.make_comp(kind, [([], TRUE, x) for x in t.args[0]])
            if t.op in ("items", "values") and kind in ("set", "list"):
                return self.make_comp(kind, self.iter1(t, st, fr))
            if t.op == "enumerate" or t.op == "zip" or t.op == "range":
                return self.make_comp(kind, self.iter1(t, st, fr)) if t.op != "zip" else Term("call", kind, t)
            if t.op == "keys":
                return t
            return t
        return lift(f, v)

    def b_set(self, args, kw, st, fr, n):
        return self._coll("set", args, st, fr)

    def b_frozenset(self, args, kw, st, fr, n):
        return self._coll("set", args, st, fr)

    def b_list(self, args, kw, st, fr, n):
        return self._coll("list", args, st, fr)

    def b_tuple(self, args, kw, st, fr, n):
        if not args:
            return Term("tuple", ())
        v = self.snap(args[0])
        return lift(lambda t: Term("tuple", tuple(e for _, _, e in t.args[1])) if t.op == "comp" and t.args[0] == "list" and all(not l and g is TRUE for l, g, _ in t.args[1]) else t, v)

    def b_sorted(self, args, kw, st, fr, n):
        v = self.snap(args[0])
        if "key" not in kw and "reverse" not in kw:
            def f(t):
                if t.op == "comp" and t.args[0] != "dict":
                    ents = t.args[1]
                    if len(ents) == 2 and all(not l and g is TRUE for l, g, _ in ents):
                        es = [e for _, _, e in ents]
                        if all(isinstance(e, Term) for e in es):
                            return Term("comp", "list", tuple(((), TRUE, Term("nth_sorted", i, *sorted(es, key=lambda x: x.dg))) for i in range(2)))
                if t.op == "tuple" and len(t.args[0]) == 2 and all(isinstance(e, Term) for e in t.args[0]):
                    return Term("comp", "list", tuple(((), TRUE, Term("nth_sorted", i, *sorted(t.args[0], key=lambda x: x.dg))) for i in range(2)))
                return Term("sorted", t) if False else t
            return lift(f, v)
        key = self.lambda_term(kw["key"], v, st, fr, n) if "key" in kw else NONE
        rev = self.snap(kw.get("reverse", FALSE))

        def g(t, r):
            x = Term("call", "sorted", t, key, r)
            ty = self.typeof(t)
            if ty is not None:
                self.types[x] = ("list", self.elem_type(t))
            return x
        return lift(g, v, rev)

    def b_dict(self, args, kw, st, fr, n):
        if args:
            v = self.snap(args[0])
            return v
        o = self.new_obj("dict", st)
        for k, v in kw.items():
            self.objs[o].events.append((tuple(self.loops), st.guard, Term("tuple", (Const(k), self.snap(v)))))
        return o

    def b_fromkeys(self, args, kw, st, fr, n):
        v = self.snap(args[1]) if len(args) > 1 else NONE
        o = self.new_obj("dict", st)
        for c, ents in self.iterate(args[0], st, fr):
            for lrs, g, e in ents:
                self.objs[o].events.append((tuple(self.loops) + tuple(lrs), And(st.guard, c, g), Term("tuple", (self.snap(e), v))))
        return o

    def b_Counter(self, args, kw, st, fr, n):
        if kw or len(args) > 1 or args and self.is_kind(self.snap(args[0]), "dict"):
            return None
        o = self.new_obj("dict", st, default=ZERO)
        if args:
            for c, ents in self.iterate(args[0], st, fr):
                for lrs, g, e in ents:
                    e = self.snap(e)
                    for k, f in (leaves(e) if isinstance(e, Node) else ((e, TRUE),)):
                        self.objs[o].events.append((tuple(self.loops) + tuple(lrs), And(st.guard, c, g, f), Term("tuple", (k, Term("part", "sum", Const(1))))))
        return o

    def b_defaultdict(self, args, kw, st, fr, n):
        d = True
        f = args[0] if args else NONE
        if isinstance(f, Term) and f.op == "ref":
            nm = str(f.args[1])
            d = {"list": Term("comp", "list", ()), "set": Term("comp", "set", ()), "dict": Term("comp", "dict", ()), "int": Const(0), "float": Const(0), "str": Const("")}.get(nm, True)
        elif isinstance(f, Term) and f.op == "closure":
            v = self.snap(self.call_value(f, [], {}, st, fr, n))
            if isinstance(v, Term) and not any(x.op in ("opaque", "obj", "objidx") for x in free(v)):
                d = ZERO if as_poly(v) == as_poly(ZERO) else v
        return self.new_obj("dict", st, default=d)

    def b_OrderedDict(self, args, kw, st, fr, n):
        return self.b_dict(args, kw, st, fr, n)

    def b_deque(self, args, kw, st, fr, n):
        if args:
            o = self.new_obj("list", st)
            self.mutate_obj(o, "extend", [args[0]], st, n)
            return o
        return self.new_obj("list", st)

    def b_map(self, args, kw, st, fr, n):
        if len(args) != 2:
            return None
        o = self.new_obj("list", st)
        for c, ents in self.iterate(args[1], st, fr):
            for lrs, g, e in ents:
                self.loops.extend(lrs)
                sub = st.copy(And(st.guard, c, g))
                v = self.lift_guard(lambda t, gg: self.call_value(t, [e], {}, sub, fr, n), args[0], sub)
                self.objs[o].events.append((tuple(self.loops), And(st.guard, c, g), self.snap(v)))
                del self.loops[len(self.loops) - len(lrs):]
        return o

    def b_filter(self, args, kw, st, fr, n):
        o = self.new_obj("list", st)
        for c, ents in self.iterate(args[1], st, fr):
            for lrs, g, e in ents:
                self.loops.extend(lrs)
                sub = st.copy(And(st.guard, c, g))
                v = self.lift_guard(lambda t, gg: self.call_value(t, [e], {}, sub, fr, n), args[0], sub) if args[0] is not NONE else e
                self.objs[o].events.append((tuple(self.loops), And(st.guard, c, g, self.truth(v)), e))
                del self.loops[len(self.loops) - len(lrs):]
        return o

    def b_next(self, args, kw, st, fr, n):
        v = self.snap(args[0])
        d = self.snap(args[1]) if len(args) > 1 else UNDEF

        def f(t):
            ents = self.iter1(t, st, fr)
            r = d
            for lrs, g, e in reversed(ents):
                if not lrs:
                    r = Ite(g, e, r)
                    continue
                p = g
                bvs = {b for lr in lrs for b in lr.bvs()}
                if free(e) & bvs:
                    lts, (gg, vv) = self.close(lrs, p, e)
                    x = Term("first", lts, gg, vv)
                    if isinstance(e, Term):
                        ty = self.typeof(e)
                        if ty:
                            self.types[x] = ty
                else:
                    x = e
                r = Ite(self.exists(lrs, p), x, r)
            return r
        return lift(f, v)

    def b_iter(self, args, kw, st, fr, n):
        return args[0]

    def b_reversed(self, args, kw, st, fr, n):
        return lift_args(lambda x: Term("call", "reversed", x), (self.snap(args[0]),))

    def b_from_iterable(self, args, kw, st, fr, n):
        if kw or len(args) != 1:
            return None
        st.env["_q_chain"] = args[0]
        return self.eval(CHAIN, st, fr)

    def b_chain(self, args, kw, st, fr, n):
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and len(args) == 1 and not kw:
            v = lift(lambda t: t.args[0] if isinstance(t, Term) and t.op == "star" else UNDEF, args[0])
            return self.b_from_iterable([v], kw, st, fr, n)
        if kw or not args or any(isinstance(a, ast.Starred) for a in n.args):
            return None
        tot = EMPTY[1]
        for a in args:
            tot = self.binop(ast.Add(), tot, a)
        return tot

    def b_combinations(self, args, kw, st, fr, n):
        if kw or len(args) != 2:
            return None
        v, r = self.snap(args[0]), self.snap(args[1])
        if not (isinstance(v, Term) and isinstance(r, Term) and is_num(r)):
            return None
        xs = list(v.args[0]) if v.op == "tuple" else [e for l, g, e in v.args[1]] if v.op == "comp" and v.args[0] == "list" and all(not l and g is TRUE for l, g, e in v.args[1]) else None
        if xs is None or len(xs) > 6:
            return None
        return self.make_comp("list", [((), TRUE, Term("tuple", c)) for c in itertools.combinations(xs, int(r.args[0]))])

    def b_product(self, args, kw, st, fr, n):
        if kw or not args:
            return None

        def go(rest, loops, g, xs):
            if not rest:
                return [(loops, g, Term("tuple", tuple(xs)))]
            out = []
            for c, ents in self.iterate(rest[0], st, fr):
                for lrs, ge, e in ents:
                    self.loops.extend(lrs)
                    out += go(rest[1:], loops + list(lrs), And(g, c, ge), xs + [self.snap(e)])
                    del self.loops[len(self.loops) - len(lrs):]
            return out
        return self.make_comp("list", go(args, [], TRUE, []))

    def b_isinstance(self, args, kw, st, fr, n):
        return lift_args(lambda a, b: self.isinst(a, b), (self.snap(args[0]), self.snap(args[1])))

    def isinst(self, a, b):
        if a is NONE:
            return FALSE
        if b.op == "tuple" and all(x.op == "ref" and self.refs.get(x) in (("ext", "int"), ("ext", "float"), ("builtin", "int"), ("builtin", "float")) for x in b.args[0]) or b.op == "ref" and self.refs.get(b) in (("ext", "float"), ("builtin", "float"), ("ext", "int"), ("builtin", "int")):
            r = self.numeric_instance(a)
            if r is not None:
                return r
        if a.op == "enum" and b.op == "ref" and b.args[1] == a.args[0]:
            return TRUE
        if a.op == "new" and b.op == "ref" and b.args[0] == "cls":
            c = self.p.class_by_name.get(a.args[0])
            t = self.p.class_by_name.get(b.args[1])
            if c and t:
                return TRUE if t in self.p.mro(c) else FALSE
        if b.op == "ref" and b.args[0] == "cls" and (self.typeof(a) or (0,))[0] == "prim":
            return FALSE
        return And(Not(self.isnone(a)), atom(Term("isinstance", a, b)))

    def b_getattr(self, args, kw, st, fr, n):
        nm = args[1]
        if is_const(nm) and isinstance(nm.args[0], str):
            return self.getattr(args[0], nm.args[0], st, fr, n)
        return None

    def b_setattr(self, args, kw, st, fr, n):
        nm = args[1]
        if is_const(nm) and isinstance(nm.args[0], str):
            self.set_attr(args[0], nm.args[0], args[2], st, fr, n)
        else:
            self.emit("setattr", st, args[0], nm, args[2], n)
        return NONE

    def b_deepcopy(self, args, kw, st, fr, n):
        def f(t):
            r = Term("call", "deepcopy", t)
            ty = self.typeof(t)
            if ty:
                self.types[r] = ty
            return r
        return lift(f, self.snap(args[0]))

    def b_copy(self, args, kw, st, fr, n):
        """copy.copy: as good as deepcopy where the parts cannot change."""
        def flat(ty):
            ty = self.unopt(ty)
            return ty is not None and (ty[0] == "prim" or ty[0] == "cls" and (ty[1].is_enum or ty[1].is_dataclass or ty[1].is_namedtuple))

        def f(t):
            ty = self.unopt(self.typeof(t))
            if ty is None or flat(ty) or ty[0] in ("list", "set", "dict") and flat(ty[-1]):
                return self.b_deepcopy([t], {}, st, fr, n)
            r = Term("call", "shallowcopy", t)
            self.types[r] = ty
            return r
        return lift(f, self.snap(args[0]))

    def b_partial(self, args, kw, st, fr, n):
        return None

    def b_log10(self, args, kw, st, fr, n):
        return lift(self.log10, self.snap(args[0]))

    def b_pow(self, args, kw, st, fr, n):
        return self.binop(ast.Pow(), args[0], args[1])

    def b_type(self, args, kw, st, fr, n):
        return None

    # ================================================================ entry
    def summarize(self, func, args=None, self_type=None, assume=TRUE, heap=None):
        return self.rounds(lambda: self.summarize1(func, args, self_type, assume, heap))

    def rounds(self, run):
        """Containers that stay unknown are boxed, one round after the other."""
        self.boxset, self.boxnames = frozenset(), {}
        s = first = run()
        for _ in range(3):
            more = {self.born.get(x.args[2]) for x in self.unknowns(s) if x.args[0] == "building"} - {None} - set(self.boxset)
            if not more:
                break
            self.boxset = self.boxset | more
            try:
                s = run()
            except Limit:
                s = first
                break
        if s is first:
            pass
        elif self.unknowns(s):
            s = first           # no use
        elif self.nbox > 1:
            order = self.name_boxes(s)
            self.boxnames = {n: i + 1 for i, n in enumerate(order)}
            if any(k != v for k, v in self.boxnames.items()):
                s = run()
        self.boxset, self.boxnames = frozenset(), {}
        if s is first and self.nbox:
            s = run()
        return s

    def unknowns(self, s):
        out = set()
        for e in s.effects:
            for x in [e.guard, e.target, e.key, e.value] + [l.dom for l in e.loops]:
                if isinstance(x, (Term, Node)):
                    out |= {t for t in free(x) if t.op == "opaque"}
        if isinstance(s.ret, (Term, Node)):
            out |= {t for t in free(s.ret) if t.op == "opaque"}
        return out

    def name_boxes(self, s):
        """The boxes, ordered by what is done to them."""
        bs = {e.target: [] for e in s.effects if e.kind == "box" and isinstance(e.target, Term)}
        for b in bs:
            m = {x: Term("box", "self" if x is b else "other") for x in bs}
            for e in s.effects:
                if isinstance(e.target, (Term, Node)) and b in free(e.target):
                    bs[b].append((e.kind, len(e.loops), *[self.subst(x, m).dg if isinstance(x, (Term, Node)) else str(x) for x in (e.target, e.key, e.value, e.guard)]))
        return [b.args[0] for b in sorted(bs, key=lambda b: (sorted(map(str, bs[b])), b.args[0]))]

    def summarize1(self, func, args=None, self_type=None, assume=TRUE, heap=None):
        T.BUDGET[0] = self.budget
        self.nbox, self.born = 0, {}
        self.loops, self.effects, self.stack, self.seq, self.tries = [], [], [], 0, {}
        s = Summary(func)
        ENTERED.add(func.qual)
        st = State({}, dict(heap or {}), assume)
        params = func.node.args
        allp = params.posonlyargs + params.args
        kw = {}
        self_term = None
        names = [a.arg for a in allp]
        if func.cls is not None and func.kind in ("method", "getter", "setter"):
            self_term = Term("sym", "self")
            self.types[self_term] = ("cls", self_type or func.cls)
            names = names[1:]
        elif func.kind == "class":
            names = names[1:]
        for a in allp[len(allp) - len(names):] + params.kwonlyargs:
            if args and a.arg in args:
                kw[a.arg] = args[a.arg]
                continue
            t = Term("sym", a.arg)
            ty = self.ann_type(a.annotation, func.module)
            self.types[t] = ty
            kw[a.arg] = t
        fr = Frame(func, func.module, func.cls, self_term)
        try:
            v = self.inline(func, self_term, [], kw, st, fr, func.node)
            self.lib_exit(func, st)
        except RecursionError:
            raise Limit("recursion")
        s.ret = self.snap(v)
        s.exit_guard = st.guard
        s.effects = self.final_effects()
        s.state = st
        r = FALSE
        for e in s.effects:
            if e.kind == "raise":
                r = Or(r, self.exists(e.loops, e.guard))
        s.raises = r
        return s


def _swf(self, func, self_term, kw, assume):
    """Summary of func with the given self term and keyword bindings."""
    return self.rounds(lambda: _swf1(self, func, self_term, kw, assume))


def _swf1(self, func, self_term, kw, assume):
    T.BUDGET[0] = self.budget
    self.nbox, self.born = 0, {}
    self.loops, self.effects, self.stack, self.seq, self.tries = [], [], [], 0, {}
    s = Summary(func)
    st = State({}, {}, assume)
    fr = Frame(func, func.module, func.cls, self_term)
    v = self.inline(func, self_term, [], kw, st, fr, func.node)
    self.lib_exit(func, st)
    s.ret = self.snap(v)
    s.exit_guard = st.guard
    s.effects = self.final_effects()
    s.state = st
    return s


Interp.summarize_with = _swf


class LoopRefNoStop(LoopRef):
    __slots__ = ()

    def __init__(self, lr):
        self.dom, self.depth, self.stop, self.kind, self.mut = lr.dom, lr.depth, FALSE, lr.kind, lr.mut


def conn_path(t):
    """(tx site id, rx site id) if t = site_connectivity[tx][rx] or ..._reverse[rx][tx]."""
    if t.op == "idx" and isinstance(t.args[0], Term) and t.args[0].op == "idx" and isinstance(t.args[0].args[0], Term) and t.args[0].args[0].op == "attr":
        n = t.args[0].args[0].args[1]
        if n == "site_connectivity":
            return t.args[0].args[1], t.args[1]
        if n == "site_connectivity_reverse":
            return t.args[1], t.args[0].args[1]
    return None


# methods of numpy arrays that are also functions of the module
ARRAY_METHODS = {"reshape", "argmin", "argmax", "sum", "min", "max", "any", "all", "mean", "ravel", "dot", "nonzero", "transpose", "cumsum"}


class Forced(dict):
    """What a guard forces: atoms with a single value, and the guard itself."""
    care = TRUE


def under(e, g):
    """The entry (key, value) as far as it matters where g holds."""
    if g is TRUE or not (isinstance(e, Term) and e.op == "tuple"):
        return e
    f = lambda v: T.care(T.constrain(v, g), g) if isinstance(v, Node) else v
    out = []
    for v in e.args[0]:
        v = f(v)
        if isinstance(v, Term) and v.op == "part" and isinstance(v.args[-1], Node):
            v = Term("part", *v.args[:-1], f(v.args[-1]))
        out.append(v)
    return Term("tuple", tuple(out))


def part_of(e):
    if isinstance(e, Term) and e.op == "tuple" and len(e.args[0]) == 2 and isinstance(e.args[0][1], Term) and e.args[0][1].op == "part":
        return e.args[0][1]
    return None


def has_part(e):
    return any(isinstance(x, Term) and x.op == "tuple" and len(x.args[0]) == 2 and isinstance(x.args[0][1], Term) and x.args[0][1].op == "part" for x, _ in leaves(e))


def is_building(t):
    return t.op == "opaque" and len(t.args) == 3 and t.args[0] == "building"


def free(x):
    return T.free(x)


def lift_args(f, args):
    """Lift f over diagram arguments; tuples and plain values pass through."""
    nodes = [i for i, a in enumerate(args) if isinstance(a, Node)]
    if not nodes:
        return f(*args)

    def g(*ls):
        a = list(args)
        for i, l in zip(nodes, ls):
            a[i] = l
        return f(*a)
    return lift(g, *[args[i] for i in nodes])


def lift_leaf_drop(v, a):
    """Diagram v with leaf a replaced by don't-care (any other leaf)."""
    ls = [(l, f) for l, f in leaves(v) if l is not a]
    r = ls[-1][0]
    for l, f in ls[:-1]:
        r = Ite(f, l, r)
    # canonical: constrain by the condition of being assigned
    keepc = FALSE
    for l, f in leaves(v):
        if l is a:
            keepc = f
    return r if keepc is FALSE or len(ls) == 1 else r


def Term_atom_opaque(why, v):
    return atom(Term("opaque", why))


def is_boolval(v):
    return v is TRUE or v is FALSE or isinstance(v, Node) and all(l is TRUE or l is FALSE for l, _ in leaves(v))


def mentions_obj(x):
    if isinstance(x, Node):
        return any(mentions_obj(l) for l, _ in leaves(x))
    return isinstance(x, Term) and (x.op == "obj" or x.op == "tuple" and any(mentions_obj(y) for y in x.args[0]))


BINDERS = {"comp", "sum", "exists", "loop", "first", "last", "fold", "lambda", "forall"}
READS = {"get", "keys", "values", "items", "copy", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "index", "count", "join", "format"}
PURE = {"len", "sorted", "set", "list", "tuple", "dict", "sum", "any", "all", "min", "max", "enumerate", "zip", "range", "isinstance", "str", "bool", "frozenset", "reversed", "print", "float", "int", "repr", "iter", "abs"}
EMPTY = Term("comp", "set", ()), Term("comp", "list", ()), Term("comp", "dict", ())
CHANGES = {"append", "add", "extend", "update", "setdefault", "pop", "popitem", "popleft", "remove", "discard", "clear", "insert", "appendleft", "sort", "reverse",
           "difference_update", "intersection_update", "symmetric_difference_update", "rotate"}


DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}
CHAIN = ast.parse("[\u00b7y for \u00b7x in \u00b7chain for \u00b7y in \u00b7x]".replace("\u00b7", "_q_"), mode="eval").body


def chain_root(n):
    while True:
        if isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
            n = n.value
        elif isinstance(n, ast.Call):
            n = n.func
        else:
            return n.id if isinstance(n, ast.Name) else None


def nonread(n, names, calls):
    """Names used by n in a way that may change (or leak) the container they hold."""
    def go(n):
        nonread(n, names, calls)

    def safe(*ns):
        for x in ns:
            if x is not None and not isinstance(x, ast.Name):
                go(x)
    if isinstance(n, ast.Compare):
        safe(n.left, *n.comparators)
    elif isinstance(n, ast.Subscript):
        if isinstance(n.ctx, ast.Load):
            safe(n.value, n.slice)
        else:
            r = chain_root(n)
            if r:
                names.add(r)
            safe(n.value, n.slice)
    elif isinstance(n, ast.Attribute):
        safe(n.value)
    elif isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in CHANGES:
                r = chain_root(f)
                if r:
                    names.add(r)
            go(f.value) if not isinstance(f.value, ast.Name) else None
            if f.attr not in READS and f.attr not in CHANGES and isinstance(f.value, ast.Name):
                names.add(f.value.id)
            args = list(n.args) + [k.value for k in n.keywords]
            if f.attr in READS:
                safe(*args)
            elif f.attr in ("update", "extend", "difference_update", "intersection_update"):
                safe(*args)
            else:
                for a in args:
                    go(a)
            return
        if isinstance(f, ast.Name):
            calls.add(f.id)
            args = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            if f.id in PURE:
                safe(*args)
            else:
                for a in args:
                    go(a)
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    elif isinstance(n, ast.For):
        safe(n.iter)
        for x in n.body + n.orelse:
            go(x)
    elif isinstance(n, ast.comprehension):
        safe(n.iter, *n.ifs)
    elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
        safe(n.test)
        for x in (n.body if isinstance(n.body, list) else [n.body]) + (n.orelse if isinstance(n.orelse, list) else [n.orelse]):
            go(x)
    elif isinstance(n, (ast.UnaryOp,)):
        safe(n.operand)
    elif isinstance(n, ast.BinOp):
        safe(n.left, n.right)
    elif isinstance(n, (ast.FormattedValue,)):
        safe(n.value)
    elif isinstance(n, ast.Name):
        names.add(n.id)
    elif isinstance(n, ast.AugAssign):
        if isinstance(n.target, ast.Name):
            names.add(n.target.id)
        else:
            go(n.target)
        safe(n.value)
    elif isinstance(n, ast.Assign):
        go(n.value)
        for t in n.targets:
            if not isinstance(t, ast.Name):
                go(t)
    elif isinstance(n, ast.expr_context):
        return
    else:
        for c in ast.iter_child_nodes(n):
            go(c)


def as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def walk_own(node):
    """Walk a function body without entering nested functions."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            todo.extend(ast.iter_child_nodes(n))


# methods of graph objects that change them; calls of one of them in a row commute
LIB_METHODS = {"add_edge", "add_edges_from", "add_node", "add_nodes_from", "remove_edge", "remove_edges_from", "remove_node", "remove_nodes_from", "add_weighted_edges_from", "clear_edges"}
# functions that change their first argument
LIB_FUNCS = {"set_node_attributes", "set_edge_attributes", "heappush", "heappop", "heapify", "heappushpop"}
# methods that draw from a stateful generator
LIB_DRAWS = {"exponential", "uniform", "normal", "random", "integers", "choice", "shuffle", "permutation", "poisson", "gauss", "randint", "sample", "expovariate"}


def lib_target(n):
    """The local name whose object the call changes."""
    f = n.func
    if isinstance(f, ast.Attribute):
        if f.attr in LIB_FUNCS and n.args and isinstance(n.args[0], ast.Name):
            return n.args[0].id
        if (f.attr in LIB_METHODS or f.attr in LIB_DRAWS) and isinstance(f.value, ast.Name):
            return f.value.id
    elif isinstance(f, ast.Name) and f.id in LIB_FUNCS and n.args and isinstance(n.args[0], ast.Name):
        return n.args[0].id
    return None


def _drawable(t):
    if t.op == "lib":
        return _drawable(t.args[0]) if isinstance(t.args[0], Term) else False
    return t.op == "call" and isinstance(t.args[0], str) and t.args[0].split("(")[0].split(".")[-1] in ("default_rng", "RandomState", "Random", "Generator") or t.op in ("wini", "acc", "wvt", "fv", "wv")


def has_lib(v):
    return any(isinstance(x, Term) and x.op == "lib" for x in free(v)) or isinstance(v, Term) and v.op == "lib"


_leading = {}


def leading_test(s):
    """`while True: if c: break; ...` is `while not c: ...`."""
    r = _leading.get(id(s))
    if r is None:
        r = s
        while isinstance(r.test, ast.Constant) and r.test.value and not r.orelse and len(r.body) > 1 and isinstance(r.body[0], ast.If) and not r.body[0].orelse \
                and len(r.body[0].body) == 1 and isinstance(r.body[0].body[0], ast.Break):
            r = ast.copy_location(ast.While(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r.body[0].test), r.body[0].test), body=r.body[1:], orelse=[]), r)
        _leading[id(s)] = (r, s)
        return r
    return r[0]


_counting = {}


def counting_loop(s, func):
    """`while i < n: ...; i += c` as `for i in range(i, n, c): ...`, when that is all that happens to i and n."""
    r = _counting.get(id(s))
    if r is None:
        r = (_counting_loop(s, func), s)
        _counting[id(s)] = r
    return r[0]


def _counting_loop(s, func):
    t = s.test
    if func is None or s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1) or len(s.body) < 2:
        return None
    left, op, right = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        left, right = right, left
    elif not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    last = s.body[-1]
    if not isinstance(left, ast.Name):
        return None
    i = left.id
    step = None
    if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i:
        step = last.value
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp) \
            and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == i:
        step = last.value.right
    if not (isinstance(step, ast.Constant) and type(step.value) is int and step.value > 0):
        return None
    body = s.body[:-1]
    changed = set(assigned_names(body))
    if i in changed or jumps(body, ast.Continue):
        return None
    for n in ast.walk(right):
        if isinstance(n, ast.Name):
            if n.id in changed or n.id == i:
                return None
        elif isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and not n.keywords) or not only_indexed(n.args[0].id, body):
                return None
        elif not isinstance(n, (ast.Constant, ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop, ast.expr_context)):
            return None
    inside = {id(n) for n in ast.walk(s)}
    outer = any(isinstance(n, (ast.For, ast.While)) and n is not s and any(m is s for m in ast.walk(n)) for n in ast.walk(func))
    for n in ast.walk(func):
        if isinstance(n, ast.Name) and n.id == i and id(n) not in inside and isinstance(n.ctx, ast.Load) and (outer or n.lineno > s.lineno):
            return None
        if isinstance(n, (ast.Global, ast.Nonlocal)) and i in n.names:
            return None
    loc = lambda x: ast.fix_missing_locations(ast.copy_location(x, s))
    bound = right if not isinstance(op, (ast.LtE, ast.GtE)) else loc(ast.BinOp(left=right, op=ast.Add(), right=ast.Constant(value=1)))
    args = [loc(ast.Name(id=i, ctx=ast.Load())), bound] + ([step] if step.value != 1 else [])
    return loc(ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=args, keywords=[]), body=body, orelse=[]))


def jumps(body, kind):
    """A jump of the kind belongs to the loop with this body."""
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if jumps(s.orelse, kind):
                return True
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        elif any(jumps(getattr(s, f, []), kind) for f in ("body", "orelse", "finalbody")) or any(jumps(h.body, kind) for h in getattr(s, "handlers", [])):
            return True
    return False


def only_indexed(name, body):
    """The name is only read item by item, or measured, in the body."""
    ok = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                ok.add(id(n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len":
                ok |= {id(a) for a in n.args}
    return all(id(n) in ok for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name)


def assigned_names(stmts):
    out = []

    def add(n):
        if n not in out:
            out.append(n)
    def walk(n):
        yield n
        for c in ast.iter_child_nodes(n):
            yield from walk(c)
    for s in stmts:
        for n in walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                add(n.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                add(n.target.id)
            elif isinstance(n, ast.Call):
                t = lib_target(n)
                if t is not None:
                    add(t)
    return out


def returned_container(func):
    """Kind of container an unannotated function builds and returns."""
    kinds = set()
    for n in ast.walk(func.node):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not func.node or isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Name):
                return None
            name = n.value.id
            vals = [m.value for m in ast.walk(func.node) if isinstance(m, ast.Assign)
                    and any(isinstance(t, ast.Name) and t.id == name for t in m.targets)]
            for v in vals:
                kinds.add("dict" if isinstance(v, (ast.Dict, ast.DictComp)) else "list" if isinstance(v, (ast.List, ast.ListComp))
                          else "set" if isinstance(v, (ast.Set, ast.SetComp)) else None)
            if not vals:
                return None
    if len(kinds) != 1 or None in kinds:
        return None
    k = kinds.pop()
    return ("dict", None, None) if k == "dict" else (k, None)
