"""Whole-program passes over the resolved syntax tree."""
import ast

from . import terms as T
from .program import AnalysisBroken, Func, Cls, _dotted


def all_funcs(p):
    """Every function including nested ones; module level code as (module, None)."""
    for f in p.all_funcs():
        yield f


def mod_of(f):
    return f.module


def attr_stores(node):
    """Attribute nodes that are assigned, deleted or written through setattr/__dict__."""
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n, n.attr
        elif isinstance(n, ast.Call):
            d = _dotted(n.func) or ""
            if (d == "setattr" or d.endswith(".__setattr__") or d == "delattr") and len(n.args) >= 2:
                a = n.args[1] if d in ("setattr", "delattr") or d == "object.__setattr__" else n.args[0]
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    yield n, a.value
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__" and isinstance(n.slice, ast.Constant):
                yield n, n.slice.value


def owner_map(p):
    """id(node) -> Func for every statement of the program."""
    own = {}
    for f in p.all_funcs():
        for n in ast.walk(f.node):
            own[id(n)] = f
    return own


def callers_of(p, f):
    """Functions mentioning f by name (over-approximation)."""
    out = set()
    for g in p.all_funcs():
        if g is f:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == f.name or isinstance(n, ast.Name) and n.id == f.name and not elsewhere(p, g, f):
                out.add(g)
                break
    return out


def elsewhere(p, g, f):
    """The name of f means another function in the module of g."""
    if g.module is f.module or f.cls is not None:
        return False
    try:
        r = p.resolve_name(g.module, f.name)
    except Exception:
        return False
    return isinstance(r, Func) and r is not f


def reached_only_from(p, f, allowed, seen=None):
    """f is a private helper whose every caller is allowed (transitively)."""
    seen = seen or set()
    if f.qual in allowed or any(a.endswith(":") and f.qual.startswith(a) for a in allowed):
        return True
    if f in seen:
        return True
    if f.name.startswith("__"):
        return False
    cs = callers_of(p, f)
    return bool(cs) and all(reached_only_from(p, c, allowed, seen | {f}) for c in cs)


def only_writers(ctx, oid, attr, allowed, rule=None):
    """The attribute is assigned only inside the allowed functions (or private helpers of them)."""
    def go(o):
        n_sites = 0
        for m in ctx.p.modules.values():
            own = {}
            for f in list(m.funcs.values()) + [x for c in m.classes.values() for x in list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values())]:
                for n in ast.walk(f.node):
                    own[id(n)] = f
            for n, a in attr_stores(m.tree):
                if a != attr:
                    continue
                n_sites += 1
                f = own.get(id(n))
                if f is None:
                    o.bad(f"{attr} is written at module level", f"{m.path}:{n.lineno}")
                elif not reached_only_from(ctx.p, f, allowed):
                    o.bad(f"{attr} is written in {f.qual}, outside {', '.join(sorted(a.split(':')[1] or a for a in allowed))}", f"{m.path}:{n.lineno} ({f.qual})")
        o.measure = {"write_sites": n_sites, "modules": len(ctx.p.modules)}
        if n_sites == 0:
            o.und(f"no write of {attr} found", attr)
    return ctx.rule(oid, rule or f"{attr} is written only by its owners", attr, go)


def flat_summaries(ctx):
    """Summary of every function with no repository call inlined (cached)."""
    if hasattr(ctx, "_flat"):
        return ctx._flat
    from .absint import Interp, ENTERED
    before = set(ENTERED)
    out, failed = {}, {}
    keep = {f.qual for f in ctx.p.all_funcs()}
    for f in ctx.p.all_funcs():
        I = Interp(ctx.p, keep=keep, max_depth=4)
        I.budget = 150000
        try:
            out[f] = (I, I.summarize(f))
        except Exception as e:   # not understood: reported as such by users
            failed[f] = f"{type(e).__name__}: {e}"
    ENTERED.intersection_update(before)
    ctx._flat = (out, failed)
    return ctx._flat


def root_attr(t):
    """Innermost attribute a container target hangs on: t = base.attr[...][...]."""
    while isinstance(t, T.Term) and t.op in ("idx", "elem", "items", "values", "keys", "first", "last"):
        t = t.args[0] if t.op in ("idx", "items", "values", "keys") else t.args[0]
        if isinstance(t, tuple):
            return None
    return t if isinstance(t, T.Term) and t.op == "attr" else None


def index_writers(ctx, oid, attrs, owner, rule="the indices are modified only by their owner class"):
    def go(o):
        oc = ctx.p.cls(owner)
        fam = {oc, *ctx.p.subclasses(oc)}
        out, failed = flat_summaries(ctx)
        n = 0
        for f, (I, s) in out.items():
            inside = f.cls in fam
            for e in s.effects:
                if e.kind not in ("setattr", "setitem", "delitem", "mut", "delattr"):
                    continue
                for tl, _ in T.leaves(e.target):
                    if e.kind in ("setattr", "delattr"):
                        a, base = e.key, tl
                        if a not in attrs:
                            continue
                    else:
                        r = root_attr(tl)
                        if r is None or r.args[1] not in attrs:
                            continue
                        a, base = r.args[1], r.args[0]
                    c = I.cls_of(base)
                    if c in fam:
                        n += 1
                        if not inside and not reached_only_from(ctx.p, f, {x.qual for k in fam for x in k.methods.values()}):
                            o.bad(f"{a} of {oc.name} is modified in {f.qual}", e.where())
        for f in failed:       # not summarised: purely syntactic fallback
            for nd in ast.walk(f.node):
                if isinstance(nd, ast.Attribute) and nd.attr in attrs and f.cls not in fam:
                    par = [x for x in ast.walk(f.node) if isinstance(x, (ast.Subscript, ast.Attribute)) and getattr(x, "value", None) is nd]
                    if isinstance(nd.ctx, ast.Store) or any(isinstance(x.ctx, (ast.Store, ast.Del)) for x in par):
                        o.und(f"{f.qual} may write {nd.attr}: {failed[f]}", f"{f.module.path}:{nd.lineno}")
        o.measure = {"functions": len(out), "not_analysed": len(failed), "writes_by_owner": n}
        if n == 0:
            o.und("no write found", owner)
    return ctx.rule(oid, rule, owner, go)


# ------------------------------------------------------- argument wiring
_KINDS = {
    "axis": {"lat": "latitude", "lats": "latitude", "latitude": "latitude", "latitutde": "latitude", "latitudes": "latitude",
             "lon": "longitude", "lons": "longitude", "lng": "longitude", "longitude": "longitude", "longitudes": "longitude"},
    "plane": {"x": "x", "y": "y"},
    "freq": {"mhz": "MHz", "ghz": "GHz"},
    "length": {"km": "km", "meter": "m", "meters": "m"},
    "power": {"dbm": "dBm", "mw": "mW"},
    "rate": {"mbps": "Mbps", "gbps": "Gbps"},
    "angle": {"degrees": "degrees", "radians": "radians", "deg": "degrees", "rad": "radians"},
}
_ENDS = {"tx": "tx", "rx": "rx"}


def _tokens(name):
    return [t for t in name.lower().rstrip("0123456789").split("_") if t]


def kinds_of(name):
    """dimension -> the only kind the name mentions."""
    out = {}
    ts = [t.rstrip("0123456789") or t for t in _tokens(name)]
    for dim, table in _KINDS.items():
        ks = {table[t] for t in ts if t in table}
        if len(ks) == 1:
            out[dim] = next(iter(ks))
    return out


def end_of(name):
    ks = {_ENDS[t] for t in _tokens(name) if t in _ENDS}
    return next(iter(ks)) if len(ks) == 1 else None


_WRAP = {"none_throws", "float", "int", "str", "abs", "round", "copy", "deepcopy"}


class _Locals:
    """Single-assignment locals of a function stand for what they were assigned."""

    def __init__(self, node):
        self.val, count = {}, {}
        args = node.args if isinstance(node, (ast.FunctionDef, ast.Lambda)) else None
        for a in (args.args + args.kwonlyargs + args.posonlyargs if args else []):
            count[a.arg] = 2
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                count[n.id] = count.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.val[n.targets[0].id] = n.value
        self.val = {k: v for k, v in self.val.items() if count.get(k) == 1}

    def resolve(self, n, depth=0):
        """The attribute or variable an expression is a plain copy of."""
        while depth < 8:
            depth += 1
            if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and (_dotted(n.func) or "").split(".")[-1] in _WRAP:
                n = n.args[0]
            elif isinstance(n, ast.Call) and not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr == "copy":
                n = n.func.value
            elif isinstance(n, ast.UnaryOp):
                n = n.operand
            elif isinstance(n, ast.Name) and n.id in self.val and not kinds_of(n.id) and end_of(n.id) is None:
                n = self.val[n.id]
            else:
                break
        return n

    def name(self, n):
        n = self.resolve(n)
        if isinstance(n, ast.Attribute):
            return n.attr
        if isinstance(n, ast.Name):
            return n.id
        return None


def _callee(p, m, f, call):
    """Parameter names of the repository function or class a call reaches, or None."""
    fn = call.func
    tgt = None
    if isinstance(fn, ast.Name):
        tgt = p.resolve_name(m, fn.id)
        if fn.id == "cls" and f is not None and f.cls is not None:
            tgt = f.cls
    elif isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Name):
            r = p.resolve_name(m, fn.value.id)
            if isinstance(r, Cls):
                tgt = p.find_method(r, fn.attr)
            elif isinstance(r, tuple) and r[0] == "mod" and r[1] in p.modules:
                tgt = p.resolve_name(p.modules[r[1]], fn.attr)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f is not None and f.cls is not None:
            tgt = p.find_method(f.cls, fn.attr, after=f.cls)
        if tgt is None:
            c = p.method_index.get(fn.attr, [])
            sigs = {tuple(a.arg for a in x.node.args.args) for x in c}
            if len(sigs) == 1 and c:
                tgt = c[0]
    if isinstance(tgt, Cls):
        ini = p.find_method(tgt, "__init__")
        if ini is None:
            return (tgt.qual if hasattr(tgt, "qual") else tgt.name, [n for n, _ in tgt.fields]) if tgt.fields else None
        tgt = ini
    if isinstance(tgt, Func):
        ps = [a.arg for a in tgt.node.args.posonlyargs + tgt.node.args.args]
        if tgt.cls is not None and tgt.kind != "static" and ps:
            ps = ps[1:]
        return tgt.qual, ps + [a.arg for a in tgt.node.args.kwonlyargs]
    return None


def _config_attrs(p):
    base = p.class_by_name.get("ConfigParser")
    out = {}
    for c in (p.subclasses(base) if base is not None else []):
        ini = p.find_method(c, "__init__")
        if ini is not None:
            for k in p.mro(c):
                out.setdefault(c.name, set()).update(k.attrs_ann)
            out[c.name] |= {a.arg for a in ini.node.args.args[1:]}
            for s in ast.walk(ini.node):
                if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                    out[c.name].add(s.attr)
    return out


def wiring(p):
    """(findings, statistics): every call and comparison of the package, by the names of what meets what."""
    found = []
    stat = {"calls": 0, "resolved_calls": 0, "arguments": 0, "assignments": 0, "operations": 0}
    allcfg = set().union(*_config_attrs(p).values()) if _config_attrs(p) else set()

    def clash(a, b):
        ka, kb = kinds_of(a), kinds_of(b)
        for d in ka:
            if d in kb and ka[d] != kb[d]:
                return f"{ka[d]} meets {kb[d]}"
        return None

    def scan(m, f, node):
        loc = _Locals(node)
        where = lambda n: f"{m.path}:{n.lineno} ({f.qual if f else m.short})"
        def visit(n):
            yield n
            for ch in ast.iter_child_nodes(n):
                yield from visit(ch)
        for n in visit(node):
            if isinstance(n, ast.Call):
                stat["calls"] += 1
                tgt = _callee(p, m, f, n)
                pairs = []
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Starred):
                        break
                    if tgt is not None and i < len(tgt[1]):
                        pairs.append((tgt[1][i], a, False))
                for k in n.keywords:
                    if k.arg is not None:
                        pairs.append((k.arg, k.value, True))
                name = tgt[0] if tgt else (_dotted(n.func) or "?")
                stat["resolved_calls"] += bool(tgt)
                named = []
                for q, a, kw in pairs:
                    r = loc.resolve(a)
                    an = loc.name(a)
                    if an is None:
                        continue
                    stat["arguments"] += 1
                    named.append((q, an, a))
                    c = clash(an, q)
                    if c:
                        found.append((f"{ast.unparse(a)} is passed to {name} as {q}: {c}", where(a)))
                    elif isinstance(r, ast.Attribute) and q in allcfg and an in allcfg and q != an and _dotted(r.value) and (_dotted(r.value).split(".")[-1].lower().endswith(("params", "config", "device"))):
                        found.append((f"the parameter {an} is passed to {name} as {q}", where(a)))
                for i, (q1, a1, n1) in enumerate(named):
                    for q2, a2, n2 in named[i + 1:]:
                        if a1 == q2 and a2 == q1 and q1 != q2 and end_of(q1) is None:
                            found.append((f"{a1} and {a2} are exchanged in the call of {name}", where(n1)))
                ends = [(end_of(q), end_of(a), q, a, x) for q, a, x in named]
                ends = [e for e in ends if e[0] and e[1]]
                if any(e[0] == e[1] for e in ends) and any(e[0] != e[1] for e in ends):
                    e = next(e for e in ends if e[0] != e[1])
                    found.append((f"{e[3]} is passed to {name} as {e[2]} while another argument keeps its end", where(e[4])))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    ts, vs = ([t], [n.value])
                    if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        ts, vs = t.elts, n.value.elts
                    for a, b in zip(ts, vs):
                        an, bn = loc.name(a) if not isinstance(a, ast.Name) else a.id, loc.name(b)
                        if an and bn:
                            stat["assignments"] += 1
                            c = clash(an, bn)
                            if c:
                                found.append((f"{an} is assigned {ast.unparse(b)}: {c}", where(n)))
            elif isinstance(n, (ast.BinOp, ast.Compare)):
                if isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Add, ast.Sub)):
                    continue
                if isinstance(n, ast.Compare) and not all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in n.ops):
                    continue
                xs = [n.left, n.right] if isinstance(n, ast.BinOp) else [n.left, *n.comparators]
                ns = [loc.name(x) for x in xs]
                for a, b in zip(ns, ns[1:]):
                    if a and b:
                        stat["operations"] += 1
                        c = clash(a, b)
                        if c:
                            found.append((f"{ast.unparse(n)}: {c}", where(n)))
    for m in p.modules.values():
        seen = set()
        for f in list(m.funcs.values()) + [x for c in m.classes.values() for x in list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values())]:
            scan(m, f, f.node)
            for n in ast.walk(f.node):
                seen.add(id(n))
    return found, stat


# ------------------------------------------------------- mutation of arguments
MUT_KINDS = ("setattr", "setitem", "delitem", "mut", "delattr", "by")
OPAQUE_CHANGES = {"add_edge", "add_edges_from", "add_node", "add_nodes_from", "remove_edge", "remove_edges_from", "remove_node", "remove_nodes_from",
                  "clear", "update", "pop", "remove", "append", "extend", "insert", "discard", "setdefault", "popitem", "sort", "reverse", "set_node_attributes", "set_edge_attributes"}


def _getter_shares(I, base, name):
    """False when the attribute is a property that builds a new value on every access."""
    c = I.cls_of(base)
    g = I.p.find_getter(c, name) if c is not None else None
    if g is None:
        return True
    if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node)):
        return True
    local = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(g.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Name) and v.id in local:
                defs = [a.value for a in ast.walk(g.node) if isinstance(a, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == v.id for t in (a.targets if isinstance(a, ast.Assign) else [a.target]))]
                if defs and all(isinstance(d, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or isinstance(d, ast.Call) and _dotted(d.func) in ("dict", "list", "set", "defaultdict", "sorted") for d in defs):
                    continue
                return True
            if not isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)):
                return True
    return False


def param_root(t, I=None):
    """(parameter, first attribute) a value is reached from by attributes, items and iteration."""
    first = None
    while isinstance(t, T.Term):
        if t.op == "sym":
            return t.args[0], first
        if t.op == "attr" and I is not None and isinstance(t.args[0], T.Term) and not _getter_shares(I, t.args[0], t.args[1]):
            return None
        if t.op in ("attr", "idx", "items", "values", "keys", "elem", "key", "get", "sorted", "iter"):
            first = t.args[1] if t.op == "attr" else None
            t = t.args[0]
        else:
            return None
    return None


def mutations(ctx):
    """For every function: {parameter: [(what, where, attribute)]} it may change (the
    attribute of the parameter that holds what is changed, None for the parameter
    itself), directly or through the repository functions it calls.  A value computed on first use and
    kept (a getter) is not a change."""
    if hasattr(ctx, "_mutations"):
        return ctx._mutations
    out, failed = flat_summaries(ctx)
    direct, calls = {}, {}
    for f, (I, s) in out.items():
        d = direct.setdefault(f, {})
        cs = calls.setdefault(f, [])
        for e in s.effects:
            if e.kind in MUT_KINDS:
                for tl, _ in T.leaves(e.target):
                    p = param_root(tl, I)
                    if p is not None:
                        d.setdefault(p[0], []).append((f"{e.kind} {tl!r}"[:160] + (f".{e.key}" if e.kind == "setattr" else ""), e.where(), p[1]))
            elif e.kind == "call":
                q = e.target.args[0]
                if isinstance(e.value, T.Term) and e.value.op == "tuple":
                    cs.append((q, e.value.args[0], e))
        for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            v = s.state.env.get(a.arg)
            if isinstance(v, (T.Term, T.Node)) and any(isinstance(x, T.Term) and x.op == "lib" for l, _ in T.leaves(v) if isinstance(l, T.Term) for x in {l, *T.free(l)}):
                d.setdefault(a.arg, []).append(("a library object is changed in place", f"{f.module.path}:{f.node.lineno}", None))
    mut = {f: {p: list(v) for p, v in d.items()} for f, d in direct.items() if f.kind != "getter"}
    by_qual = {f.qual: f for f in out}
    changed = True
    while changed:
        changed = False
        for f, cs in calls.items():
            if f.kind == "getter":
                continue
            for q, args, e in cs:
                g = by_qual.get(q)
                if g is None or g not in mut:
                    continue
                names = [a.arg for a in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs]
                if g.kind == "static":
                    pass
                for i, a in enumerate(args):
                    if i >= len(names) or names[i] not in mut[g]:
                        continue
                    for l, _ in T.leaves(a) if isinstance(a, (T.Term, T.Node)) else ():
                        p = param_root(l, out[f][0])
                        if p is None:
                            continue
                        have = {w[2] for w in mut[f].get(p[0], ())}
                        for what, _, at in list(mut[g][names[i]]):
                            at = at if p[1] is None and l.op == "sym" else p[1]
                            if at not in have:
                                have.add(at)
                                mut[f].setdefault(p[0], []).append((f"{q.split(':')[-1]} changes {names[i]}: {what}"[:300], e.where(), at))
                                changed = True
    ctx._mutations = (mut, failed)
    return ctx._mutations
