"""Order of the effects of a function: two calls (or a call and a write) of which one
writes an attribute that the other reads keep their order.

The relation is by name: A runs before B on some path, outside of the iterations of
loops. Only an inversion counts: both sides run A and B, one only in the order A, B
and the other only in the order B, A."""
import ast

from . import terms as T
from .absint import CHANGES

COMMON = {"get", "items", "keys", "values", "append", "add", "extend", "update", "remove", "discard", "pop", "popleft", "clear", "insert", "setdefault", "sort", "join", "format", "split",
          "read", "write", "close", "lower", "upper", "strip", "copy", "index", "count", "replace", "info", "warning", "debug", "error", "getValue", "name", "value"}
RESETS = {".reset", ".solve", ".setObjective", ".delConstraint", ".delVariable"}


def bare(a):
    return a.lstrip("_")


def root_attr(n):
    """The attribute whose container an expression leads into: x.links[k] -> links."""
    while isinstance(n, (ast.Subscript, ast.Call)):
        n = n.value if isinstance(n, ast.Subscript) else n.func.value if isinstance(n.func, ast.Attribute) else None
    return bare(n.attr) if isinstance(n, ast.Attribute) else None


class Footprints:
    """Attributes a function reads and writes on objects it did not create, callees included."""

    def __init__(self, p):
        self.p = p
        self.by_name, self.by_class, self.own = {}, {}, {}
        for f in p.all_funcs():
            self.by_name.setdefault(f.name, []).append(f)
        self.memo = {}
        self.quals = {f.qual: f for f in p.all_funcs()}

    def direct(self, f):
        r = self.own.get(f)
        if r is not None:
            return r
        reads, writes, calls = set(), set(), set()
        fresh = set()
        if f.name == "__init__":
            fresh.add("self")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id[:1].isupper():
                fresh |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    reads.add(bare(n.attr))
                elif not (isinstance(n.value, ast.Name) and n.value.id in fresh):
                    writes.add(bare(n.attr))
                if isinstance(n.ctx, ast.Load) and n.attr in self.by_name and n.attr not in COMMON:
                    calls.add(n.attr)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                a = root_attr(n)
                if a:
                    writes.add(a)
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    if n.func.attr in CHANGES:
                        a = root_attr(n.func.value)
                        if a:
                            writes.add(a)
                elif isinstance(n.func, ast.Name) and n.func.id in self.by_name:
                    calls.add(n.func.id)
        r = self.own[f] = (reads, writes, calls)
        return r

    def of(self, f):
        r = self.memo.get(f)
        if r is not None:
            return r
        seen, todo = {f}, [f]
        reads, writes = set(), set()
        while todo:
            g = todo.pop()
            a, b, c = self.direct(g)
            reads |= a
            writes |= b
            for name in c:
                for h in self.by_name[name]:
                    if h.kind == "setter" or h in seen or len(self.by_name[name]) > 8:
                        continue
                    seen.add(h)
                    todo.append(h)
        r = self.memo[f] = (reads, writes)
        return r


def footprint(fp, name):
    if name.startswith("set:"):
        return set(), {name[4:]}
    if name.startswith(".") and "/" in name:
        m, a = name.split("/")
        return {a}, ({a} if m in RESETS else set())
    f = fp.quals.get(name) or fp.quals.get("terragraph_planner." + name)
    return fp.of(f) if f is not None else (set(), set())


def steps(s):
    """(name, guard, loops, effect) of the calls and writes in program order."""
    out = []
    for e in s.effects:
        lp = tuple((id(l.dom) if not isinstance(l.dom, (T.Term, T.Node)) else l.dom, l.depth) for l in e.loops)
        if e.kind == "call" and isinstance(e.target, T.Term) and e.target.op == "const":
            n = e.target.args[0]
            if isinstance(n, str) and n in RESETS and isinstance(e.value, T.Term) and e.value.op == "tuple" and e.value.args[0] and isinstance(e.value.args[0][0], T.Term) and e.value.args[0][0].op == "attr":
                out.append((n + "/" + bare(e.value.args[0][0].args[1]), e.guard, lp, e))
            elif isinstance(n, str) and ":" in n and not n.startswith("new:"):
                out.append((n, e.guard, lp, e))
        elif e.kind == "setattr" and isinstance(e.key, T.Term) and e.key.op == "const":
            out.append(("set:" + bare(str(e.key.args[0])), e.guard, lp, e))
    return out


def relation(st, wanted):
    """{(A, B): effect B} for wanted pairs with A before B on some path."""
    out = {}
    for j, (b, gb, lb, eb) in enumerate(st):
        for i in range(j):
            a, ga, la, _ = st[i]
            if a == b or (a, b) in out or (a, b) not in wanted:
                continue
            try:
                if T.And(ga, gb) is T.FALSE:
                    continue
            except T.Limit:
                pass
            out[(a, b)] = eb
    return out


def conflicts(fp, names):
    """Pairs of steps, at least one a call, of which one writes what the other reads."""
    out = set()
    names = sorted(names)
    fpr = {n: footprint(fp, n) for n in names}
    for a in names:
        for b in names:
            if a < b and not (a.startswith("set:") and b.startswith("set:")):
                ra, wa = fpr[a]
                rb, wb = fpr[b]
                if wa & rb or wb & ra:
                    out |= {(a, b), (b, a)}
    return out


def inversions(I, act, spec):
    fp = I.p.__dict__.get("_footprints")
    if fp is None:
        fp = I.p._footprints = Footprints(I.p)
    sa, ss = steps(act), steps(spec)
    names = {x[0] for x in sa} & {x[0] for x in ss}
    out = item_inversions(act, spec)
    if len(names) < 2:
        return list(out.values())
    conf = conflicts(fp, names)
    if not conf:
        return list(out.values())
    # by name, and by name, condition and arguments
    for key in (lambda t: t[0], lambda t: (t[0], t[1], t[2], t[3].value)):
        ka, ks = [(key(t), t) for t in sa], [(key(t), t) for t in ss]
        common = {k for k, _ in ka} & {k for k, _ in ks}
        of = {k: t[0] for k, t in ka}
        by = {}
        for k in common:
            by.setdefault(of[k], []).append(k)
        w = {(x, y) for a, b in conf for x in by.get(a, ()) for y in by.get(b, ())}
        ra = relation([(k,) + t[1:] for k, t in ka if k in common], w)
        rs = relation([(k,) + t[1:] for k, t in ks if k in common], w)
        for (x, y), e in ra.items():
            if (y, x) in rs and (y, x) not in ra and (x, y) not in rs:
                a, b = of[x], of[y]
                ca, cb = footprint(fp, a), footprint(fp, b)
                out.setdefault((a, b), (f"{b} runs after {a} instead of before it (both use {', '.join(sorted((ca[1] & cb[0]) | (cb[1] & ca[0]))[:4])})", e))
    return list(out.values())


def item_steps(s):
    """Writes of an item of a container, and the calls that are given the container."""
    puts, calls = [], []
    for i, e in enumerate(s.effects):
        if e.kind in ("setitem", "delitem", "mut") and isinstance(e.target, T.Term) and e.target.op not in ("const", "sym", "obj", "box"):
            puts.append((i, ("put", e.kind, e.target, e.key), e))
    targets = {k[2] for _, k, _ in puts}
    if not targets:
        return [], []
    for i, e in enumerate(s.effects):
        if e.kind == "call" and isinstance(e.value, (T.Term, T.Node)) and isinstance(e.target, T.Term):
            hit = targets & set(T.free(e.value))
            if hit:
                calls.append((i, ("call", e.target, e.value), e, hit))
    return puts, calls


def item_inversions(act, spec):
    def rel(s):
        puts, calls = item_steps(s)
        out = {}
        for i, p, e in puts:
            for j, c, d, hit in calls:
                if p[2] in hit and e.loops[:1] == d.loops[:1] and T.And(e.guard, d.guard) is not T.FALSE:
                    out.setdefault((p, c), set()).add(i < j)
                    out[(p, c), "at"] = d
        return out
    try:
        ra, rs = rel(act), rel(spec)
    except T.Limit:
        return {}
    return {k: (f"{k[1][1].args[0]} runs {'after' if True in v else 'before'} an item of what it is given is written, not {'before' if True in v else 'after'}", ra[k, "at"])
            for k, v in ra.items() if k[1] != "at" and k in rs and len(v) == 1 and len(rs[k]) == 1 and v != rs[k]}


def void(f):
    return f is not None and f.name != "__init__" and not any(isinstance(n, (ast.Return, ast.Yield)) and n.value is not None for n in ast.walk(f.node))


def repeats(I, s):
    """{(name, loops, arguments): (condition to run it twice, effect)} of procedures that write."""
    fp = I.p.__dict__.get("_footprints")
    if fp is None:
        fp = I.p._footprints = Footprints(I.p)
    seen = {}
    for name, g, lp, e in steps(s):
        if name.startswith("set:"):
            continue
        f = fp.quals.get(name)
        if name.startswith(".") or void(f) and footprint(fp, name)[1]:
            k = (name, lp, e.value)
            og, twice, _ = seen.get(k, (T.FALSE, T.FALSE, e))
            try:
                seen[k] = (T.Or(og, g), T.Or(twice, T.And(og, g)), e)
            except T.Limit:
                pass
    return {k: (t, e) for k, (_, t, e) in seen.items()}
