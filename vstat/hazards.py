"""Constructs that make the sequential value semantics of the interpreter wrong.

The interpreter treats a generator as the sequence of its elements, a function
as recomputed on every call and a container as unchanged while it is walked.
Each rule below names a construct for which that is not what Python does; on a
function a check interprets it is a violation of that check's properties.
"""
import ast

from .program import _dotted

LAZY = {"map", "filter", "zip", "iter", "reversed", "enumerate", "chain"}
EAT = {"list", "tuple", "set", "frozenset", "sorted", "sum", "any", "all", "max", "min", "dict", "len", "enumerate", "zip", "map", "filter", "join", "extend", "update", "fsum", "Counter", "deque", "chain"}
SHRINK = {"remove", "discard", "pop", "popitem", "clear", "popleft"}
MUT = SHRINK | {"append", "add", "extend", "update", "insert", "setdefault", "sort", "reverse", "appendleft"}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _up(fn):
    return {c: p for p in ast.walk(fn) for c in ast.iter_child_nodes(p)}


def _chain(n, up, top):
    out = [n]
    while n in up and n is not top:
        n = up[n]
        out.append(n)
    return out


def _ends(stmts):
    return any(isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for s in stmts)


def _block(up, s):
    """The statement list that holds s."""
    p = up.get(s)
    for f in ("body", "orelse", "finalbody"):
        b = getattr(p, f, None)
        if isinstance(b, list) and s in b:
            return b
    return []


def _exclusive(a, b, up, top):
    """No path runs a and then b."""
    ca, cb = _chain(a, up, top), _chain(b, up, top)
    for i, x in enumerate(ca):
        if x in cb:
            if i == 0 or isinstance(x, ast.IfExp):
                ka, kb = ca[i - 1] if i else None, cb[cb.index(x) - 1]
                return isinstance(x, ast.IfExp) and {ka, kb} == {x.body, x.orelse}
            ka, kb = ca[i - 1], cb[cb.index(x) - 1]
            if isinstance(x, ast.If):
                sa = "body" if ka in x.body else "orelse" if ka in x.orelse else "test"
                sb = "body" if kb in x.body else "orelse" if kb in x.orelse else "test"
                if sa != sb and "test" not in (sa, sb):
                    return True
            break
    for s in ca:      # a's branch leaves before b is reached
        if isinstance(s, ast.stmt) and s is not top:
            if s in cb:
                break
            blk = _block(up, s)
            if blk and any(isinstance(x, (ast.Return, ast.Raise)) for x in blk[blk.index(s):]):
                return True
            if blk and any(isinstance(x, (ast.Break, ast.Continue)) for x in blk[blk.index(s):]):
                lp = next((x for x in _chain(s, up, top)[1:] if isinstance(x, (ast.For, ast.While))), None)
                if lp in cb:
                    return True
    return False


def lazy_functions(p):
    """Names every definition of which yields, or returns a generator."""
    res = {}
    for f in p.all_funcs():
        own = [n for n in _own(f.node)]
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own)
        rets = [n.value for n in own if isinstance(n, ast.Return) and n.value is not None]
        r = r or bool(rets) and all(_lazy(v, {}) for v in rets)
        deco = {(_dotted(d) or "").split(".")[-1] for d in f.node.decorator_list}
        if deco & {"contextmanager"}:
            r = False
        res.setdefault(f.name, []).append(r)
    return {k for k, v in res.items() if all(v)}


def _own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo += list(ast.iter_child_nodes(n))


def _lazy(v, lazy):
    if isinstance(v, ast.GeneratorExp):
        return True
    if isinstance(v, ast.Call):
        d = (_dotted(v.func) or "").split(".")
        if isinstance(v.func, ast.Name) and v.func.id in LAZY:
            return True
        if isinstance(v.func, ast.Attribute) and v.func.attr in lazy or isinstance(v.func, ast.Name) and v.func.id in lazy:
            return True
        return d[0] == "itertools" and d[-1] in ("chain", "combinations", "product", "permutations", "groupby", "islice", "from_iterable")
    return False


def generators(f, lazy):
    fn = f.node
    up = _up(fn)
    stores = {}
    for n in _own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores.setdefault(n.id, []).append(n)
    for name, d in [(k, x) for k, ns in stores.items() for x in ns]:
        ns = [d]
        s = up.get(d)
        if not (isinstance(s, ast.Assign) and s.targets == ns or isinstance(s, ast.AnnAssign)) or s.value is None or not _lazy(s.value, lazy):
            continue
        within = [fn]
        if len(stores[name]) > 1:       # up to where the name is given something else
            blk = _block(up, s)
            within = []
            for x in blk[blk.index(s) + 1:]:
                if any(y in stores[name] for y in ast.walk(x)):
                    break
                within.append(x)
        uses = [n for w in within for n in ast.walk(w) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        eats = []
        for u in uses:
            p = up[u]
            if isinstance(p, (ast.For, ast.comprehension)) and p.iter is u or isinstance(p, ast.Starred) \
                    or isinstance(p, ast.Call) and u in p.args and (_dotted(p.func) or getattr(p.func, "attr", "")).split(".")[-1] not in ("next", "isinstance", "type", "id") \
                    or isinstance(p, ast.keyword) \
                    or isinstance(p, ast.Compare) and u in p.comparators and isinstance(p.ops[p.comparators.index(u)], (ast.In, ast.NotIn)) \
                    or isinstance(p, ast.YieldFrom):
                eats.append(u)
            elif isinstance(p, ast.Subscript) and p.value is u:
                yield u, f"'{name}' is a generator, which cannot be indexed"
            elif isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add):
                yield u, f"'{name}' is a generator, which cannot be added"
            elif isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is u or isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
                yield u, f"'{name}' is a generator, which is never empty to a test"
        for u in eats:
            p = up[u]
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "len":
                yield u, f"'{name}' is a generator, which has no length"
            ch = _chain(u, up, fn)
            at = _chain(s, up, fn)
            for i, x in enumerate(ch[1:], 1):
                if x in at:
                    break
                if isinstance(x, ast.While) or isinstance(x, ast.For) and ch[i - 1] is not x.iter and ch[i - 1] not in x.orelse \
                        or isinstance(x, COMPS) and not (isinstance(ch[i - 1], ast.comprehension) and ch[i - 1] is x.generators[0] and (ch[i - 2] is ch[i - 1].iter)):
                    if isinstance(x, (ast.For, ast.While)) and _leaves(u, x, up, fn):
                        continue
                    yield u, f"'{name}' is a generator made once and consumed in every pass of a loop"
                    break
        eats.sort(key=lambda n: (n.lineno, n.col_offset))
        for i, a in enumerate(eats):
            for b in eats[i + 1:]:
                if not _exclusive(a, b, up, fn):
                    yield b, f"'{name}' is a generator already consumed at line {a.lineno}"


def _leaves(n, loop, up, fn):
    """After n the loop is left in the same pass."""
    for s in _chain(n, up, fn):
        if s is loop:
            return False
        if isinstance(s, ast.stmt):
            blk = _block(up, s)
            if blk and any(isinstance(x, (ast.Return, ast.Raise, ast.Break)) for x in blk[blk.index(s):]):
                return True
            if blk and any(isinstance(x, ast.Continue) for x in blk[blk.index(s):]):
                return False
    return False


def kept(p, c, depth=0):
    """Constructor parameters of c in order, and those kept as an attribute."""
    f = p.find_method(c, "__init__")
    if f is None or depth > 4:
        return [], {}
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args][1:]
    res = {}
    for n in _own(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) and n.value.id in ps:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute) and _dotted(t.value) == "self":
                    res[n.value.id] = t.attr
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and isinstance(n.func.value, ast.Call) and _dotted(n.func.value.func) == "super":
            for b in f.cls.bases:
                bc = p.class_by_name.get((b or "").split(".")[-1])
                if bc is not None:
                    bp, bk = kept(p, bc, depth + 1)
                    for i, e in list(enumerate(n.args)) + [(k.arg, k.value) for k in n.keywords]:
                        nm = bp[i] if isinstance(i, int) and i < len(bp) else i
                        if isinstance(e, ast.Name) and e.id in ps and nm in bk:
                            res[e.id] = bk[nm]
    return ps, res


def handed_over(f, p, lazy):
    """A generator given to a constructor that keeps it."""
    names = {}
    for n in _own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            names.setdefault(n.targets[0].id, []).append(_lazy(n.value, lazy))
    for n in _own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in p.class_by_name:
            c = p.class_by_name[n.func.id]
            todo = [(i, e) for i, e in list(enumerate(n.args)) + [(k.arg, k.value) for k in n.keywords] if _lazy(e, lazy) or isinstance(e, ast.Name) and names.get(e.id) and all(names[e.id])]
            if todo:
                ps, ks = kept(p, c)
                for i, e in todo:
                    nm = ps[i] if isinstance(i, int) and i < len(ps) else i
                    if nm in ks:
                        yield n, f"a generator, which can be consumed once, is kept by {c.name} as '.{ks[nm]}'"


def stored_generators(p, lazy):
    """attribute name -> where a generator is stored in it."""
    res = {}
    for f in p.all_funcs():
        for n in _own(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and _lazy(n.value, lazy):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute):
                        res.setdefault(t.attr, []).append((f, n))
    return res


def mutable_defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    up = None
    for x, d in pairs:
        if not (isinstance(d, (ast.List, ast.Dict, ast.Set) + COMPS[:3]) or isinstance(d, ast.Call) and (_dotted(d.func) or "") in ("list", "dict", "set", "defaultdict", "collections.defaultdict", "deque", "Counter")):
            continue
        up = up or _up(f.node)
        if any(isinstance(n, ast.Name) and n.id == x.arg and isinstance(n.ctx, ast.Store) and not isinstance(up.get(n), ast.AugAssign) for n in ast.walk(f.node)):
            continue       # rebound
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Name) and n.id == x.arg):
                continue
            q = up.get(n)
            if isinstance(q, ast.Attribute) and q.attr in MUT and isinstance(up.get(q), ast.Call) and up[q].func is q \
                    or isinstance(q, ast.Subscript) and q.value is n and not isinstance(q.ctx, ast.Load) or isinstance(q, ast.AugAssign) and q.target is n \
                    or isinstance(q, ast.Subscript) and q.value is n and isinstance(up.get(q), ast.AugAssign) and up[q].target is q:
                yield n, f"the default of '{x.arg}' is one object for all calls and is changed here"
                break
            if isinstance(q, ast.Return) or isinstance(q, (ast.Assign, ast.AnnAssign)) and q.value is n and any(isinstance(t, ast.Attribute) for t in (q.targets if isinstance(q, ast.Assign) else [q.target])):
                yield n, f"the default of '{x.arg}' is one object for all calls and is handed out here"
                break


def nested_sharing(f):
    """[[]] * n and dict.fromkeys(k, []) whose elements are changed."""
    up = None
    for n in _own(f.node):
        if not (isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None):
            continue
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
        v = n.value
        if not isinstance(t, ast.Name):
            continue
        one = None
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
            for side in (v.left, v.right):
                if isinstance(side, ast.List) and len(side.elts) == 1:
                    one = side.elts[0]
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "fromkeys" and len(v.args) == 2:
            one = v.args[1]
        if one is None or not (isinstance(one, (ast.List, ast.Dict, ast.Set)) or isinstance(one, ast.Call) and (_dotted(one.func) or "") in ("list", "dict", "set", "defaultdict", "collections.defaultdict")):
            continue
        up = up or _up(f.node)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == t.id and isinstance(x.ctx, ast.Load):
                q = up.get(x)
                if isinstance(q, ast.Attribute) and q.attr in MUT and isinstance(up.get(q), ast.Call) and up[q].func is q \
                        or isinstance(q, ast.Subscript) and q.value is x and not isinstance(q.ctx, ast.Load):
                    yield x, f"all elements of '{t.id}' are one object, which is changed here"
                    break


def leftover(f):
    """What only a loop binds, read after the loop: the last round only, or nothing at all."""
    nodes = list(_own(f.node))
    a = f.node.args
    fixed = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    fixed |= {x for n in nodes if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    hidden = set()
    for n in nodes:
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
            hidden |= {x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in own}
    stores, loads = {}, {}
    for n in nodes:
        if isinstance(n, ast.Name) and n not in hidden:
            (loads if isinstance(n.ctx, ast.Load) else stores).setdefault(n.id, []).append(n)
        elif isinstance(n, ast.ExceptHandler) and n.name or isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fixed.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            fixed |= {(x.asname or x.name).split(".")[0] for x in n.names}

    def breaks(body):
        for s in body:
            if isinstance(s, ast.Break):
                return True
            if isinstance(s, (ast.For, ast.While)):
                if breaks(s.orelse):
                    return True
                continue
            if isinstance(s, SCOPES):
                continue
            for k in ("body", "orelse", "finalbody"):
                if breaks(getattr(s, k, None) or []):
                    return True
            if any(breaks(h.body) for h in getattr(s, "handlers", ())) or any(breaks(c.body) for c in getattr(s, "cases", ())):
                return True
        return False
    for n in nodes:
        if not isinstance(n, ast.For) or n.orelse or breaks(n.body):
            continue
        if isinstance(n.iter, (ast.List, ast.Tuple, ast.Set, ast.Dict)) or isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and all(isinstance(x, ast.Constant) for x in n.iter.args):
            continue
        inside = {x for x in ast.walk(n)}
        for name, ss in stores.items():
            if name in fixed or not all(x in inside for x in ss):
                continue
            for x in loads.get(name, ()):
                if x not in inside and x.lineno > n.end_lineno:
                    yield x, f"'{name}' is bound only by the loop at line {n.lineno} and read after it, where it is what the last round left"
                    break


IDLE = {"dropna", "fillna", "sort_values", "reset_index", "set_index", "strip", "lstrip", "rstrip", "lower", "upper", "casefold", "replace", "union", "intersection", "difference", "symmetric_difference"}


def discarded(f):
    """A changed copy that nobody takes."""
    for n in _own(f.node):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)):
            continue
        c, m = n.value, n.value.func.attr
        kw = {k.arg for k in c.keywords}
        if None in kw or "inplace" in kw or (_dotted(c.func) or "x").split(".")[0] in ("os", "shutil"):
            continue
        if m in IDLE and not (m == "replace" and len(c.args) < 2) or m == "rename" and kw & {"columns", "index", "mapper"} or m == "drop" and kw & {"columns", "axis", "labels"}:
            yield n, f"the changed copy made by '.{m}' is not used"


def ungrouped(f):
    """itertools.groupby of something in no particular order."""
    made = {}
    for n in _own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            made.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    made.setdefault(t.id, []).append(None)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name):
            made.setdefault(n.func.value.id, []).append(None)

    def unordered(e):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return unordered(e.generators[0].iter)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "keys", "items") and not e.args:
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "tuple", "frozenset") and len(e.args) == 1:
            return e.func.id in ("set", "frozenset") or unordered(e.args[0])
        if isinstance(e, ast.Name):
            vs = made.get(e.id)
            return bool(vs) and all(v is not None and not (isinstance(v, ast.Name) and v.id == e.id) and unordered(v) for v in vs)
        return False
    for n in _own(f.node):
        if isinstance(n, ast.Call) and (_dotted(n.func) or "").split(".")[-1] == "groupby" and (_dotted(n.func) or "") in ("groupby", "itertools.groupby") and n.args and unordered(n.args[0]):
            yield n, f"groupby splits the groups of '{ast.unparse(n.args[0])[:40]}', which is not sorted"


# ------------------------------------------------------------ walked containers
def aliases(p):
    """property name -> attribute it hands out, where every getter of that name agrees."""
    res = {}
    for m in p.modules.values():
        for c in m.classes.values():
            for g in c.getters.values():
                body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                a = body[0].value.attr if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and _dotted(body[0].value.value) == "self" else None
                res.setdefault(g.name, set()).add(a)
    return {k: next(iter(v)) for k, v in res.items() if len(v) == 1 and None not in v}


def shrinks(p, al):
    """function -> {(parameter, attribute)} whose container loses or gains keys in it."""
    funcs = list(p.all_funcs())
    byname = {}
    for f in funcs:
        byname.setdefault(f.name, []).append(f)
    params = {f: [a.arg for a in f.node.args.posonlyargs + f.node.args.args] for f in funcs}
    res = {f: set() for f in funcs}

    def attr_of(e, ps):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ps:
            return (e.value.id, al.get(e.attr, e.attr))
        return None
    for f in funcs:
        ps = params[f]
        tested = {attr_of(c, ps) for n in _own(f.node) if isinstance(n, ast.Compare) for o, c in zip(n.ops, n.comparators) if isinstance(o, (ast.In, ast.NotIn))}
        for n in _own(f.node):
            k = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHRINK:
                k = attr_of(n.func.value, ps)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del):
                k = attr_of(n.value, ps)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                k = attr_of(n.value, ps)
                k = k if k in tested else None
            if k:
                res[f].add(k)
    again = True
    while again:
        again = False
        for f in funcs:
            for n in _own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                for par, a in calls_shrink(n, res, byname, params, f):
                    if par in params[f] and (par, a) not in res[f]:
                        res[f].add((par, a))
                        again = True
    return res, byname, params


def calls_shrink(n, res, byname, params, f):
    """(variable text, attribute) pairs a call shrinks."""
    if isinstance(n.func, ast.Attribute):
        cands, recv = [g for g in byname.get(n.func.attr, ()) if g.cls is not None], _dotted(n.func.value)
    elif isinstance(n.func, ast.Name):
        cands, recv = [g for g in byname.get(n.func.id, ()) if g.cls is None], None
    else:
        return
    own = None
    if recv == "self" and f.cls is not None:
        own = f.cls.name
    elif recv:
        own = next(((_dotted(a.annotation) or getattr(a.annotation, "value", "")) for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg == recv and a.annotation is not None), None)
    if own and any(g.cls is not None and g.cls.name == own for g in cands):
        cands = [g for g in cands if g.cls.name == own]
    if not cands:
        return
    common = None
    for g in cands:
        got = set()
        ps = params[g]
        off = 1 if g.cls is not None and g.kind in ("method", "getter", "setter") else 0
        for par, a in res[g]:
            if off and ps and par == ps[0]:
                got.add((recv, a))
            elif par in ps:
                i = ps.index(par) - off
                e = n.args[i] if 0 <= i < len(n.args) else next((k.value for k in n.keywords if k.arg == par), None)
                if e is not None and _dotted(e):
                    got.add((_dotted(e), a))
        common = got if common is None else common & got
    yield from common or ()


def walked(f, al, sh):
    res, byname, params = sh
    fn = f.node
    up = None
    for lp in _own(fn):
        if not isinstance(lp, ast.For):
            continue
        it = lp.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip", "reversed", "filter", "map") and it.args:
            it = it.args[0] if it.func.id not in ("filter", "map") else it.args[-1]
        view = isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("keys", "values", "items") and not it.args
        if view:
            it = it.func.value
        graph = None
        g = it.func if isinstance(it, ast.Call) else it
        if isinstance(g, ast.Attribute) and g.attr in ("nodes", "edges", "in_edges", "out_edges", "successors", "predecessors", "neighbors"):
            graph = _dotted(g.value)
        text = _dotted(it)
        if text is None and graph is None:
            continue
        root = (text or graph).split(".")[0]
        owner, attr = (text.rpartition(".")[0], text.rpartition(".")[2]) if text and "." in text else (None, None)
        attr = al.get(attr, attr)
        up = up or _up(fn)
        if any(isinstance(n, ast.Name) and n.id == root and isinstance(n.ctx, ast.Store) for s in lp.body for n in ast.walk(s)):
            continue
        for s in lp.body:
            for n in ast.walk(s):
                what = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    r = _dotted(n.func.value)
                    if text and r == text and n.func.attr in SHRINK:
                        what = f"{text}.{n.func.attr}(...)"
                    elif r in ([graph] if graph else [text]) and r and n.func.attr in ("remove_node", "remove_edge", "remove_nodes_from", "remove_edges_from"):
                        what = f"{r}.{n.func.attr}(...)"
                if isinstance(n, ast.Call) and what is None and owner is not None:
                    for par, a in calls_shrink(n, res, byname, params, f):
                        if par == owner and a == attr:
                            what = ast.unparse(n)[:60]
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and text and _dotted(n.value) == text:
                    what = f"del {ast.unparse(n)}"
                if what and not _leaves(n, lp, up, fn):
                    yield n, f"{what} changes the container the loop at line {lp.lineno} walks"


# ------------------------------------------------------------ cached results
def cached(f, p, writes):
    decs = {(_dotted(d) or _dotted(getattr(d, "func", None)) or "").split(".")[-1]: d for d in f.node.decorator_list}
    hit = next((d for d in decs if d in ("lru_cache", "cache", "cached_property", "memoize")), None)
    if hit is None:
        return
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    mut = {}
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        an = ast.unparse(a.annotation) if a.annotation is not None else ""
        nm = an.split("[")[0].split(".")[-1]
        if nm in ("List", "Dict", "Set", "list", "dict", "set", "defaultdict") and hit != "cached_property":
            yield f.node, f"{hit} on a function of the unhashable argument '{a.arg}'"
    for n in _own(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (_dotted(n) or "").split(".")[0] in ps:
            for a in _reads(n.attr, p, set()):
                if a in writes:
                    yield n, f"{hit} keeps an answer that depends on '{_dotted(n)}', which changes at {writes[a]}"
                    return


def _reads(attr, p, seen):
    """Attributes a read of .attr depends on, through getters and methods."""
    if attr in seen:
        return
    seen.add(attr)
    yield attr
    for m in p.modules.values():
        for c in m.classes.values():
            g = c.getters.get(attr) or c.methods.get(attr)
            if g is not None:
                for n in _own(g.node):
                    if isinstance(n, ast.Attribute) and (_dotted(n) or "").split(".")[0] == "self":
                        yield from _reads(n.attr, p, seen)


def attribute_writes(p):
    """attribute -> a place outside constructors that changes it."""
    res = {}
    for f in p.all_funcs():
        if f.name in ("__init__", "__post_init__"):
            continue
        for n in _own(f.node):
            if isinstance(n, ast.Attribute):
                if not isinstance(n.ctx, ast.Load):
                    res.setdefault(n.attr, f.qual)
        for n in _own(f.node):
            t = n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT else n.value if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) else None
            if isinstance(t, ast.Attribute):
                res.setdefault(t.attr, f.qual)
    return res


def run(p, quals):
    """[(what, where)] and the number of functions looked at."""
    lazy = lazy_functions(p)
    al = aliases(p)
    sh = shrinks(p, al)
    writes = attribute_writes(p)
    out, n = [], 0
    stored = stored_generators(p, lazy)
    if stored:
        loads = {}
        for f in p.all_funcs():
            for x in _own(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in stored and f not in [g for g, _ in stored[x.attr]]:
                    loads[x.attr] = loads.get(x.attr, 0) + 1
        for a, sites in stored.items():
            for f, x in sites:
                if loads.get(a, 0) > 0 and f.qual in quals:
                    out.append((f"a generator is stored in '.{a}', which other functions read; it can be consumed once", f"{f.module.path}:{x.lineno} ({f.qual})"))
    for f in p.all_funcs():
        if f.qual not in quals:
            continue
        n += 1
        for rule in (generators(f, lazy), mutable_defaults(f), nested_sharing(f), ungrouped(f), leftover(f), discarded(f), walked(f, al, sh), handed_over(f, p, lazy), cached(f, p, writes)):
            for x, what in rule:
                out.append((what, f"{f.module.path}:{x.lineno} ({f.qual})"))
    return out, n
