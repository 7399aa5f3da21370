"""Randomness of the availability simulation: its source, the order of the draws, and what the simulation does with them."""
import ast

from checks import areas
from vstat.absint import LIB_DRAWS
from vstat.compare import Observe

A = "optimization.topology_availability:compute_availability"
R = "optimization.topology_report:"
NX = "optimization.topology_networkx:"
SEEDED = {"numpy.random.default_rng", "numpy.random.RandomState", "random.Random"}
SOURCES = ("numpy.random.", "random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom")
SETS = {"set", "frozenset"}


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    return ".".join([n.id] + parts[::-1]) if isinstance(n, ast.Name) else None


def full_name(f, e):
    """Imported name of an expression, in full."""
    nm = dotted(e)
    if nm is None:
        return None
    head, _, rest = nm.partition(".")
    imp = f.module.imports.get(head)
    if imp is None:
        return None
    base = imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}"
    return base + ("." + rest if rest else "")


def reached(p, f):
    """Functions of the package reached from f by calls of names it resolves."""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call) and dotted(c.func):
                try:
                    h = p.resolve_name(g.module, dotted(c.func))
                except Exception:
                    continue
                for x in h if isinstance(h, tuple) else (h,):
                    if hasattr(x, "node") and isinstance(x.node, ast.FunctionDef):
                        todo.append(x)
    return sorted(seen, key=lambda g: g.qual)


def is_set(f, e, at, depth=0):
    """The expression is a set (whose order depends on the hashes of its elements)."""
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        nm = dotted(e.func)
        if nm in SETS:
            return True
        if nm in ("list", "tuple", "iter", "enumerate", "reversed") and e.args:
            return is_set(f, e.args[0], at, depth)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("intersection", "union", "difference", "symmetric_difference", "copy"):
            return is_set(f, e.func.value, at, depth)
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return is_set(f, e.left, at, depth) or is_set(f, e.right, at, depth)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return any(is_set(f, g.iter, at, depth) for g in e.generators)
    if isinstance(e, ast.Name) and depth < 5:
        vs = [s.value for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None
              and any(isinstance(t, ast.Name) and t.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
        return bool(vs) and all(is_set(f, v, at, depth + 1) for v in vs)
    return False


def draws(p, f, node, seen=()):
    """A draw from a generator, here or in a function called with one."""
    for c in ast.walk(node):
        if not isinstance(c, ast.Call):
            continue
        if isinstance(c.func, ast.Attribute) and c.func.attr in LIB_DRAWS:
            return True
        nm = dotted(c.func)
        if nm is None:
            continue
        for g in ast.walk(f.node):
            if isinstance(g, ast.FunctionDef) and g is not f.node and g.name == nm and g not in seen and draws(p, f, g, seen + (g,)):
                return True
        try:
            h = p.resolve_name(f.module, nm)
        except Exception:
            continue
        for x in h if isinstance(h, tuple) else (h,):
            if hasattr(x, "node") and isinstance(x.node, ast.FunctionDef) and x.node not in seen and draws(p, x, x.node, seen + (x.node,)):
                return True
    return False


def run(ctx):
    areas.counts(ctx, "availability")
    areas.networks(ctx, "connected")
    areas.report(ctx, "analyze", obs=Observe(ret=False, raises=None, effects=lambda e: e.kind == "call" and str(e.target.args[0]).endswith(A)), name="seed")
    f = ctx.find(A)
    fs = reached(ctx.p, f)

    def sources(o):
        n = 0
        for g in fs:
            for c in ast.walk(g.node):
                if not isinstance(c, ast.Call):
                    continue
                n += 1
                nm = full_name(g, c.func) or ""
                where = f"{g.module.path}:{c.lineno} ({g.qual})"
                if nm in SEEDED:
                    a = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "seed"), None)
                    if a is None or isinstance(a, ast.Constant) and a.value is None:
                        o.bad("a random generator that is not given the seed", where)
                elif nm.startswith(SOURCES) and nm not in ("numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64"):
                    o.bad(f"{nm} does not draw from the seeded generator", where)
        o.measure["calls"] = n
        o.measure["functions"] = len(fs)

    def order(o):
        n = 0
        for g in fs:
            for s in ast.walk(g.node):
                its = [s.iter] if isinstance(s, ast.For) else [x.iter for x in s.generators] if isinstance(s, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) else []
                if not its or not draws(ctx.p, g, s):
                    continue
                n += 1
                for it in its:
                    if is_set(g, it, s):
                        o.bad("random numbers are drawn while iterating over a set, whose order is not that of the seed", f"{g.module.path}:{s.lineno} ({g.qual})")
        o.measure["loops_with_draws"] = n

    ctx.rule("sources", "every random number of the simulation comes from a generator made with the seed", A, sources)
    ctx.rule("order", "the random numbers are drawn in an order that the topology alone determines", A, order)
