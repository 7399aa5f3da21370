"""Documented constants and enumerations."""
import ast

from vstat import terms as T
from vstat.absint import Interp
from vstat.terms import Term


def constants(ctx, *names):
    """Named constants of the package have their documented value, wherever they are kept."""
    ref = ctx.spec("con:anchor").module

    def go(o):
        I = Interp(ctx.p)
        n = 0
        for name in names:
            want = I.eval_global(ref.globals[name], ref)
            for m in sorted(ctx.p.modules.values(), key=lambda m: m.name):
                if m is ref or m.name.startswith("vspec.") or name not in m.globals:
                    continue
                n += 1
                got = I.eval_global(m.globals[name], m)
                where = f"{m.path}:{m.globals[name].lineno}"
                a, b = contents(got), contents(want)
                if got is want or a is not None and a == b:
                    continue
                if a is None or b is None or a[0] == b[0] and len(a) == 2 and a[0] != "value" and sorted(a[1], key=repr) == sorted(b[1], key=repr):
                    o.und(f"{name} = {got!r} where {want!r} is documented", where)
                else:
                    o.bad(f"{name} = {got!r} where {want!r} is documented", where)
        o.measure = {"constants": n}
    ctx.rule("constants", "documented constants have their documented values", "constants", go)


def contents(t):
    """A literal, free of the order of sets and of the choice between lists and tuples; None when it is computed."""
    if not isinstance(t, Term):
        return None
    if T.is_const(t):
        return ("value", t)
    if t.op == "tuple":
        sub = [contents(x) for x in t.args[0]]
        return None if None in sub else ("seq", tuple(sub))
    if t.op == "new":
        sub = [contents(x) for _, x in t.args[1]]
        return None if None in sub else ("new", (t.args[0], tuple((k, c) for (k, _), c in zip(t.args[1], sub))))
    if t.op == "comp":
        sub = [contents(e) if not its and g is T.TRUE else None for its, g, e in t.args[1]]
        if None in sub:
            return None
        return (str(t.args[0]), frozenset(sub)) if str(t.args[0]) in ("set", "dict") else ("seq", tuple(sub))
    return None


def distinct(ctx, names, *, but=False):
    """Two members of an enumeration with the same value would be one member."""
    def go(o):
        n = 0
        I = Interp(ctx.p)
        for c in sorted({c for m in ctx.p.modules.values() for c in m.classes.values()}, key=lambda c: c.name):
            if not c.is_enum or (c.name in names) is but or c.module.name.startswith("vspec."):
                continue
            seen = {}
            for m in ctx.p.enum_members(c):
                n += 1
                v = I.eval_global(c.consts[m], c.module)
                if not T.is_const(v):
                    continue
                if v in seen:
                    o.bad(f"{c.name}.{m} and {c.name}.{seen[v]} have the same value and are the same member", f"{c.module.path}:{c.consts[m].lineno}")
                seen[v] = m
        o.measure = {"members": n}
    ctx.rule("distinct-members", "the members of an enumeration are different from each other", "enumerations", go)


def input_names(ctx, cn):
    """Every documented column name is accepted, for the one attribute it is documented for."""
    ref = ctx.spec("con:anchor").module
    want = ast.literal_eval(ref.globals["INPUT_NAMES"])[cn]

    def go(o):
        c = ctx.p.cls("common.data_io.data_key:" + cn)
        owner, n = {}, 0
        for m in ctx.p.enum_members(c):
            v = c.consts[m]
            arg = next((k.value for k in v.keywords if k.arg == "possible_input_names"), v.args[2] if len(v.args) > 2 else None) if isinstance(v, ast.Call) else None
            if arg is None:
                if m in want:
                    o.bad(f"{cn}.{m} is no longer read from files", f"{c.module.path}:{v.lineno}")
                continue
            try:
                names = {x for x in ast.literal_eval(arg)}
            except ValueError:
                o.und(f"the names of {cn}.{m} are computed", f"{c.module.path}:{v.lineno}")
                continue
            for x in names:
                n += 1
                if x in owner:
                    o.bad(f"{x!r} is read as {cn}.{m} and as {cn}.{owner[x]}", f"{c.module.path}:{v.lineno}")
                owner[x] = m
            for x in sorted(want.get(m, set()) - names):
                o.bad(f"the documented column {x!r} is not read as {cn}.{m}", f"{c.module.path}:{v.lineno}")
        o.measure = {"names": n}
    ctx.rule(f"columns:{cn}", "the documented column names are accepted, each for one attribute", "common.data_io.data_key:" + cn, go)
