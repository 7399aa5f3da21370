"""Source-level normal forms, applied to each module once when it is parsed.

Only rewrites that cannot change what a function does: every pair below is
told apart by no caller.
  xs.extend([a, b])      -> xs.append(a); xs.append(b)
  xs = xs + [a]          -> xs += [a]     where nobody else can hold the list
"""
import ast

PURE = {"len", "sum", "set", "sorted", "any", "all", "max", "min", "tuple", "enumerate", "zip", "list", "dict", "frozenset", "str", "repr", "map", "filter", "isinstance"}
LOOPS = (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def normalise(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, [y for x in b for y in _extend(x)])
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            _concat(n)
    return tree


def _extend(s):
    c = s.value if isinstance(s, ast.Expr) else None
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "extend" and _plain(c.func.value) \
            and len(c.args) == 1 and not c.keywords and isinstance(c.args[0], (ast.List, ast.Tuple)) and c.args[0].elts \
            and not any(isinstance(e, ast.Starred) for e in c.args[0].elts) \
            and (len(c.args[0].elts) == 1 or isinstance(c.func.value, ast.Name)
                 and not any(isinstance(x, ast.Name) and x.id == c.func.value.id for e in c.args[0].elts for x in ast.walk(e))):
        for e in c.args[0].elts:
            a = ast.copy_location(ast.Attribute(c.func.value, "append", ast.Load()), c.func)
            yield ast.copy_location(ast.Expr(ast.copy_location(ast.Call(a, [e], []), c)), s)
    else:
        yield s


def _plain(e):
    return isinstance(e, ast.Name) or isinstance(e, (ast.Attribute, ast.Subscript)) and _plain(e.value)


def _self_concat(s):
    b = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
    return isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add) and isinstance(b.left, ast.Name) and b.left.id == s.targets[0].id \
        and isinstance(b.right, (ast.List, ast.ListComp)) and not any(isinstance(x, ast.Name) and x.id == b.left.id for x in ast.walk(b.right))


def _own_list(v):
    return isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list"


def _concat(fn):
    up = {c: p for p in ast.walk(fn) for c in ast.iter_child_nodes(p)}

    def ups(n):
        while n in up and n is not fn:
            n = up[n]
            yield n
    sites = {}
    for s in ast.walk(fn):
        if _self_concat(s):
            sites.setdefault(s.targets[0].id, []).append(s)
    if not sites:
        return
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    outer = {x for s in ast.walk(fn) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
    for name, cs in sites.items():
        if name in params or name in outer or not _held_alone(fn, name, cs, up, ups):
            continue
        for s in cs:
            new = ast.copy_location(ast.AugAssign(ast.copy_location(ast.Name(name, ast.Store()), s), ast.Add(), s.value.right), s)
            for f in ("body", "orelse", "finalbody"):
                b = getattr(up[s], f, None)
                if isinstance(b, list) and s in b:
                    b[b.index(s)] = new


def _held_alone(fn, name, cs, up, ups):
    last = max(s.lineno for s in cs)
    loops = {x for s in cs for x in ups(s) if isinstance(x, LOOPS)}
    for n in ast.walk(fn):
        if not (isinstance(n, ast.Name) and n.id == name):
            continue
        p = up[n]
        if any(isinstance(x, SCOPES) and x is not fn for x in ups(n)):
            return False
        if not isinstance(n.ctx, ast.Load):
            if isinstance(p, ast.AugAssign) and isinstance(p.op, ast.Add) or p in cs:
                continue
            if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is not None and _own_list(p.value) and (not isinstance(p, ast.Assign) or p.targets == [n]):
                continue
            return False
        if up.get(p) in cs and p.left is n:
            continue
        if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
            if p in loops:
                return False
            continue
        if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load) \
                or isinstance(p, (ast.Compare, ast.UnaryOp, ast.Return, ast.BinOp)) \
                or isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is n \
                or isinstance(p, ast.Attribute) and isinstance(up.get(p), ast.Call) and up[p].func is p \
                or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in PURE and n in p.args:
            continue
        if n.lineno > last and not any(x in loops for x in ups(n)):
            continue
        return False
    return True
