"""Behaviour-preserving rewrites of a whole copy of the repository.

usage: rewrites.py KIND [file-substring]     rewrites /tmp/mr from /repo, then run the checks with VSTAT_REPO=/tmp/mr
Only used to test the checks: every check must stay quiet after each rewrite.
"""
import ast
import copy
import os
import shutil
import sys

SRC, DST = "/repo", "/tmp/mr"


def own(fn):
    """Nodes of a function, nested functions excluded."""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def Not(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        k = inv.get(type(e.ops[0]))
        if k:
            return ast.Compare(e.left, [k()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def blocks(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


class K:
    def rename(tree):
        for fn in ast.walk(tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            params = {a.arg for g in ast.walk(fn) if isinstance(g, (ast.FunctionDef, ast.Lambda)) for a in g.args.args + g.args.kwonlyargs + g.args.posonlyargs + [x for x in (g.args.vararg, g.args.kwarg) if x]}
            defs = {g.name for g in ast.walk(fn) if isinstance(g, (ast.FunctionDef, ast.ClassDef))}
            glob = {x for g in ast.walk(fn) if isinstance(g, (ast.Global, ast.Nonlocal)) for x in g.names}
            imported = {(a.asname or a.name).split(".")[0] for g in ast.walk(fn) if isinstance(g, (ast.Import, ast.ImportFrom)) for a in g.names}
            stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            names = {x for x in stored - params - defs - glob - imported if not x.endswith("_rn")}
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id in names:
                    n.id += "_rn"
                elif isinstance(n, ast.ExceptHandler) and n.name in names:
                    n.name += "_rn"
        return tree

    def invert(tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.If):
                if n.orelse:
                    n.body, n.orelse = n.orelse, n.body
                    n.test = Not(n.test)
                else:
                    n.test, n.body, n.orelse = Not(n.test), [ast.Pass()], n.body
            elif isinstance(n, ast.IfExp):
                n.test, n.body, n.orelse = Not(n.test), n.orelse, n.body
        return tree

    def nest_return(tree):
        def exits(b):
            return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))
        for n, f, b in list(blocks(tree)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and exits(s.body) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break
        return tree

    def unnest_continue(tree):
        """for x: if c: A   ->   for x: if not c: continue; A"""
        for n in ast.walk(tree):
            if isinstance(n, ast.For):
                s = n.body[-1]
                if isinstance(s, ast.If) and not s.orelse:
                    n.body[-1:] = [ast.If(Not(s.test), [ast.Continue()], [])] + s.body
        return tree

    def early_return(tree):
        """f: ...; if c: A (last statement, no value)  ->  if not c: return; A"""
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                s = n.body[-1]
                if isinstance(s, ast.If) and not s.orelse and len(n.body) > 1:
                    n.body[-1:] = [ast.If(Not(s.test), [ast.Return(None)], [])] + s.body
        return tree

    def guard_continue(tree):
        """if c: continue; rest -> if not c: rest"""
        for n in ast.walk(tree):
            if isinstance(n, ast.For):
                for i, s in enumerate(n.body):
                    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(n.body):
                        s.test = Not(s.test)
                        s.body = n.body[i + 1:]
                        del n.body[i + 1:]
                        break
        return tree

    def split_and(tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                rest = n.test.values[1:]
                n.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]
                n.test = n.test.values[0]
        return tree

    def demorgan(tree):
        class V(ast.NodeTransformer):
            def visit_BoolOp(self, n):
                self.generic_visit(n)
                return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.values]))

            def visit_If(self, n):
                self.generic_visit(n)
                return n
        # only where the value is used as a truth value
        for n in ast.walk(tree):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)) and isinstance(n.test, ast.BoolOp):
                n.test = V().visit(n.test)
            if isinstance(n, ast.comprehension):
                n.ifs = [V().visit(x) if isinstance(x, ast.BoolOp) else x for x in n.ifs]
        return tree

    def flip(tree):
        k = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in k and not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self",) and x.attr in () for x in ast.walk(n)):
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [k[type(n.ops[0])]()]
        return tree

    def temp_return(tree):
        for n, f, b in list(blocks(tree)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    b[i:i + 1] = [ast.Assign([ast.Name("result_tmp", ast.Store())], s.value, lineno=1), ast.Return(ast.Name("result_tmp", ast.Load()))]
        return tree

    def temp_cond(tree):
        k = [0]
        for n, f, b in list(blocks(tree)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                    if f == "orelse" and isinstance(n, ast.If) and len(b) == 1:
                        pass
                    k[0] += 1
                    nm = f"cond_{k[0]}"
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], s.test, lineno=1), s]
                    s.test = ast.Name(nm, ast.Load())
        return tree

    def temp_args(tree):
        """f(g(x)) as a statement -> a = g(x); f(a)   (single argument, evaluated first)"""
        k = [0]
        for n, f, b in list(blocks(tree)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and len(s.value.args) == 1 and not isinstance(s.value.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)):
                    k[0] += 1
                    nm = f"arg_{k[0]}"
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], s.value.args[0], lineno=1), s]
                    s.value.args[0] = ast.Name(nm, ast.Load())
        return tree

    def comp_loop(tree):
        """x = [e for ..] -> x = []; for ..: x.append(e)   (lists, sets, dicts assigned to a name or returned)"""
        class C:
            pass
        k = [0]
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                ret = isinstance(s, ast.Return)
                if ret:
                    k[0] += 1
                    name, v = f"coll_{k[0]}", s.value
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    name, v = s.targets[0].id, s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    name, v = s.target.id, s.value
                else:
                    continue
                if not isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)):
                    continue
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v)):
                    continue
                nm = ast.Name(name, ast.Load())
                if isinstance(v, ast.ListComp):
                    init, st = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(nm, "append", ast.Load()), [v.elt], []))
                elif isinstance(v, ast.SetComp):
                    init, st = ast.Call(ast.Name("set", ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(nm, "add", ast.Load()), [v.elt], []))
                else:
                    init, st = ast.Dict([], []), ast.Assign([ast.Subscript(nm, v.key, ast.Store())], v.value, lineno=1)
                body = [st]
                # comprehension variables must not clobber locals
                bound = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                k[0] += 1
                for x in [z for g in v.generators for z in ast.walk(g)] + list(ast.walk(st)):
                    if isinstance(x, ast.Name) and x.id in bound:
                        x.id = f"{x.id}_c{k[0]}"
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [], lineno=1)]
                first = ast.Assign([ast.Name(name, ast.Store())], init, lineno=1)
                b[i:i + 1] = [first] + body + ([ast.Return(nm)] if ret else [])
        return tree

    def loop_comp(tree):
        """x = []; for t in it: [if c:] x.append(e)  ->  x = [e for t in it if c]"""
        for n, f, b in list(blocks(tree)):
            i = 0
            while i + 1 < len(b):
                s, l = b[i], b[i + 1]
                i += 1
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1):
                    continue
                name, x, ifs = s.targets[0].id, l.body[0], []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == name):
                    continue
                s.value = ast.ListComp(x.value.args[0], [ast.comprehension(l.target, l.iter, ifs, 0)])
                del b[i]
        return tree

    def items_keys(tree):
        """for k, v in d.items(): body -> for k in d: v = d[k]; body"""
        def simple(e):
            return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and simple(e.value)
        for n in ast.walk(tree):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and simple(n.iter.func.value):
                d = n.iter.func.value
                k, v = n.target.elts
                n.iter, n.target = d, k
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load()), lineno=1))
        return tree

    def values_items(tree):
        """for v in d.values(): -> for _k, v in d.items():"""
        for n in ast.walk(tree):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "values" and not n.iter.args:
                n.iter.func.attr = "items"
                n.target = ast.Tuple([ast.Name("_key_unused", ast.Store()), n.target], ast.Store())
        return tree

    def tern_if(tree):
        for n, f, b in list(blocks(tree)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp):
                    v = s.value
                    b[i] = ast.If(v.test, [ast.Assign(s.targets, v.body, lineno=1)], [ast.Assign(copy.deepcopy(s.targets), v.orelse, lineno=1)])
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    v = s.value
                    b[i] = ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return tree

    def if_tern(tree):
        for n, f, b in list(blocks(tree)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
                    x, y = s.body[0], s.orelse[0]
                    if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                        b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value), lineno=1)
                    elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                        b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
        return tree

    def cond_helper(tree):
        """compound conditions of names/attributes move to module-level predicates"""
        new, k = [], [0]
        mod_names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in own(fn)):
                continue
            for n in own(fn):
                if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr)) for x in ast.walk(n.test)):
                    used = sorted({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)} & loc)
                    if any(u in ("cls",) for u in used) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(n.test)):
                        continue
                    k[0] += 1
                    nm = f"_holds_{k[0]}"
                    ren = {u: ("obj_self" if u == "self" else u) for u in used}
                    test = n.test
                    n.test = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
                    for x in ast.walk(test):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                    new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(ren[u]) for u in used], None, [], [], None, []), [ast.Return(test)], [], None, None, lineno=1))
        tree.body += new
        return tree

    def body_helper(tree):
        """bodies of loops without control flow out of them move to module-level functions taking the names they read"""
        new, k = [], [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Yield)) for x in own(fn)):
                continue
            loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in own(fn):
                if not isinstance(n, ast.For) or n.orelse or len(n.body) < 2:
                    continue
                inner = [y for s in n.body for y in ast.walk(s)]
                if any(isinstance(y, (ast.Break, ast.Return, ast.Continue, ast.Yield, ast.Try, ast.With)) for y in inner):
                    continue
                if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id.startswith("_moved_") for y in inner):
                    continue
                if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for y in inner):
                    continue
                stored = {y.id for y in inner if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                # names stored inside must not be visible outside
                outside = {y.id for y in own(fn) if isinstance(y, ast.Name) and not any(y is z for z in inner)}
                if stored & outside:
                    continue
                used = sorted(({y.id for y in inner if isinstance(y, ast.Name)} & loc) - stored)
                if "cls" in used:
                    continue
                k[0] += 1
                nm = f"_moved_{k[0]}"
                body = copy.deepcopy(n.body)
                for s in body:
                    for y in ast.walk(s):
                        if isinstance(y, ast.Name) and y.id == "self":
                            y.id = "obj_self"
                new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("obj_self" if u == "self" else u) for u in used], None, [], [], None, []), body, [], None, None, lineno=1))
                n.body = [ast.Expr(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
        tree.body += new
        return tree

    def impl(tree):
        """every method body moves to a private sibling"""
        for c in ast.walk(tree):
            b = c.body if isinstance(c, (ast.ClassDef, ast.Module)) else None
            if b is None:
                continue
            for i in range(len(b) - 1, -1, -1):
                f = b[i]
                if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name.startswith("__") or f.args.vararg or f.args.kwarg or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f)):
                    continue
                if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
                    continue
                g = copy.deepcopy(f)
                g.name = "_" + (c.name.lower() + "_" if isinstance(c, ast.ClassDef) else "") + f.name.strip("_") + "_inner"
                names = [a.arg for a in f.args.args]
                kw = [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in f.args.kwonlyargs]
                if isinstance(c, ast.ClassDef):
                    call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), g.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names[1:]], kw)
                else:
                    call = ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names], kw)
                f.body = [ast.Return(call)]
                g.args.defaults = []
                g.args.kw_defaults = [None] * len(g.args.kwonlyargs)
                b.insert(i, g)
        return tree

    def in_or(tree):
        class V(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Set, ast.Tuple, ast.List)) and n.comparators[0].elts and isinstance(n.left, (ast.Name, ast.Attribute)):
                    e = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts])
                    if len(e.values) == 1:
                        e = e.values[0]
                    return e if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), e)
                return n
        return V().visit(tree)

    def get_in(tree):
        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and isinstance(n.func.value, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(n.args[0])):
                    return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(copy.deepcopy(n.func.value), copy.deepcopy(n.args[0]), ast.Load()), n.args[1])
                return n
        return V().visit(tree)

    def log(tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
                n.body.insert(i, ast.Assign([ast.Name("_unused_marker", ast.Store())], ast.Constant(0), lineno=1))
        return tree

    def swap(tree):
        """adjacent assignments of call-free expressions to different names"""
        def ok(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Call, ast.Await, ast.Subscript)) for x in ast.walk(s.value))
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if ok(x) and ok(y):
                    nx, ny = x.targets[0].id, y.targets[0].id
                    if nx != ny and not any(isinstance(z, ast.Name) and z.id == nx for z in ast.walk(y)) and not any(isinstance(z, ast.Name) and z.id == ny for z in ast.walk(x)):
                        b[i], b[i + 1] = y, x
                        i += 1
                i += 1
        return tree

    def enum_loop(tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.For):
                n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
                n.target = ast.Tuple([ast.Name("_index_unused", ast.Store()), n.target], ast.Store())
        return tree

    def aug(tree):
        class V(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant):
                    return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=1)
                return n
        return V().visit(tree)

    def any_loop(tree):
        """return any(e for x in s) / all(..) -> loop"""
        for n, f, b in list(blocks(tree)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)):
                    g = s.value.args[0]
                    is_any = s.value.func.id == "any"
                    body = [ast.If(g.elt if is_any else Not(g.elt), [ast.Return(ast.Constant(is_any))], [])]
                    for gen in reversed(g.generators):
                        for c in reversed(gen.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(gen.target, gen.iter, body, [], lineno=1)]
                    b[i:i + 1] = body + [ast.Return(ast.Constant(not is_any))]
        return tree

    def sum_loop(tree):
        k = [0]
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "sum" and len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
                    g = v.args[0]
                    k[0] += 1
                    nm = f"total_{k[0]}"
                    bound = {x.id for gg in g.generators for x in ast.walk(gg.target) if isinstance(x, ast.Name)}
                    for x in ast.walk(g):
                        if isinstance(x, ast.Name) and x.id in bound:
                            x.id = f"{x.id}_s{k[0]}"
                    body = [ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), g.elt)]
                    for gen in reversed(g.generators):
                        for c in reversed(gen.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(gen.target, gen.iter, body, [], lineno=1)]
                    s.value = ast.Name(nm, ast.Load())
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(0), lineno=1)] + body + [s]
        return tree

    def alias(tree):
        """self.x read several times in a function -> local alias, when the function never stores it and calls no method"""
        for fn in ast.walk(tree):
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args or fn.args.args[0].arg != "self" or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in own(fn)) or fn.name == "__init__" or fn.decorator_list:
                continue
            if any(isinstance(x, ast.Name) and x.id == "super" or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(fn)):
                continue
            stores = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
            reads = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr not in stores:
                    reads.setdefault(x.attr, []).append(x)
            first = [a for a, l in reads.items() if len(l) > 1][:2]

            class V(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in first and isinstance(n.ctx, ast.Load):
                        return ast.Name("al_" + n.attr, ast.Load())
                    self.generic_visit(n)
                    return n
            if first:
                fn.body = [V().visit(s) for s in fn.body]
                i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
                fn.body[i:i] = [ast.Assign([ast.Name("al_" + a, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load()), lineno=1) for a in first]
        return tree

    def fstr(tree):
        """f"..{x}.." -> "..{}..".format(x)"""
        class V(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion not in (-1, None)) for v in n.values):
                    return n
                text, args = "", []
                for v in n.values:
                    if isinstance(v, ast.FormattedValue):
                        text += "{}"
                        args.append(v.value)
                    else:
                        text += v.value.replace("{", "{{").replace("}", "}}")
                return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])
        return V().visit(tree)

    def ctor_call(tree):
        """[] -> list(), {} -> dict()"""
        class V(ast.NodeTransformer):
            def visit_List(self, n):
                self.generic_visit(n)
                return ast.Call(ast.Name("list", ast.Load()), [], []) if not n.elts and isinstance(n.ctx, ast.Load) else n

            def visit_Dict(self, n):
                self.generic_visit(n)
                return ast.Call(ast.Name("dict", ast.Load()), [], []) if not n.keys else n
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            fn.body = [V().visit(s) for s in fn.body]
        return tree

    def max_if(tree):
        """max(a, b) -> a if a >= b else b, for names, attributes and constants"""
        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id in ("max", "min") and len(n.args) == 2 and not n.keywords and all(isinstance(a, (ast.Name, ast.Attribute, ast.Constant)) for a in n.args):
                    a, b = n.args
                    return ast.IfExp(ast.Compare(a, [ast.GtE() if n.func.id == "max" else ast.LtE()], [b]), copy.deepcopy(a), copy.deepcopy(b))
                return n
        return V().visit(tree)

    def tuple_assign(tree):
        """a = x; b = y -> a, b = x, y"""
        def ok(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if ok(x) and ok(y) and not any(isinstance(z, ast.Name) and z.id == x.targets[0].id for z in ast.walk(y)) and not any(isinstance(z, (ast.Lambda, ast.GeneratorExp)) for z in ast.walk(y)):
                    b[i:i + 2] = [ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], ast.Store())], ast.Tuple([x.value, y.value], ast.Load()), lineno=1)]
                i += 1
        return tree

    def unpack_item(tree):
        """for a, b in xs -> for item in xs: a, b = item"""
        k = [0]
        for n in ast.walk(tree):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple):
                k[0] += 1
                nm = f"item_{k[0]}"
                n.body.insert(0, ast.Assign([n.target], ast.Name(nm, ast.Load()), lineno=1))
                n.target = ast.Name(nm, ast.Store())
        return tree

    def nested_def(tree):
        """bodies of loops without control flow out of them move to functions inside the function"""
        k = [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Yield)) for x in own(fn)):
                continue
            for n, f, b in list(blocks(fn)):
                for i in range(len(b) - 1, -1, -1):
                    s = b[i]
                    if not isinstance(s, ast.For) or s.orelse or len(s.body) < 2 or not isinstance(s.target, (ast.Name, ast.Tuple)):
                        continue
                    inner = [y for t in s.body for y in ast.walk(t)]
                    if any(isinstance(y, (ast.Break, ast.Return, ast.Continue, ast.Yield, ast.FunctionDef)) for y in inner):
                        continue
                    if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for y in inner):
                        continue
                    stored = {y.id for y in inner if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                    outside = {y.id for y in own(fn) if isinstance(y, ast.Name) and not any(y is z for z in inner)}
                    if stored & outside:
                        continue
                    tg = [y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)]
                    k[0] += 1
                    nm = f"handle_{k[0]}"
                    d = ast.FunctionDef(nm, ast.arguments([], [ast.arg(t) for t in tg], None, [], [], None, []), s.body, [], None, None, lineno=1)
                    s.body = [ast.Expr(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(t, ast.Load()) for t in tg], []))]
                    b.insert(i, d)
        return tree

    def set_in(tree):
        """x in {A.B, C.D} -> x in [A.B, C.D] and the other way round"""
        class V(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    c = n.comparators[0]
                    if isinstance(c, (ast.Set, ast.Tuple, ast.List)) and c.elts and all(isinstance(e, ast.Attribute) for e in c.elts):
                        n.comparators = [ast.Tuple(c.elts, ast.Load()) if isinstance(c, (ast.Set, ast.List)) else ast.Set(c.elts)]
                return n
        return V().visit(tree)

    def walrus(tree):
        """x = f(); if x ...: -> if (x := f()) ...:"""
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 2, -1, -1):
                x, y = b[i], b[i + 1]
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(y, ast.If):
                    nm = x.targets[0].id
                    t = y.test
                    first = t
                    while isinstance(first, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                        par = first
                        first = first.left if isinstance(first, ast.Compare) else first.values[0] if isinstance(first, ast.BoolOp) else first.operand
                    if not (isinstance(first, ast.Name) and first.id == nm):
                        continue
                    w = ast.NamedExpr(ast.Name(nm, ast.Store()), x.value)
                    if first is t:
                        y.test = w
                    elif isinstance(par, ast.Compare):
                        par.left = w
                    elif isinstance(par, ast.BoolOp):
                        par.values[0] = w
                    else:
                        par.operand = w
                    del b[i]
        return tree

    def inline_tmp(tree):
        """x = e; return f(x) -> return f(e), when x is used once, right there, first"""
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 2, -1, -1):
                x, y = b[i], b[i + 1]
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(y, ast.Return) and isinstance(y.value, ast.Name) and y.value.id == x.targets[0].id:
                    b[i:i + 2] = [ast.Return(x.value)]
        return tree

    def kwargs(tree):
        """positional arguments of calls of functions of the same module become keywords"""
        sig = {f.name: f for f in tree.body if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.posonlyargs}
        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id in sig and not any(isinstance(a, ast.Starred) for a in n.args):
                    names = [a.arg for a in sig[n.func.id].args.args]
                    if len(n.args) <= len(names):
                        n.keywords = [ast.keyword(names[i], a) for i, a in enumerate(n.args)] + n.keywords
                        n.args = []
                return n
        return V().visit(tree)

    def hoist(tree):
        """numbers used in a loop body get a name before the function's loop"""
        k = [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            for i in range(len(fn.body) - 1, -1, -1):
                s = fn.body[i]
                if isinstance(s, ast.For):
                    pre = []

                    class V(ast.NodeTransformer):
                        def visit_Constant(self, n):
                            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                                k[0] += 1
                                pre.append(ast.Assign([ast.Name(f"const_{k[0]}", ast.Store())], n, lineno=1))
                                return ast.Name(f"const_{k[0]}", ast.Load())
                            return n

                        def visit_JoinedStr(self, n):
                            return n

                        def visit_FunctionDef(self, n):
                            return n
                    s.body = [V().visit(x) for x in s.body]
                    fn.body[i:i] = pre
        return tree

    def append_iadd(tree):
        """xs.append(x) -> xs += [x] on local lists; xs.extend(y) -> xs += y"""
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in own(fn)):
                continue
            local = {s.targets[0].id for s in own(fn) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List)}
            for n, f, b in list(blocks(fn)):
                for i, s in enumerate(b):
                    c = s.value if isinstance(s, ast.Expr) else None
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id in local and len(c.args) == 1:
                        b[i] = ast.AugAssign(ast.Name(c.func.value.id, ast.Store()), ast.Add(), ast.List([c.args[0]], ast.Load()))
        return tree

    def setdefault(tree):
        """if k not in d: d[k] = v -> d.setdefault(k, v), for literals"""
        for n, f, b in list(blocks(tree)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.NotIn):
                    a = s.body[0]
                    if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Subscript) and ast.dump(a.targets[0].value) == ast.dump(s.test.comparators[0]) and ast.dump(a.targets[0].slice) == ast.dump(s.test.left) and isinstance(a.value, (ast.List, ast.Dict, ast.Constant)):
                        b[i] = ast.Expr(ast.Call(ast.Attribute(s.test.comparators[0], "setdefault", ast.Load()), [s.test.left, a.value], []))
        return tree

    def fission(tree):
        """a loop over a name with two independent appends becomes two loops"""
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            for n, f, b in list(blocks(fn)):
                for i in range(len(b) - 1, -1, -1):
                    s = b[i]
                    if isinstance(s, ast.For) and not s.orelse and len(s.body) == 2 and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("append", "add") and isinstance(x.value.func.value, ast.Name) for x in s.body):
                        p, q = s.body
                        if p.value.func.value.id != q.value.func.value.id:
                            t = copy.deepcopy(s)
                            s.body, t.body = [p], [q]
                            b.insert(i + 1, t)
        return tree

    def extend_list(tree):
        """xs.append(x) -> xs.extend([x])"""
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "append" and len(n.value.args) == 1:
                n.value.func.attr = "extend"
                n.value.args = [ast.List([n.value.args[0]], ast.Load())]
        return tree

    def concat_list(tree):
        """xs.append(x) -> xs = xs + [x], for lists made and used only here"""
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in own(fn)):
                continue
            local = {}
            for s in own(fn):
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(t, ast.Name):
                    local.setdefault(t.id, []).append(s.value)
            good = {k for k, v in local.items() if len(v) == 1 and isinstance(v[0], ast.List) and not v[0].elts}
            # only appended to or returned
            for k in sorted(good):
                uses = [x for x in own(fn) if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load)]
                app = [s for s in own(fn) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == k]
                ret = [s for s in own(fn) if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == k]
                if len(uses) != len(app) + len(ret):
                    continue
                for n, f, b in list(blocks(fn)):
                    for i, s in enumerate(b):
                        if any(s is a for a in app):
                            b[i] = ast.Assign([ast.Name(k, ast.Store())], ast.BinOp(ast.Name(k, ast.Load()), ast.Add(), ast.List([s.value.args[0]], ast.Load())), lineno=1)
        return tree

    def extend_gen(tree):
        """for x in xs: [if c:] out.append(e) -> out.extend(e for x in xs if c)"""
        for n, f, b in list(blocks(tree)):
            if isinstance(n, ast.Module):
                continue
            for i, s in enumerate(b):
                if not isinstance(s, ast.For) or s.orelse or len(s.body) != 1:
                    continue
                x, ifs = s.body[0], []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("append", "add") and isinstance(x.value.func.value, ast.Name) and len(x.value.args) == 1:
                    nm = x.value.func.value.id
                    if any(isinstance(y, ast.Name) and y.id == nm for z in [x.value.args[0], s.iter] + ifs for y in ast.walk(z)) or any(isinstance(y, ast.NamedExpr) for z in ifs for y in ast.walk(z)):
                        continue
                    g = ast.GeneratorExp(x.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)])
                    b[i] = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "extend" if x.value.func.attr == "append" else "update", ast.Load()), [g], []))
        return tree

    def dictcomp_loop(tree):
        k = [0]
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
                if isinstance(v, ast.DictComp):
                    k[0] += 1
                    nm = f"mapping_{k[0]}"
                    bound = {x.id for gg in v.generators for x in ast.walk(gg.target) if isinstance(x, ast.Name)}
                    for x in ast.walk(v):
                        if isinstance(x, ast.Name) and x.id in bound:
                            x.id = f"{x.id}_m{k[0]}"
                    body = [ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), v.key, ast.Store())], v.value, lineno=1)]
                    for gen in reversed(v.generators):
                        for c in reversed(gen.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(gen.target, gen.iter, body, [], lineno=1)]
                    s.value = ast.Name(nm, ast.Load())
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.Dict([], []), lineno=1)] + body + [s]
        return tree

    def loop_dictcomp(tree):
        """d = {}; for x in xs: [if c:] d[k] = v -> d = {k: v for x in xs if c}"""
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 2, -1, -1):
                a, s = b[i], b[i + 1]
                t = a.targets[0] if isinstance(a, ast.Assign) and len(a.targets) == 1 else a.target if isinstance(a, ast.AnnAssign) else None
                if not (isinstance(t, ast.Name) and isinstance(a.value, ast.Dict) and not a.value.keys and isinstance(s, ast.For) and not s.orelse and len(s.body) == 1):
                    continue
                x, ifs = s.body[0], []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == t.id:
                    if any(isinstance(y, ast.Name) and y.id == t.id for z in [x.value, s.iter, x.targets[0].slice] + ifs for y in ast.walk(z)):
                        continue
                    a.value = ast.DictComp(x.targets[0].slice, x.value, [ast.comprehension(s.target, s.iter, ifs, 0)])
                    del b[i + 1]
        return tree

    def index_loop(tree):
        """for i, x in enumerate(xs) -> for i in range(len(xs)): x = xs[i]"""
        for n in ast.walk(tree):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter.args[0], ast.Name):
                i, x = n.target.elts
                xs = n.iter.args[0]
                n.body.insert(0, ast.Assign([x], ast.Subscript(xs, ast.Name(i.id, ast.Load()), ast.Load()), lineno=1))
                n.target = i
                n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(xs)], [])], [])
        return tree

    def product_loop(tree):
        """for a in A: for b in B: body -> for a, b in itertools.product(A, B)"""
        used = False
        for n in ast.walk(tree):
            if isinstance(n, ast.For) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.For) and not n.body[0].orelse:
                m = n.body[0]
                names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(m.iter)) or any(isinstance(x, (ast.Break,)) for x in ast.walk(m)) or any(isinstance(x, ast.Call) for x in ast.walk(m.iter)):
                    continue
                n.target = ast.Tuple([n.target, m.target], ast.Store())
                n.iter = ast.Call(ast.Attribute(ast.Name("itertools", ast.Load()), "product", ast.Load()), [n.iter, m.iter], [])
                n.body = m.body
                used = True
        if used:
            i = 1 if isinstance(tree.body[0], ast.Expr) else 0
            tree.body.insert(i, ast.Import([ast.alias("itertools")]))
        return tree

    def expr_helper(tree):
        """values of assignments that compute something move to module-level functions"""
        new, k = [], [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in own(fn)):
                continue
            loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for s in own(fn):
                if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.BoolOp, ast.IfExp, ast.Compare)) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr)) for x in ast.walk(s.value)):
                    used = sorted({x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & loc)
                    if "cls" in used or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s.value)):
                        continue
                    k[0] += 1
                    nm = f"_value_{k[0]}"
                    val = s.value
                    s.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
                    for x in ast.walk(val):
                        if isinstance(x, ast.Name) and x.id == "self":
                            x.id = "obj_self"
                    new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("obj_self" if u == "self" else u) for u in used], None, [], [], None, []), [ast.Return(val)], [], None, None, lineno=1))
        tree.body += new
        return tree

    def merge_if(tree):
        class V(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                while not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                    m = n.body[0]
                    n.test = ast.BoolOp(ast.And(), [n.test, m.test])
                    n.body = m.body
                return n
        return V().visit(tree)

    def chain(tree):
        """a < b < c -> a < b and b < c"""
        class V(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Attribute)):
                    return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
                return n
        return V().visit(tree)

    def unannotate(tree):
        """local annotations are dropped"""
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    b[i] = ast.Assign([s.target], s.value, lineno=1)
        return tree

    def alias_attr(tree):
        """attributes of loop variables read twice in the loop get a name at its start"""
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            stores = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
            for s in own(fn):
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for y in s.body for x in ast.walk(y)):
                    v = s.target.id
                    seen = {}
                    for y in s.body:
                        for x in ast.walk(y):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == v and x.attr not in stores:
                                seen[x.attr] = seen.get(x.attr, 0) + 1
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v:
                                seen[x.func.attr] = -99
                    pick = [a for a, c in seen.items() if c > 1 and a in ("tx_site", "rx_site", "tx_sector", "rx_sector", "site_id", "link_id", "sector_id", "site_type", "device", "is_wireless", "latitude", "longitude", "site")][:2]

                    class V(ast.NodeTransformer):
                        def visit_Attribute(self, n):
                            if isinstance(n.value, ast.Name) and n.value.id == v and n.attr in pick and isinstance(n.ctx, ast.Load):
                                return ast.Name(f"{v}_{n.attr}", ast.Load())
                            self.generic_visit(n)
                            return n
                    s.body = [V().visit(y) for y in s.body]
                    s.body[0:0] = [ast.Assign([ast.Name(f"{v}_{a}", ast.Store())], ast.Attribute(ast.Name(v, ast.Load()), a, ast.Load()), lineno=1) for a in pick]
        return tree

    def logger(tree):
        """debug messages at the start of functions and loops"""
        has = any(isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == "logger" for t in (s.targets if isinstance(s, ast.Assign) else [s.target])) for s in tree.body)
        if not has:
            return tree
        for n in list(ast.walk(tree)):
            if isinstance(n, ast.FunctionDef):
                names = [a.arg for a in n.args.args if a.arg not in ("self", "cls")][:1]
                vals = [ast.Constant(f"{n.name}: ")] + [ast.FormattedValue(ast.Name(x, ast.Load()), -1) for x in names]
                i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
                n.body.insert(i, ast.Expr(ast.Call(ast.Attribute(ast.Name("logger", ast.Load()), "debug", ast.Load()), [ast.JoinedStr(vals)], [])))
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                n.body.insert(0, ast.Expr(ast.Call(ast.Attribute(ast.Name("logger", ast.Load()), "debug", ast.Load()), [ast.Constant("at %s"), ast.Name(n.target.id, ast.Load())], [])))
        return tree

    def mod_const(tree):
        """numbers and texts in functions become module constants"""
        k, new = [0], []

        class V(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool) and n.value not in ("", 0, 1):
                    k[0] += 1
                    new.append(ast.Assign([ast.Name(f"_CONSTANT_{k[0]}", ast.Store())], ast.Constant(n.value), lineno=1))
                    return ast.Name(f"_CONSTANT_{k[0]}", ast.Load())
                return n

            def visit_JoinedStr(self, n):
                return n

            def visit_AnnAssign(self, n):
                if n.value is not None:
                    n.value = self.visit(n.value)
                return n

            def visit_FunctionDef(self, n):
                b = n.body
                i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
                n.body = b[:i] + [self.visit(s) for s in b[i:]]
                return n

            def visit_ClassDef(self, n):
                n.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
                return n
        tree.body = [V().visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in tree.body]
        last = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1)
        tree.body[last + 1:last + 1] = new
        return tree

    def update_item(tree):
        """d[k] = v -> d.update({k: v}), for local dictionaries"""
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in own(fn)):
                continue
            local = {(s.targets[0] if isinstance(s, ast.Assign) else s.target).id for s in own(fn) if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.targets[0] if isinstance(s, ast.Assign) else s.target, ast.Name) and isinstance(s.value, ast.Dict)}
            for n, f, b in list(blocks(fn)):
                for i, s in enumerate(b):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id in local:
                        b[i] = ast.Expr(ast.Call(ast.Attribute(ast.Name(s.targets[0].value.id, ast.Load()), "update", ast.Load()), [ast.Dict([s.targets[0].slice], [s.value])], []))
        return tree

    def kw_reorder(tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords) and not any(isinstance(x, ast.Call) for k in n.keywords for x in ast.walk(k.value)):
                n.keywords.reverse()
        return tree

    def plain_dict(tree):
        """defaultdict(list)/(set)/(dict): d[k].m() -> d.setdefault(k, []).m(), when that is all that is done with it but reading"""
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            for s in own(fn):
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                v = getattr(s, "value", None)
                if not (isinstance(t, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "defaultdict" and len(v.args) == 1 and isinstance(v.args[0], ast.Name) and v.args[0].id in ("list", "set")):
                    continue
                nm, kind = t.id, v.args[0].id
                subs = [x for x in ast.walk(fn) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == nm]
                calls = [c for c in ast.walk(fn) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and any(c.func.value is x for x in subs) and c.func.attr in ("append", "add", "update", "extend")]
                names = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm]
                other = [x for x in subs if not any(c.func.value is x for c in calls)]
                if other or not calls:
                    continue
                s.value = ast.Dict([], [])
                for c in calls:
                    x = c.func.value
                    c.func.value = ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "setdefault", ast.Load()), [x.slice, ast.List([], ast.Load()) if kind == "list" else ast.Call(ast.Name("set", ast.Load()), [], [])], [])
        return tree

    def swap_pure(tree):
        """adjacent assignments whose values only call reading functions"""
        PURE = {"len", "min", "max", "abs", "sorted", "sum", "round", "float", "int", "str", "set", "list", "range", "zip"}
        def pure(e):
            for x in ast.walk(e):
                if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)):
                    return False
                if isinstance(x, ast.Call):
                    f = x.func
                    if isinstance(f, ast.Name) and (f.id in PURE or f.id.startswith(("get_", "compute_", "is_"))):
                        continue
                    if isinstance(f, ast.Attribute) and (f.attr in ("get", "values", "keys", "items") or f.attr.startswith(("get_",)) or isinstance(f.value, ast.Name) and f.value.id in ("math", "np")):
                        continue
                    return False
            return True
        def ok(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value)
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if ok(x) and ok(y):
                    nx, ny = x.targets[0].id, y.targets[0].id
                    if nx != ny and not any(isinstance(z, ast.Name) and z.id == nx for z in ast.walk(y)) and not any(isinstance(z, ast.Name) and z.id == ny for z in ast.walk(x)):
                        b[i], b[i + 1] = y, x
                        i += 1
                i += 1
        return tree

    def named_key(tree):
        """sorted(xs, key=lambda x: e) -> a named function"""
        k = [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            for n, f, b in list(blocks(fn)):
                for i in range(len(b) - 1, -1, -1):
                    s = b[i]
                    if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and s.value is not None:
                        for c in ast.walk(s.value):
                            if isinstance(c, ast.Call):
                                for q in c.keywords:
                                    if q.arg == "key" and isinstance(q.value, ast.Lambda):
                                        k[0] += 1
                                        nm = f"key_{k[0]}"
                                        b.insert(i, ast.FunctionDef(nm, q.value.args, [ast.Return(q.value.body)], [], None, None, lineno=1))
                                        q.value = ast.Name(nm, ast.Load())
        return tree

    def none_default(tree):
        """x = a if a is not None else b -> x = a; if x is None: x = b"""
        for n, f, b in list(blocks(tree)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp):
                    v = s.value
                    t = v.test
                    if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.IsNot) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and ast.dump(t.left) == ast.dump(v.body) and isinstance(v.body, (ast.Name, ast.Attribute)):
                        nm = s.targets[0].id
                        b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], v.body, lineno=1), ast.If(ast.Compare(ast.Name(nm, ast.Load()), [ast.Is()], [ast.Constant(None)]), [ast.Assign([ast.Name(nm, ast.Store())], v.orelse, lineno=1)], [])]
        return tree


KINDS = [k for k in vars(K) if not k.startswith("_")]


def main():
    kind = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else ""
    dst = os.environ.get("DST", DST)
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    n = 0
    for root, _, files in os.walk(os.path.join(dst, "terragraph_planner")):
        for fl in files:
            p = os.path.join(root, fl)
            if not fl.endswith(".py") or fl.startswith("test_") or "/test" in p.replace(dst, "") or only not in p:
                continue
            src = open(p).read()
            t = ast.parse(src)
            before = ast.dump(t)
            for k in kind.split("+"):
                t = getattr(K, k)(t)
            ast.fix_missing_locations(t)
            new = ast.unparse(t) + "\n"
            compile(new, p, "exec")
            if ast.dump(ast.parse(new)) != before:
                n += 1
                open(p, "w").write(new)
    print(kind, "files changed", n)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        print(" ".join(KINDS))
    else:
        main()
