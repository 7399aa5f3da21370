"""The resolved program: modules, classes, functions, enums, annotations."""
import ast
import os

from .normal import normalise

REPO = os.environ.get("VSTAT_REPO", "/repo")
PKG = "terragraph_planner"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: error exit, not a verdict."""


class Func:
    def __init__(self, module, cls, node, kind):
        self.module, self.cls, self.node, self.kind = module, cls, node, kind
        self.name = node.name
        self.qual = f"{module.short}:{cls.name + '.' if cls else ''}{node.name}" + (
            ".setter" if kind == "setter" else "")

    def __repr__(self):
        return f"<{self.qual}>"


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.getters, self.setters = {}, {}, {}
        self.attrs_ann = {}      # attribute -> annotation ast (class level or self.x: T)
        self.consts = {}         # class-level assignments
        self.bases = [_dotted(b.value if isinstance(b, ast.Subscript) else b) for b in node.bases]
        self.is_enum = any(b and b.split(".")[-1] in ("Enum", "IntEnum", "EnumParser") for b in self.bases)
        self.is_namedtuple = any(b and b.split(".")[-1] == "NamedTuple" for b in self.bases)
        self.is_dataclass = any((_dotted(d) or _dotted(getattr(d, "func", None)) or "").split(".")[-1] == "dataclass" for d in node.decorator_list)
        self.fields = []         # (name, default ast or None) for namedtuple/dataclass


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return f"{b}.{n.attr}" if b else None
    return None


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.short = name[len(PKG) + 1:] if name.startswith(PKG + ".") else name
        self.tree = normalise(ast.parse(src, path))
        self.imports = {}   # local name -> ("mod", dotted) | ("from", module, name)
        self.funcs, self.classes, self.globals = {}, {}, {}


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} is missing")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    self.modules[rel] = Module(rel, p, fh.read())
        for m in self.modules.values():
            self._index(m)
        self.class_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_by_name.setdefault(c.name, c)
        for c in list(self.class_by_name.values()):
            c.is_enum = c.is_enum or any(
                b and self.class_by_name.get(b.split(".")[-1]) is not None and self.class_by_name[b.split(".")[-1]].is_enum
                for b in c.bases)
        self.method_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.method_index.setdefault(n, []).append(f)

    def _index(self, m):
        def add_imports(nodes):
            for n in nodes:
                if isinstance(n, ast.Import):
                    for a in n.names:
                        m.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        m.imports[a.asname or a.name] = ("from", n.module, a.name)
                elif isinstance(n, ast.If):
                    add_imports(n.body)
                    add_imports(n.orelse)
                elif isinstance(n, ast.Try):
                    add_imports(n.body)
        add_imports(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef,)):
                add_imports([x for x in n.body if isinstance(x, (ast.Import, ast.ImportFrom))])
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                m.funcs[n.name] = Func(m, None, n, "func")
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = self._cls(m, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.globals[n.target.id] = n.value

    def _cls(self, m, node):
        c = Cls(m, node)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                decs = [_dotted(d) or (_dotted(d.func) if isinstance(d, ast.Call) else "") for d in n.decorator_list]
                if any(d == "property" or d.endswith("cached_property") for d in decs):
                    c.getters[n.name] = Func(m, c, n, "getter")
                elif any(d.endswith(".setter") for d in decs):
                    c.setters[n.name] = Func(m, c, n, "setter")
                else:
                    k = "static" if "staticmethod" in decs else "class" if "classmethod" in decs else "method"
                    c.methods[n.name] = Func(m, c, n, k)
                for s in ast.walk(n):
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                        c.attrs_ann.setdefault(s.target.attr, s.annotation)
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == "self" and isinstance(s.value, ast.Name):
                        for a in n.args.args + n.args.kwonlyargs:
                            if a.arg == s.value.id and a.annotation is not None:
                                c.attrs_ann.setdefault(s.targets[0].attr, a.annotation)
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == "self" and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                        c.attrs_ann.setdefault(s.targets[0].attr, s.value.func)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.attrs_ann[n.target.id] = n.annotation
                c.fields.append((n.target.id, n.value))
                if n.value is not None:
                    c.consts[n.target.id] = n.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = n.value
        return c

    # ------------------------------------------------------------ lookup
    def module(self, short):
        m = self.modules.get(f"{PKG}.{short}") or self.modules.get(short)
        if m is None:
            raise AnalysisBroken(f"module {short} is missing")
        return m

    def func(self, qual):
        """'common.geos:angle_delta' / 'mod:Class.method' / 'mod:Class.prop.setter'."""
        mod, _, rest = qual.partition(":")
        m = self.module(mod)
        parts = rest.split(".")
        if len(parts) == 1:
            f = m.funcs.get(parts[0])
            if f is None:
                r = self.resolve_name(m, parts[0])
                f = r if isinstance(r, Func) else None
        else:
            c = m.classes.get(parts[0])
            if c is None:
                r = self.resolve_name(m, parts[0])
                c = r if isinstance(r, Cls) else None
            if c is None:
                raise AnalysisBroken(f"class {parts[0]} of {mod} is missing")
            if len(parts) == 3 and parts[2] == "setter":
                f = self.find_setter(c, parts[1])
            else:
                f = self.find_method(c, parts[1]) or self.find_getter(c, parts[1])
        if f is None:
            raise AnalysisBroken(f"function {qual} is missing")
        return f

    def cls(self, qual):
        mod, _, name = qual.partition(":")
        c = self.module(mod).classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {qual} is missing")
        return c

    def resolve_name(self, m, name, depth=0):
        """Func | Cls | ('mod', dotted) | ('global', module, ast) | ('ext', dotted) | None"""
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            return ("global", m, m.globals[name])
        imp = m.imports.get(name)
        if imp is None:
            return None
        if imp[0] == "mod":
            return ("mod", imp[1])
        _, mod, nm = imp
        if mod in self.modules and depth < 5:
            r = self.resolve_name(self.modules[mod], nm, depth + 1)
            if r is not None:
                return r
        if f"{mod}.{nm}" in self.modules:
            return ("mod", f"{mod}.{nm}")
        return ("ext", f"{mod}.{nm}")

    def bases(self, c):
        out = []
        for b in c.bases:
            if not b:
                continue
            r = self.resolve_name(c.module, b.split(".")[0]) if "." not in b else None
            if isinstance(r, Cls):
                out.append(r)
        return out

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo = self.bases(x) + todo
        return out

    def subclasses(self, c):
        return [d for m in self.modules.values() for d in m.classes.values() if c in self.mro(d)]

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_getter(self, c, name):
        for k in self.mro(c):
            if name in k.getters:
                return k.getters[name]
            if name in k.methods or name in k.consts and not k.fields:
                return None
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def attr_annotation(self, c, name):
        for k in self.mro(c):
            if name in k.attrs_ann:
                return k.attrs_ann[name], k.module
        return None

    SOLVER = {"flow": 1, "tdm": 1, "odd": 1, "shortage": 1, "site_vars": 1, "sector_vars": 1, "demand_vars": 1, "common_bandwidth": 0, "buffer_var": 0}

    def solver_attrs(self):
        """Attributes holding variables of the solver: name -> container depth."""
        if getattr(self, "_solver", None) is None:
            r = dict(self.SOLVER)

            def depth(v):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "var" and isinstance(v.func.value, ast.Name) and v.func.value.id in ("xp", "xpress"):
                    return 0
                if isinstance(v, ast.DictComp):
                    d = depth(v.value)
                    return None if d is None else d + 1
                if isinstance(v, ast.Dict) and v.values:
                    d = depth(v.values[0])
                    return None if d is None else d + 1
                return None
            for m in self.modules.values():
                if "xpress" not in m.src:
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        d, t = depth(n.value), n.targets[0]
                        if d is None:
                            continue
                        while isinstance(t, ast.Subscript):
                            t, d = t.value, d + 1
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            r[t.attr] = d
            self._solver = r
        return self._solver

    def solver_keys(self, c, name):
        """Kinds of the components of the keys of a table of solver variables, when
        every table assigned to the attribute in the family of the class agrees."""
        memo = self.__dict__.setdefault("_solver_keys", {})
        if (c, name) in memo:
            return memo[c, name]
        fam = [k for m in self.modules.values() for k in m.classes.values() if k in self.mro(c) or c in self.mro(k)]
        found = set()
        for k in fam:
            for f in k.methods.values():
                local = {}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        local.setdefault(n.targets[0].id, []).append(n.value)
                for n in ast.walk(f.node):
                    if not isinstance(n, ast.Assign):
                        continue
                    for t in n.targets:
                        at = t
                        while isinstance(at, ast.Subscript):
                            at = at.value
                        if not (isinstance(at, ast.Attribute) and at.attr == name and isinstance(at.value, ast.Name) and at.value.id == "self"):
                            continue
                        if isinstance(t, ast.Subscript):
                            found.add(("str",) * len(t.slice.elts) if t.value is at and isinstance(t.slice, ast.Tuple) else None)
                            continue
                        v = n.value
                        if isinstance(v, ast.Name) and len(local.get(v.id, ())) == 1:
                            v = local[v.id][0]
                        if isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Dict) and not v.keys:
                            continue
                        if not (isinstance(v, ast.DictComp) and isinstance(v.key, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.key.elts)):
                            found.add(None)
                            continue
                        ints = {g.target.id for g in v.generators if isinstance(g.target, ast.Name) and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "range"}
                        found.add(tuple("float" if isinstance(e, ast.Name) and e.id in ints or isinstance(e, ast.Constant) and isinstance(e.value, int) else "str" for e in v.key.elts))
        memo[c, name] = found.pop() if len(found) == 1 else None
        return memo[c, name]

    def enum_members(self, c):
        return [n for n, v in c.consts.items() if not n.startswith("_")]

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.getters.values()
                yield from c.setters.values()
