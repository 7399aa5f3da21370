"""Typestate of acquired resources: every acquisition is paired with a release on every exit."""
import ast

from checks.c19 import dotted
from vstat.passes import callers_of
from vstat.program import Cls

W = "common.data_io.patterns:DataWorkSpace"
OPENS = {"open", "fdopen", "ZipFile", "TarFile", "Pool", "ThreadPool", "TemporaryDirectory", "NamedTemporaryFile", "TemporaryFile", "SpooledTemporaryFile", "ThreadPoolExecutor",
         "ProcessPoolExecutor", "Popen", "SharedMemory", "urlopen", "Manager", "memmap"}
FINALIZED = {"TemporaryDirectory"}          # removed by their own finalizer at the latest
CLOSERS = {"close", "terminate", "shutdown", "cleanup", "join", "kill", "unlink"}
DIRS = {"mkdtemp", "mkstemp"}
DELETES = {"rmtree", "remove", "unlink", "rmdir", "removedirs", "DeleteDataSource", "rename", "replace", "move", "Delete"}
OWNED = {"get_a_temp_file_path", "get_a_temp_dir", "mkdtemp", "mkstemp", "TemporaryDirectory", "NamedTemporaryFile"}
KEEPS = {"join", "normpath", "abspath", "realpath", "Path", "str", "fspath", "glob", "iglob", "listdir", "walk", "scandir", "sorted", "list", "format", "dirname_", "iterdir", "rglob"}


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None


def parents(node):
    r = {}
    for x in ast.walk(node):
        for c in ast.iter_child_nodes(x):
            r[c] = x
    return r


def calls_on(nodes, text, names):
    """A call of one of the methods on the object written so."""
    return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in names and ast.unparse(c.func.value) == text for b in nodes for c in ast.walk(b))


class Resources:
    def __init__(self, p):
        self.p = p
        self.par = {}
        self.helpers = {}       # functions returning what they opened

    def parents(self, f):
        if f not in self.par:
            self.par[f] = parents(f.node)
        return self.par[f]

    def where(self, f, n):
        return f"{f.module.path}:{n.lineno} ({f.qual})"

    def opened(self, f):
        """Acquiring calls of f's own body."""
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            nm = last(c.func)
            if nm in OPENS:
                d = dotted(c.func) or ""
                if nm == "open" and isinstance(c.func, ast.Attribute) and d.split(".")[0] in ("webbrowser",) or nm in ("Manager",) and "multiprocessing" not in str(f.module.imports.get(d.split(".")[0])):
                    continue
                yield c, nm
            else:
                try:
                    g = self.p.resolve_name(f.module, dotted(c.func)) if dotted(c.func) else None
                except Exception:
                    g = None
                for x in g if isinstance(g, tuple) else (g,):
                    if x is not None and x in self.helpers:
                        yield c, self.helpers[x]

    # ------------------------------------------------------------ releases
    def scopes(self, o):
        n = 0
        todo = True
        while todo:                 # helpers that hand an open resource on
            todo = False
            for f in self.p.all_funcs():
                if f in self.helpers:
                    continue
                for c, nm in self.opened(f):
                    p = self.parents(f).get(c)
                    if isinstance(p, ast.Return) or isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and any(
                            isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == p.targets[0].id for r in ast.walk(f.node)):
                        self.helpers[f] = nm
                        todo = True
        for f in self.p.all_funcs():
            for c, nm in self.opened(f):
                n += 1
                why = self.released(f, c, nm)
                if why:
                    o.bad(f"{nm} is acquired but {why}", self.where(f, c))
        for m in self.p.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.With)):
                    continue
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and last(c.func) in OPENS | DIRS:
                        o.bad(f"{last(c.func)} is acquired when the module is imported and never released", f"{m.path}:{c.lineno}")
        o.measure["acquisitions"] = n

    def released(self, f, c, nm):
        par = self.parents(f)
        x = c
        while x in par and not isinstance(par[x], ast.stmt):
            q = par[x]
            if isinstance(q, ast.withitem) and q.context_expr is x:
                return None
            if isinstance(q, ast.Call) and last(q.func) in ("enter_context", "callback", "finalize"):
                return None
            if isinstance(q, (ast.Lambda,)):
                return None
            x = q
        s = par.get(x)
        if isinstance(s, ast.Return):
            return None if f in self.helpers else "the value returned does not release it"
        if isinstance(s, ast.Assign) and len(s.targets) == 1 or isinstance(s, ast.AnnAssign):
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if s.value is not c and not isinstance(s.value, ast.IfExp):
                return "not released (only what was read from it is kept)"
            if f in self.helpers and isinstance(t, ast.Name):
                return None
            return self.closed(f, s, t, nm)
        return "not released by a with statement or a finally block"

    def closed(self, f, s, t, nm):
        text = ast.unparse(t)
        par = self.parents(f)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ("self", "cls"):
            if nm in FINALIZED or f.cls is not None and any(calls_on([g.node], text, CLOSERS) for g in f.cls.methods.values() if g.name in ("__del__", "__exit__", "close", "__aexit__")):
                return None
            return "kept in an attribute that nothing closes"
        if not isinstance(t, ast.Name):
            return "kept where nothing closes it"
        if nm in FINALIZED:
            return None if not any(isinstance(x, ast.Global) and t.id in x.names for x in ast.walk(f.node)) else "kept in a global"
        for w in ast.walk(f.node):
            if isinstance(w, ast.With) and any(isinstance(y, ast.Name) and y.id == t.id for it in w.items for y in ast.walk(it.context_expr)):
                if self.next_to(f, s, w):
                    return None
            if isinstance(w, ast.Try) and w.finalbody and calls_on(w.finalbody, text, CLOSERS):
                if any(s is y for b in w.body for y in ast.walk(b)) or self.next_to(f, s, w):
                    return None
        if calls_on([f.node], text, CLOSERS):
            return "released only when nothing fails in between"
        return "never released"

    def next_to(self, f, s, w):
        """Nothing can fail between the two statements of one block."""
        for x in ast.walk(f.node):
            for b in ("body", "orelse", "finalbody"):
                ss = getattr(x, b, None)
                if isinstance(ss, list) and s in ss and w in ss:
                    i, j = ss.index(s), ss.index(w)
                    return i < j and not any(isinstance(y, (ast.Call, ast.Subscript, ast.Raise)) for z in ss[i + 1:j] for y in ast.walk(z))
        return False

    # ------------------------------------------------------------ temporary directories
    def tempdirs(self, o):
        n = 0
        for f in self.p.all_funcs():
            for c in ast.walk(f.node):
                if not (isinstance(c, ast.Call) and last(c.func) in DIRS):
                    continue
                n += 1
                s = self.parents(f).get(c)
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and f.cls is not None:
                    why = self.removed_with(f.cls, t.attr)
                elif isinstance(t, ast.Name) and f.cls is not None and self.kept_in(f, t.id):
                    why = self.removed_with(f.cls, self.kept_in(f, t.id))
                elif isinstance(t, ast.Name):
                    why = "removed neither in a finally block nor by a finalizer"
                    for w in ast.walk(f.node):
                        if isinstance(w, ast.Try) and any(isinstance(y, ast.Call) and last(y.func) in ("rmtree", "unlink", "remove") and y.args and t.id in {z.id for z in ast.walk(y.args[0]) if isinstance(z, ast.Name)} for b in w.finalbody for y in ast.walk(b)):
                            if any(s is y for b in w.body for y in ast.walk(b)) or self.next_to(f, s, w):
                                why = None
                        if isinstance(w, ast.Call) and last(w.func) in ("finalize", "callback", "register") and any(isinstance(y, ast.Name) and y.id == t.id for y in ast.walk(w)):
                            why = None
                else:
                    why = "not kept, so it is never removed"
                if why:
                    o.bad(f"temporary directory is {why}", self.where(f, c))
        o.measure["temporary_directories"] = n

    def kept_in(self, f, name):
        """The attribute of self the local name goes into right after it is bound."""
        for x in ast.walk(f.node):
            for b in ("body", "orelse", "finalbody"):
                ss = getattr(x, b, None)
                for u, v in zip(ss, ss[1:]) if isinstance(ss, list) else ():
                    if isinstance(u, (ast.Assign, ast.AnnAssign)) and isinstance(u.targets[0] if isinstance(u, ast.Assign) else u.target, ast.Name) and (u.targets[0] if isinstance(u, ast.Assign) else u.target).id == name:
                        t = v.targets[0] if isinstance(v, ast.Assign) and len(v.targets) == 1 else v.target if isinstance(v, ast.AnnAssign) else None
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and isinstance(v.value, ast.Name) and v.value.id == name:
                            return t.attr
        return None

    def removed_with(self, cls, attr):
        for sub in [cls] + list(self.p.subclasses(cls)):
            g = self.p.find_method(sub, "__del__")
            fin = any(isinstance(c, ast.Call) and last(c.func) == "finalize" and f"self.{attr}" in ast.unparse(c) for h in cls.methods.values() for c in ast.walk(h.node))
            if fin:
                continue
            if g is None:
                return f"not removed when its owner {sub.name} goes away"
            if not self.removes(sub, g, attr, set()):
                return f"not always removed when its owner {sub.name} goes away"
        return None

    def removes(self, cls, g, attr, seen):
        """Every way through g's body removes self.<attr>."""
        if g in seen:
            return False
        seen.add(g)
        return self.block_removes(cls, g, g.node.body, attr, seen)

    def stands_for(self, g, e, attr):
        """e is self.<attr>, or a local name that only ever stands for it."""
        if isinstance(e, ast.Name):
            vs = [a.value for a in ast.walk(g.node) if isinstance(a, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == e.id for t in (a.targets if isinstance(a, ast.Assign) else [a.target]))]
            return len(vs) == 1 and vs[0] is not None and ast.unparse(vs[0]) == f"self.{attr}"
        return ast.unparse(e) == f"self.{attr}"

    def block_removes(self, cls, g, body, attr, seen):
        for s in body:
            if isinstance(s, (ast.Return, ast.Raise)):
                return False
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                c = s.value
                if last(c.func) == "rmtree" and c.args and self.stands_for(g, c.args[0], attr) or last(c.func) == "cleanup":
                    return True
                h = None
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self":
                    h = self.p.find_method(cls, c.func.attr)
                elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) and last(c.func.value.func) == "super" and g.cls is not None:
                    mro = self.p.mro(cls)
                    for k in mro[mro.index(g.cls) + 1:] if g.cls in mro else ():
                        if c.func.attr in k.methods:
                            h = k.methods[c.func.attr]
                            break
                elif isinstance(c.func, ast.Attribute) and dotted(c.func):
                    try:
                        k = self.p.resolve_name(g.module, dotted(c.func.value))
                        h = self.p.find_method(k, c.func.attr) if isinstance(k, Cls) else None
                    except Exception:
                        h = None
                if h is not None and self.removes(cls, h, attr, seen):
                    return True
            if isinstance(s, ast.If):
                if all(self.block_removes(cls, g, b, attr, set(seen)) for b in (s.body, s.orelse)):
                    return True
                t = ast.unparse(s.test)
                if any(k in t for k in ("exists(", "isdir(", "hasattr(", "getattr(")) and f"{attr}" in t and self.block_removes(cls, g, s.body, attr, set(seen)) and not s.orelse and not isinstance(s.test, ast.UnaryOp):
                    return True
                if any(isinstance(x, ast.Return) for b in s.body for x in ast.walk(b)) and not any(k in t for k in ("exists(", "isdir(", "hasattr(", "getattr(")):
                    return False
            if isinstance(s, (ast.With, ast.Try)) and self.block_removes(cls, g, s.body, attr, set(seen)):
                return True
            if isinstance(s, ast.Try) and self.block_removes(cls, g, s.finalbody, attr, set(seen)):
                return True
        return False

    # ------------------------------------------------------------ owners
    def owners(self, o):
        """Objects that remove their directory when they go away are never kept beyond the call that made them."""
        base = self.p.class_by_name.get("DataWorkSpace")
        if base is None:
            o.und("the owner of the temporary directories has moved", W)
            return
        names = {base.name} | {c.name for c in self.p.subclasses(base)}
        n = 0
        for m in self.p.modules.values():
            for s in m.tree.body:
                for st in [s] + ([x for x in s.body] if isinstance(s, ast.ClassDef) else []):
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        for d in (st.args.defaults + st.args.kw_defaults if not isinstance(st, ast.ClassDef) else []):
                            if d is not None and any(isinstance(c, ast.Call) and last(c.func) in names for c in ast.walk(d)):
                                o.bad("a workspace as a default argument is never released", f"{m.path}:{d.lineno}")
                        continue
                    for c in ast.walk(st):
                        if isinstance(c, ast.Call) and last(c.func) in names:
                            o.bad("a workspace made when the module is imported is never released", f"{m.path}:{c.lineno}")
        for f in self.p.all_funcs():
            glob = {x for s in ast.walk(f.node) if isinstance(s, ast.Global) for x in s.names}
            cached = any(last(d.func if isinstance(d, ast.Call) else d) in ("cache", "lru_cache", "cached_property") for d in f.node.decorator_list)
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call) and last(c.func) in names:
                    n += 1
                    s = self.parents(f).get(c)
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
                    if any(isinstance(t, ast.Name) and t.id in glob for t in ts) or any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and (t.value.id == "cls" or t.value.id[:1].isupper()) for t in ts):
                        o.bad("a workspace kept in a global or in a class is never released", self.where(f, c))
                    elif cached:
                        o.bad("a workspace made by a cached function is never released", self.where(f, c))
        o.measure["workspaces"] = n

    # ------------------------------------------------------------ deletions
    def origin(self, f, e, depth=0):
        """'own' when the path was made by this program as temporary, else 'other' or 'unknown'."""
        if depth > 12:
            return "unknown"
        if isinstance(e, ast.Call):
            nm = last(e.func)
            if nm in OWNED:
                return "own"
            if nm == "dirname" and e.args:
                k = self.origin(f, e.args[0], depth + 1)
                return "unknown" if k == "own" else k
            if nm in KEEPS:
                a = e.func.value if nm in ("iterdir", "glob", "rglob") and isinstance(e.func, ast.Attribute) and not (dotted(e.func) or "").startswith(("glob.", "os.")) else e.args[0] if e.args else None
                return "unknown" if a is None else self.origin(f, a, depth + 1)
            try:
                h = self.p.resolve_name(f.module, dotted(e.func)) if dotted(e.func) and not dotted(e.func).startswith("self.") else self.p.find_method(f.cls, e.func.attr) if f.cls is not None and isinstance(e.func, ast.Attribute) else None
            except Exception:
                h = None
            rs = [r.value for r in ast.walk(h.node) if isinstance(r, ast.Return) and r.value is not None] if h is not None and hasattr(h, "node") and isinstance(h.node, ast.FunctionDef) else []
            return self.worst([self.origin(h, r, depth + 1) for r in rs]) if rs else "unknown"
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and f.cls is not None:
                vs = []
                for c in [k for k in self.p.mro(f.cls)] + list(self.p.subclasses(f.cls)):
                    for g in c.methods.values():
                        for s in ast.walk(g.node):
                            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                                vs.append(self.origin(g, s.value, depth + 1))
                if e.attr == "name" and not vs:
                    return self.origin(f, e.value, depth + 1)
                return self.worst(vs) if vs else "unknown"
            if e.attr == "tmp_dir":
                return "own"
            if e.attr in ("name", "path"):
                return self.origin(f, e.value, depth + 1)
            return "other"
        if isinstance(e, ast.BinOp):
            return self.origin(f, e.left, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.worst([self.origin(f, e.body, depth + 1), self.origin(f, e.orelse, depth + 1)])
        if isinstance(e, ast.JoinedStr):
            v = e.values[0] if e.values else None
            return self.origin(f, v.value, depth + 1) if isinstance(v, ast.FormattedValue) else "other"
        if isinstance(e, ast.Subscript):
            return self.origin(f, e.value, depth + 1)
        if isinstance(e, ast.Name):
            vs = []
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(isinstance(y, ast.Name) and y.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for y in (ast.walk(t) if isinstance(t, (ast.Tuple, ast.Name)) else ())):
                    vs.append(self.origin(f, s.value, depth + 1))
                elif isinstance(s, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(s.target)):
                    vs.append(self.origin(f, s.iter, depth + 1))
                elif isinstance(s, ast.withitem) and s.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(s.optional_vars)):
                    vs.append(self.origin(f, s.context_expr, depth + 1))
            a = f.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if e.id in ps and not vs:
                i = ps.index(e.id) - (1 if ps and ps[0] in ("self", "cls") else 0)
                cs = callers_of(self.p, f)
                for g in cs or ():
                    for c in ast.walk(g.node):
                        if isinstance(c, ast.Call) and last(c.func) == f.name:
                            x = c.args[i] if i < len(c.args) else next((k.value for k in c.keywords if k.arg == e.id), None)
                            vs.append("unknown" if x is None else self.origin(g, x, depth + 1))
                if not vs:
                    return "other"
            return self.worst(vs) if vs else "other"
        return "other"

    def worst(self, vs):
        return "other" if "other" in vs else "unknown" if "unknown" in vs or not vs else "own"

    def deletes(self, o):
        n = 0
        for f in self.p.all_funcs():
            for c in ast.walk(f.node):
                if not (isinstance(c, ast.Call) and last(c.func) in DELETES):
                    continue
                nm, d = last(c.func), dotted(c.func) or ""
                if nm in ("remove", "rename", "replace", "move") and d.split(".")[0] not in ("os", "shutil") and f.module.imports.get(d.split(".")[0], ("",))[1:2] not in (("os",), ("shutil",)):
                    continue        # list.remove, str.replace, DataFrame.rename ...
                if nm in ("unlink", "rmdir") and not c.args and isinstance(c.func, ast.Attribute):
                    a = c.func.value
                elif c.args:
                    a = c.args[0]
                else:
                    continue
                n += 1
                k = self.origin(f, a)
                if k == "other":
                    o.bad(f"{nm} of {ast.unparse(a)[:60]}, which is not a temporary file or directory made by the planner", self.where(f, c))
                elif k == "unknown":
                    o.und(f"origin of {ast.unparse(a)[:60]} not known", self.where(f, c))
        o.measure["deletions"] = n

    # ------------------------------------------------------------ logging handlers
    def handlers(self, o):
        n = 0
        for f in self.p.all_funcs():
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call) and last(c.func) in ("FileHandler", "RotatingFileHandler", "TimedRotatingFileHandler"):
                    n += 1
                    s = self.parents(f).get(c)
                    t = s.targets[0].id if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) else None
                    added = isinstance(s, ast.Call) and last(s.func) == "addHandler" or t is not None and any(
                        isinstance(y, ast.Call) and last(y.func) == "addHandler" and any(isinstance(z, ast.Name) and z.id == t for z in ast.walk(y)) for y in ast.walk(f.node))
                    rets = any(isinstance(r, ast.Return) and (r.value is c or isinstance(r.value, ast.Name) and r.value.id == t) for r in ast.walk(f.node))
                    if not added and not rets:
                        o.bad("a log file is opened for a handler that no logger owns", self.where(f, c))
                    elif added and not any(isinstance(y, ast.Call) and last(y.func) == "removeHandler" for y in ast.walk(f.node)) and not any(
                            isinstance(y, ast.Call) and last(y.func) == "removeHandler" for g in callers_of(self.p, f) or () for y in ast.walk(g.node)) and not any(
                            isinstance(y, ast.Call) and last(y.func) == "removeHandler" and h.module is f.module for h in self.p.all_funcs() for y in ast.walk(h.node)):
                        o.bad("a log handler is added without releasing the one it replaces", self.where(f, c))
        o.measure["handlers"] = n


def run(ctx):
    R = Resources(ctx.p)
    ctx.rule("scopes", "every file, archive, pool and temporary directory is acquired in a with statement, released in a finally block, or handed to a caller that does", W, R.scopes)
    ctx.rule("temporary-directories", "every directory made by mkdtemp is removed by its owner when that goes away", W, R.tempdirs)
    ctx.rule("owners", "objects owning a temporary directory do not outlive the call that made them", W, R.owners)
    ctx.rule("deletions", "only temporary paths made by the planner are deleted", W, R.deletes)
    ctx.rule("log-handlers", "a log file is opened only for a handler that a logger owns, after the handlers of before are removed", "common.utils:set_root_logger", R.handlers)
    ctx.query("paths", "temporary paths lie in the workspace's own directory and are handed out once", W + ".get_a_temp_file_path", paths)
    ctx.query("directories", "temporary paths lie in the workspace's own directory and are handed out once", W + ".get_a_temp_dir", paths)


def paths(I, s, o):
    from vstat.terms import leaves
    reads, changed = set(), {e.key for e in s.effects if e.kind == "setattr" and isinstance(e.key, str)}
    changed |= {a for e in s.effects if e.kind in ("mut", "setitem") or e.kind == "call" and "next" in repr(e.target) for a in attrs(e)}
    calls = set()
    for l, _ in leaves(s.ret):
        walk(l, reads, calls)
    where = W
    o.measure["attributes_read"] = len(reads)
    if "tmp_dir" not in reads and not calls & {"mkdtemp", "mkstemp"}:
        (o.und if calls - KEEPS - {"gettempdir", "getcwd", "fstr", "expanduser"} else o.bad)("a temporary path outside the directory that is removed", where)
    if not reads & changed and not calls - {"join", "fstr", "format", "str", "Path", "abspath"}:
        o.bad("the same path can be handed out twice", where)


def attrs(e):
    out = set()
    for v in (e.target, e.key, e.value):
        walk(v, out, set())
    return out


def walk(v, reads, calls, depth=0):
    from vstat.terms import Node, Term, leaves
    if isinstance(v, Node):
        for l, _ in leaves(v):
            walk(l, reads, calls, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            walk(x, reads, calls, depth + 1)
    elif isinstance(v, Term) and depth < 60:
        if v.op == "attr":
            reads.add(v.args[1])
        elif v.op in ("call", "draw") and isinstance(v.args[0], str):
            calls.add(v.args[0].split("(")[0].split(".")[-1])
        for x in v.args:
            walk(x, reads, calls, depth + 1)
