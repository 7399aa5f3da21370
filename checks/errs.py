"""How errors leave the code: what handlers do with what they catch, what is raised, and which
reads of input files happen outside any handler that turns their errors into planner exceptions."""
import ast
from vstat.program import Cls, Func, _dotted
from vstat.passes import callers_of, reached_only_from

ROOT = "PlannerException"
# handlers that recover: reason given in DESIGN.md
RECOVER = {
    "common.data_io.kml_library:_to_float": "a confidence that is not a number is no confidence",
    "optimization.ilp_models.cost_optimization:MinCostNetwork.solve": "the model is rebuilt from scratch",
    "optimization.ilp_models.interference_optimization:MinInterferenceNetwork.solve": "the model is rebuilt from scratch",
}
READS = {"open", "read_csv", "ZipFile", "Open", "Warp", "Translate", "safe_load", "load", "loads", "reader", "read_excel", "read_json", "read_table", "extractall", "GetGeometryRef", "loadtxt", "genfromtxt"}
# what a read can raise for a bad file, beyond a file that is not there
NEEDS = {"safe_load": {"YAMLError"}, ("load", "json"): {"JSONDecodeError"}, ("load", "yaml"): {"YAMLError"}, "read_csv": {"Exception"}, "ZipFile": {"OSError", "BadZipFile"},
         "Open": {"Exception"}, "Warp": {"Exception"}, "Translate": {"Exception"}, "reader": {"Exception"}, "GetGeometryRef": {"Exception"}}
OWN_READS = {"TEMPLATE_YAML_FILE_PATH"}


class Errors:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    # ------------------------------------------------------------ exceptions
    def exc_class(self, f, e, assigned=None):
        """'planner' / 'abstract' / dotted name of another exception / None when not known."""
        if isinstance(e, ast.Call):
            r = self.exc_class(f, e.func, assigned)
            if r is not None:
                return r
            g = self.resolve_func(f, e.func)
            if g is not None:       # a helper that builds the exception
                rs = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Return) and x.value is not None]
                ks = {self.exc_class(g, x) for x in rs}
                return ks.pop() if len(ks) == 1 else None
            return None
        nm = _dotted(e)
        if nm is None:
            if isinstance(e, ast.IfExp):
                ks = {self.exc_class(f, x, assigned) for x in (e.body, e.orelse)}
                return ks.pop() if len(ks) == 1 else None
            return None
        c = self.resolve_cls(f, nm)
        if c is not None:
            return "planner" if any(b.name == ROOT for b in self.p.mro(c)) else c.name
        import builtins
        b = getattr(builtins, nm, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return "abstract" if nm == "NotImplementedError" else nm
        if isinstance(e, ast.Name):
            vs = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            ks = {self.exc_class(f, v) for v in vs}
            if len(ks) == 1:
                return ks.pop()
            a = f.node.args
            for q in a.posonlyargs + a.args + a.kwonlyargs:
                if q.arg == e.id and q.annotation is not None:
                    ann = q.annotation
                    if isinstance(ann, ast.Subscript):
                        ann = ann.slice
                    return self.exc_class(f, ann) if _dotted(ann) else None
        return None

    def resolve_cls(self, f, nm):
        try:
            r = self.p.resolve_name(f.module, nm)
        except Exception:
            return None
        if isinstance(r, tuple):
            r = next((x for x in r if isinstance(x, Cls)), None)
        return r if isinstance(r, Cls) else None

    def resolve_func(self, f, e):
        nm = _dotted(e)
        if nm is None:
            return None
        if nm.startswith(("self.", "cls.")) and f.cls is not None and nm.count(".") == 1:
            return self.p.find_method(f.cls, nm.split(".")[1])
        try:
            r = self.p.resolve_name(f.module, nm)
        except Exception:
            return None
        if isinstance(r, tuple):
            r = next((x for x in r if isinstance(x, Func)), None)
        return r if isinstance(r, Func) else None

    # ------------------------------------------------------- how a block ends
    def ends(self, f, body, caught=None):
        """How a list of statements leaves: a subset of {'planner', 'reraise', 'other:<name>', 'unknown',
        'recorded', 'return', 'falls'}."""
        out = set()
        for s in body:
            r = self.ends1(f, s, caught)
            out |= r - {"falls"}
            if "falls" not in r:
                return out
        return out | {"falls"}

    def ends1(self, f, s, caught):
        if isinstance(s, ast.Raise):
            if s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == caught:
                return {"reraise"}
            k = self.exc_class(f, s.exc)
            return {"planner" if k == "planner" else "unknown" if k is None else "other:" + k}
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            return self.call_ends(f, s.value)
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Call):
                r = self.call_ends(f, s.value)
                if "falls" not in r:
                    return r
            if s.value is not None and self.mentions(f, s.value):
                return {"recorded"}
            return {"return"}
        if isinstance(s, (ast.Continue, ast.Break)):
            return {"return"}
        if isinstance(s, ast.If):
            return self.ends(f, s.body, caught) | self.ends(f, s.orelse, caught)
        if isinstance(s, ast.With):
            return self.ends(f, s.body, caught)
        if isinstance(s, ast.Try):
            r = self.ends(f, s.body, caught)
            for h in s.handlers:
                r |= self.ends(f, h.body, h.name)
            fin = self.ends(f, s.finalbody, caught)
            return fin if "falls" not in fin else r
        if isinstance(s, ast.AugAssign) and self.mentions(f, s.value):
            return {"recorded", "falls"}
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return {"other:AssertionError"}
        return {"falls"}

    def mentions(self, f, e):
        """The expression holds a new exception of the planner, directly or through a local name."""
        names = self.memo.get(("names", f))
        if names is None:
            names = self.memo["names", f] = set()
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(self.exc_class(f, x) == "planner" for x in ast.walk(s.value) if isinstance(x, ast.Call)):
                    names.update(t.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name))
        return any(isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Call) and self.exc_class(f, x) == "planner" for x in ast.walk(e))

    def call_ends(self, f, c):
        nm = (_dotted(c.func) or "").split(".")[-1]
        if nm == "planner_assert" and c.args and isinstance(c.args[0], ast.Constant) and not c.args[0].value:
            e = c.args[2] if len(c.args) > 2 else next((k.value for k in c.keywords if k.arg == "exception_type"), None)
            if e is None:
                return {"planner"}
            k = self.exc_class(f, e)
            return {"planner" if k == "planner" else "unknown" if k is None else "other:" + k}
        if nm in ("append", "add", "extend") and isinstance(c.func, ast.Attribute) and any(self.mentions(f, a) or any(self.exc_class(f, x) == "planner" for x in ast.walk(a) if isinstance(x, ast.Name)) for a in c.args):
            return {"recorded", "falls"}
        g = self.resolve_func(f, c.func)
        if g is not None and g is not f:
            if g not in self.memo:
                self.memo[g] = {"falls"}
                r = self.ends(g, g.node.body)
                self.memo[g] = r
            r = self.memo[g]
            if "falls" not in r and "return" not in r and r:
                return r
        return {"falls"}

    def calls_of(self, name):
        if not hasattr(self, "_calls"):
            self._calls = {}
            for g in self.p.all_funcs():
                for c, gs in guarded_calls(g.node):
                    nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                    self._calls.setdefault(nm, []).append((g, gs))
        return self._calls.get(name, ())

    # ----------------------------------------------------------------- rules
    def handlers(self, o):
        n = 0
        for f in self.p.all_funcs():
            for t, after in tries(f.node):
                for h in t.handlers:
                    n += 1
                    r = self.ends(f, h.body, h.name)
                    if "falls" in r:      # what follows the try
                        nx = self.ends(f, list(t.finalbody) + after)
                        if "falls" not in nx and "return" not in nx and not (h.body and after == []):
                            r = (r - {"falls"}) | nx
                    where = f"{f.module.path}:{h.lineno} ({f.qual})"
                    if any(x.startswith("other:") for x in r):
                        o.bad(f"handler raises {sorted(x[6:] for x in r if x.startswith('other:'))[0]}, which is not an exception of the planner", where)
                        continue
                    lost = {"return", "falls"} & r
                    if "recorded" in r and "return" not in r:
                        lost = set()
                    if lost:
                        if any(f.qual == q or reached_only_from(self.p, f, {q}) for q in RECOVER):
                            continue
                        if self.named(h) <= {"ImportError", "ModuleNotFoundError", "StopIteration"} and self.named(h):
                            continue
                        why = self.lookup_only(f, t, h)
                        if why:
                            continue
                        o.bad(f"an error caught as {ast.unparse(h.type) if h.type else 'anything'} is swallowed: the handler can end without raising or recording an exception of the planner", where)
                    elif "unknown" in r:
                        o.und("exception raised by a handler not recognised", where)
        o.measure["handlers"] = n

    def named(self, h):
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
        return {(_dotted(t) or "?").split(".")[-1] for t in ts}

    def lookup_only(self, f, t, h):
        """A KeyError/IndexError/StopIteration handler around lookups in the program's own containers is a
        way to write a conditional, provided nothing in the body reads input or parses text."""
        if not self.named(h) or not self.named(h) <= {"KeyError", "IndexError", "StopIteration", "AttributeError"}:
            return False
        for b in t.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call):
                    nm = (_dotted(x.func) or "").split(".")[-1]
                    if nm in READS or nm in ("float", "int", "from_dict", "from_string", "strptime"):
                        return False
        return "data_io" not in f.module.short and "configuration" not in f.module.short

    def raises(self, o):
        n = 0
        for f in self.p.all_funcs():
            hs = {h.name for h in ast.walk(f.node) if isinstance(h, ast.ExceptHandler) and h.name}
            for s in ast.walk(f.node):
                if isinstance(s, ast.Raise):
                    n += 1
                    if s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id in hs:
                        continue
                    k = self.exc_class(f, s.exc)
                    where = f"{f.module.path}:{s.lineno} ({f.qual})"
                    if k is None:
                        o.und(f"exception not recognised: {ast.unparse(s.exc)[:80]}", where)
                    elif k == "abstract":
                        if f.cls is None or not any(_dotted(d) and _dotted(d).endswith("abstractmethod") for d in f.node.decorator_list) and not any(self.p.find_method(c, f.name) is not f for c in self.p.subclasses(f.cls)):
                            o.bad("raises NotImplementedError outside an abstract method", where)
                    elif k != "planner":
                        o.bad(f"raises {k}, which is not an exception of the planner", where)
                elif isinstance(s, ast.Call) and (_dotted(s.func) or "").split(".")[-1] == "planner_assert":
                    n += 1
                    e = s.args[2] if len(s.args) > 2 else next((k.value for k in s.keywords if k.arg == "exception_type"), None)
                    k = "planner" if e is None else self.exc_class(f, e)
                    where = f"{f.module.path}:{s.lineno} ({f.qual})"
                    if k is None:
                        o.und(f"exception type not recognised: {ast.unparse(e)[:80]}", where)
                    elif k != "planner":
                        o.bad(f"asserts with {k}, which is not an exception of the planner", where)
        o.measure["raise_sites"] = n

    def reads(self, o):
        """Calls that read an input file happen inside a try that turns errors into planner exceptions, in
        the function or in every caller of it."""
        n = 0
        for f in self.p.all_funcs():
            if not f.module.short.startswith(("common.data_io", "common.configuration", "los", "optimization", "common.rf")):
                continue
            for c, guards in guarded_calls(f.node):
                nm = (_dotted(c.func) or (c.func.attr if isinstance(c.func, ast.Attribute) else "")).split(".")[-1]
                if nm not in READS or nm == "GetGeometryRef" and "data_io" not in f.module.short:
                    continue
                if nm == "load" and not (_dotted(c.func) or "").startswith(("json", "yaml", "np.", "numpy", "pickle", "toml")):
                    continue
                if nm == "loads" and not (_dotted(c.func) or "").startswith(("json", "wkt")):
                    continue
                if "los." in f.module.short + "." and nm == "loads":
                    continue       # text the program wrote itself (exclusion zones of a worker)
                if nm in ("open", "ZipFile") and writes(c, f.module):
                    continue
                if any(isinstance(x, (ast.Name, ast.Attribute)) and (_dotted(x) or "").split(".")[-1] in OWN_READS for x in ast.walk(c)):
                    continue
                if own_handle(f.node, c):
                    continue
                n += 1
                got = self.caught(f, guards, set())
                if "ValueError" in got:
                    got.add("JSONDecodeError")
                if "OSError" in got or "IOError" in got:
                    got |= {"OSError", "FileNotFoundError"}
                if not got:
                    o.bad(f"{ast.unparse(c)[:90]} reads input outside any handler that turns its errors into planner exceptions", f"{f.module.path}:{c.lineno} ({f.qual})")
                elif "Exception" not in got:
                    need = NEEDS.get((nm, (_dotted(c.func) or "").split(".")[0]), NEEDS.get(nm, set()))
                    if not need <= got:
                        o.bad(f"{ast.unparse(c)[:90]} can fail with {sorted(need - got)[0]}, which no handler turns into an exception of the planner", f"{f.module.path}:{c.lineno} ({f.qual})")
        o.measure["reads"] = n

    def config(self, o):
        """Objects are built from a config file under handlers for whatever an unexpected value can raise."""
        need = {"KeyError", "AttributeError", "TypeError", "ValueError"}
        n = 0
        for f in self.p.all_funcs():
            if f.module.short != "common.configuration.utils":
                continue
            for c, gs in guarded_calls(f.node):
                nm = (c.func.attr if isinstance(c.func, ast.Attribute) else _dotted(c.func) or "")
                if nm in ("from_dict", "_load_dict_from_file"):
                    n += 1
                    got = self.caught(f, gs, set())
                    if not ("Exception" in got or need <= got):
                        o.bad(f"{ast.unparse(c)[:80]} can raise {sorted(need - got)[0]} for an unexpected value, and nothing reports it as an exception of the planner", f"{f.module.path}:{c.lineno} ({f.qual})")
        o.measure["sites"] = n

    def caught(self, f, gs, seen):
        got = set()
        for t in gs:
            for h in t.handlers:
                if self.ends(f, h.body, h.name) <= {"planner", "unknown"}:
                    got |= self.named(h) if h.type is not None else {"Exception"}
        if f not in seen and not f.name.startswith("__"):
            sites = []
            for g, gs2 in self.calls_of(f.name):
                if g is not f and (f.cls is not None or g.module is f.module or f.name not in g.module.funcs):
                    sites.append(self.caught(g, gs2, seen | {f}))
                    if not sites[-1]:
                        break
            if sites:
                got |= set.intersection(*sites)
        if "BaseException" in got:
            got.add("Exception")
        if "LookupError" in got:
            got |= {"KeyError", "IndexError"}
        return got

    # ------------------------------------------------ calls moved out of a try
    def inside(self, o, f, spec):
        """A call the reference makes inside a try is not made outside of it here."""
        def names(fn, rf):
            ins, outs = {}, {}
            seen = set()

            def walk(g, node, base):
                for c, gs in guarded_calls(node):
                    nm = (_dotted(c.func) or (c.func.attr if isinstance(c.func, ast.Attribute) else "")).split(".")[-1]
                    inn = base or bool(gs)
                    (ins if inn else outs).setdefault(nm, []).append(c)
                    h = self.resolve_func(g, c.func) if rf else None
                    if h is not None and h.name.startswith("_") and not h.name.startswith("__") and (h, inn) not in seen:
                        seen.add((h, inn))
                        walk(h, h.node, inn)
            walk(rf, fn, False)
            return ins, outs
        si, so = names(spec, None)
        ri, ro = names(f.node, f)
        n = 0
        for nm in si:
            if nm in SAFE or not nm:
                continue
            n += 1
            if len(ro.get(nm, ())) > len(so.get(nm, ())) and len(ri.get(nm, ())) < len(si[nm]):
                c = ro[nm][0]
                o.bad(f"{ast.unparse(c)[:90]} is called outside the try that reports its errors", f"{f.module.path}:{c.lineno} ({f.qual})")
        o.measure["calls in try"] = n


SAFE = {"append", "len", "isinstance", "range", "str", "format", "add", "casefold", "upper", "lower", "planner_assert", "DataException", "ConfigException", "info", "warning", "debug", "error", "any", "all", "next", "names", "enumerate", "items", "keys", "list", "dict", "set", "sorted"}


def writes(c, module):
    m = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == "mode"), None)
    if isinstance(m, ast.Name):
        m = module.globals.get(m.id)
    return isinstance(m, ast.Constant) and isinstance(m.value, str) and m.value[:1] in "wax"


def own_handle(fn, c):
    """yaml.safe_load(f) / json.load(f) of a file of the package itself."""
    if not c.args or not isinstance(c.args[0], ast.Name):
        return False
    for w in ast.walk(fn):
        if isinstance(w, ast.With):
            for i in w.items:
                if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == c.args[0].id and any(isinstance(x, (ast.Name, ast.Attribute)) and (_dotted(x) or "").split(".")[-1] in OWN_READS for x in ast.walk(i.context_expr)):
                    return True
    return False


def tries(fn):
    """(try statement, statements that follow it in its block)."""
    for n in ast.walk(fn):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, ast.Try):
                        yield s, b[i + 1:]
        if isinstance(n, ast.Try):
            for h in n.handlers:
                for i, s in enumerate(h.body):
                    if isinstance(s, ast.Try):
                        yield s, h.body[i + 1:]


def guarded_calls(fn):
    """(call, the tries whose body it is in)."""
    out = []

    def go(n, gs):
        if isinstance(n, ast.Call):
            out.append((n, gs))
        if isinstance(n, ast.Try):
            for b in n.body:
                go(b, gs + [n])
            for x in n.handlers + n.orelse + n.finalbody:
                go(x, gs)
            return
        for c in ast.iter_child_nodes(n):
            go(c, gs)
    for s in fn.body:
        go(s, [])
    return out
