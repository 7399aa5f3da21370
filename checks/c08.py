"""Text that enters a generated KML document, and the styles it refers to."""
import ast
import re
from vstat import terms as T
from vstat.terms import Term, Node, And, leaves

S = "common.data_io.topology_serializer:"
K = "common.data_io.data_key:"
VALUE = K + "BaseDataKey.get_output_name_and_value"
GEO = "common.geos:lat_lon_to_geo_hash"
KEEP = [VALUE, K + "SiteKey.kml_output_keys", K + "LinkKey.kml_output_keys", K + "LinkKey.rf_field", GEO]
ESCAPERS = {"xml.sax.saxutils.escape", "html.escape", "xml.sax.saxutils.quoteattr"}
PLAIN = {"str", "format", ".strip", ".upper", ".lower", ".title", ".capitalize", ".replace", ".rstrip", ".lstrip", "repr", ".casefold"}
HASHES = {"_site_id", "_site_hash", "_demand_id", "_link_id", "_sector_id"}
NUMERIC = {"int", "float", "round", "len", "abs", "max", "min", "sum", "bool"}


def writes(s):
    """Texts written to a stream, in order."""
    return [e for e in s.effects if e.kind == "call" and str(e.target) == "'.write'" and len(e.value.args[0]) > 1]


class Text:
    """Decides, for one text value, where each of its parts comes from."""

    def __init__(self, I):
        self.I = I
        self.bad, self.und, self.seen = {}, {}, set()
        self.count = 0

    def number(self, t):
        ty = self.I.typeof(t)
        if ty is None:
            return False
        if ty[0] == "opt":
            ty = ty[1]
        return ty[0] == "prim" and ty[1] in ("int", "float", "bool")

    def escaped(self, t):
        """Does the value contain text that has been escaped already?"""
        if isinstance(t, Node):
            return any(self.escaped(l) for l, _ in leaves(t))
        if t.op == "fstr":
            return any(self.escaped(x) for x in t.args[0])
        if t.op == "call":
            n = t.args[0] if isinstance(t.args[0], str) else str(t.args[0])
            if n in ESCAPERS:
                return True
            return n in PLAIN and any(self.escaped(a) for a in t.args[1:2])
        if t.op == "idx" and self.is_value(t.args[0]):
            return t.args[1] == T.Const(1) and self.xml(t.args[0]) is True
        return False

    def is_value(self, t):
        return isinstance(t, Term) and t.op == "call" and t.args[0] == VALUE

    def xml(self, t):
        """The xml_output argument of a call of get_output_name_and_value."""
        x = t.args[-1]
        return x.args[0] if isinstance(x, Term) and x.op == "const" else x is T.TRUE if x in (T.TRUE, T.FALSE) else None

    def walk(self, t):
        if isinstance(t, (str, int, float, bool)) or t is None:
            return
        if isinstance(t, Node):
            for l, _ in leaves(t):
                self.walk(l)
            return
        if not isinstance(t, Term) or t in self.seen:
            return
        self.seen.add(t)
        if t.op == "const" or t is T.TRUE or t is T.FALSE:
            return
        if t.op == "fstr":
            for x in t.args[0]:
                self.walk(x)
            return
        if t.op == "fold":
            self.walk(t.args[-1])
            x0 = t.args[0]
            self.walk(x0.args[0] if isinstance(x0, Term) and x0.op == "v" else x0)
            return
        if t.op == "acc0":
            return
        self.count += 1
        if self.number(t) or t.op == "poly":
            return
        if t.op == "comp":
            for _, _, e in t.args[1]:
                self.walk(e)
            return
        if t.op == "tuple":
            for x in t.args[0]:
                self.walk(x)
            return
        if t.op == "nth_sorted":
            for x in t.args[1:]:
                self.walk(x)
            return
        if t.op == "call":
            n = t.args[0]
            if n in ESCAPERS:
                for a in t.args[1:2]:
                    if self.escaped(a):
                        self.bad[t] = "is escaped twice"
                return
            if n == ".getvalue":
                return
            if n == GEO or n in NUMERIC:
                return
            if n in PLAIN:
                for a in t.args[1:]:
                    self.walk(a)
                return
            if n == ".join":
                for a in t.args[1:]:
                    self.walk(a)
                return
            if n == "getattr":
                self.bad[t] = "is written without escaping"
                return
            self.und[t] = "origin of the text is not known"
            return
        if t.op == "key":
            if "demand_sites" in str(t.args[0]):
                return
            if "topology.sites" in str(t.args[0]) or "topology.links" in str(t.args[0]):
                return
            self.und[t] = "origin of the text is not known"
            return
        if t.op == "idx" and self.is_value(t.args[0]):
            if t.args[1] == T.Const(0):
                return
            x = self.xml(t.args[0])
            if x is True:
                return
            if x is False:
                self.bad[t] = "is written without escaping"
            else:
                self.und[t] = "whether the value is escaped is not known"
            return
        if t.op == "attr":
            n = t.args[1]
            if n in HASHES:
                return
            base = self.I.typeof(t.args[0])
            c = base[1] if base is not None and base[0] == "cls" else None
            if n in ("name", "value") and (c is not None and c.is_enum or base is None and t.args[0].op == "idx"):
                return
            if n in ("link_channel", "altitude", "_altitude", "latitude", "longitude", "demand"):
                return
            if n in ("_name", "name", "device_sku", "device", "_device") or self.I.typeof(t) == ("prim", "str"):
                self.bad[t] = "is written without escaping"
                return
            self.und[t] = "origin of the text is not known"
            return
        if t.op in ("sym", "elem"):
            ty = self.I.typeof(t)
            if ty == ("prim", "str"):
                self.bad[t] = "is written without escaping"
                return
        self.und[t] = "origin of the text is not known"


def short(t):
    s = str(t)
    return s if len(s) < 90 else "…" + s[-80:]


def escaping(I, s, o):
    x = Text(I)
    ws = writes(s)
    where = {}
    for e in ws:
        before = set(x.bad) | set(x.und)
        x.walk(e.value.args[0][1])
        for t in (set(x.bad) | set(x.und)) - before:
            where[t] = e.where()
    for t, w in x.bad.items():
        o.bad(f"{short(t)} {w}", where[t])
    for t, w in x.und.items():
        o.und(f"{short(t)}: {w}", where[t])
    o.measure.update({"texts written": len(ws), "values in them": x.count})
    if not ws:
        o.und("no text is written to a stream", S + "write_to_kml_file")


def encoding(I, s, o):
    files = []
    for e in writes(s):
        t = e.value.args[0][0]
        if isinstance(t, Term) and t.op == "call" and t.args[0] == "enter":
            t = t.args[1]
        if isinstance(t, Term) and t.op in ("enter", "with"):
            t = t.args[0]
        if isinstance(t, Term) and t.op == "call" and str(t.args[0]).split("(")[0] in ("open", "io.open", "codecs.open", ".open"):
            files.append((t, e))
    for t, e in files:
        if not any(T.is_const(a) and str(a.args[0]).lower().replace("-", "").replace("_", "") == "utf8" for a in t.args[1:]):
            o.bad("the file is not opened with the encoding the document declares", e.where())
    o.measure = {"files": len(files)}
    if not files:
        o.und("no file that the document is written to was found", S + "write_to_kml_file")


# --- styles


def flat(t):
    """The parts of one text: strings, terms."""
    if isinstance(t, Term) and t.op == "fstr":
        for x in t.args[0]:
            yield from flat(x)
    elif isinstance(t, Term) and t.op == "const":
        yield str(t.args[0])
    elif isinstance(t, (str, int, float)):
        yield str(t)
    else:
        yield t


def texts(t, g):
    """[(parts, guard)] of the alternatives of a text."""
    if isinstance(t, Node):
        for l, f in leaves(t):
            gg = And(g, f)
            if gg is not T.FALSE:
                yield from texts(l, gg)
    else:
        parts = []
        for x in flat(t):
            if isinstance(x, str) and parts and isinstance(parts[-1], str):
                parts[-1] += x
            else:
                parts.append(x)
        yield parts, g


def names(I, t, g):
    """[(string or None, guard)]: what a part of an identifier can be."""
    if isinstance(t, str):
        return [(t, g)]
    if isinstance(t, Node):
        out = []
        for l, f in leaves(t):
            gg = And(g, f)
            if gg is not T.FALSE:
                out += names(I, l, gg)
        return out
    if t.op == "const":
        return [(str(t.args[0]), g)]
    if t.op == "fstr":
        out = [("", g)]
        for x in t.args[0]:
            nxt = []
            for s0, g0 in out:
                for s1, g1 in names(I, x, g0):
                    nxt.append((None if s0 is None or s1 is None else s0 + s1, g1))
            out = nxt
        return out
    if t.op == "attr" and t.args[1] == "name":
        ty = I.typeof(t.args[0])
        if ty is not None and ty[0] == "cls" and ty[1].is_enum:
            out = []
            for m in I.p.enum_members(ty[1]):
                gg = And(g, I.eq(t.args[0], Term("enum", ty[1].name, m)))
                if gg is not T.FALSE:
                    out.append((m, gg))
            return out
    if t.op == "call" and t.args[0] in (".lower", ".upper", ".strip", "str", ".title") and len(t.args) == 2:
        f = {"str": str}.get(t.args[0]) or getattr(str, t.args[0][1:])
        return [(f(x) if isinstance(x, str) else t, gg) for x, gg in names(I, t.args[1], g)]
    return [(t, g)]


def unbounded(I, g, t):
    """Does no condition on the path say anything about the number or about what it is computed from?"""
    if not (isinstance(t, Term) and t.op == "call" and t.args[0] in ("int", "round", "math.floor", "math.ceil")):
        return False
    own = {x for x in T.free(t) if x.op == "attr" and x.args[1] == "demand" and not any(isinstance(k, Term) and k.op in ("key", "elem") and isinstance(k.args[1], str) for k in T.free(x))}
    for v in T.support(g):
        if v.op in ("isnone", "truthy"):
            continue
        inside = T.free(v)
        if t in inside:
            continue
        if own & inside:
            return False
    return True


def flat_texts(I, s):
    """(text alternative, guard, effect) of everything written."""
    for e in writes(s):
        for parts, g in texts(e.value.args[0][1], e.guard):
            yield parts, g, e


def within(I, g, t, ids, prefix):
    """Is the number t, in text that is written when g holds, the number of one of the ids?"""
    nums = sorted(int(i[len(prefix):]) for i in ids if i.startswith(prefix) and i[len(prefix):].isdigit())
    if not nums or nums != list(range(len(nums))):
        return None
    return And(g, I.compare(ast.GtE(), t, T.Const(len(nums)))) is T.FALSE


STYLE = re.compile(r'<Style\s+id\s*=\s*"([^"]*)"')


def styles(I, s, o):
    defined, refs, told = set(), [], set()
    for parts, g, e in flat_texts(I, s):
        for i, x in enumerate(parts):
            if not isinstance(x, str):
                continue
            if g is T.TRUE and not e.loops:
                defined |= set(STYLE.findall(x))
            if re.search(r'<Style\s+id\s*=\s*"[^"]*$', x):
                o.und("a style is defined under a computed id", e.where())
            for m in re.finditer(r"<styleUrl>([^<]*)</styleUrl>", x):
                refs.append(([m.group(1)], g, e))
            m = re.search(r"<styleUrl>([^<]*)$", x)
            if m:
                ref = [m.group(1)]
                for y in parts[i + 1:]:
                    if isinstance(y, str):
                        ref.append(y.split("</styleUrl>")[0])
                        if "</styleUrl>" in y:
                            break
                    else:
                        ref.append(y)
                refs.append((ref, g, e))
    done = set()
    for ref, g, e in refs:
        alts = [([], g)]
        for x in ref:
            nxt = []
            for xs, g0 in alts:
                for y, g1 in names(I, x, g0):
                    nxt.append((xs + [y], g1))
            alts = nxt
        for xs, g1 in alts:
            key = (tuple(xs), g1, e.where())
            if key in done:
                continue
            done.add(key)
            if all(isinstance(x, str) for x in xs):
                u = "".join(xs)
                if (not u.startswith("#") or u[1:] not in defined) and u not in told:
                    told.add(u)
                    o.bad(f"a placemark refers to the style {u!r}, which the document does not define", e.where())
                continue
            merged = []
            for x in xs:
                if isinstance(x, str) and merged and isinstance(merged[-1], str):
                    merged[-1] += x
                elif x != "":
                    merged.append(x)
            xs = merged
            if len(xs) == 2 and isinstance(xs[0], str) and not isinstance(xs[1], str):
                n = T.as_poly(xs[1]) is not None and within(I, g1, xs[1], defined, xs[0][1:])
                if n:
                    continue
                if not n and isinstance(xs[1], Term) and xs[1].op == "call" and xs[1].args[0] == "min" and any(T.is_const(a) and within(I, g1, a, defined, xs[0][1:]) for a in xs[1].args[1:]):
                    continue
                if n is False and unbounded(I, g1, xs[1]):
                    o.bad(f"a placemark refers to the style {xs[0]}<n>, where n can be larger than the numbers of the styles: {short(xs[1])}", e.where())
                    continue
            o.und(f"the style a placemark refers to is not known: {short(ref)}", e.where())
    o.measure.update({"styles defined": len(defined), "references": len(refs), "cases": len(done)})
    if not refs or not defined:
        o.und("no style is defined or none is referred to", S + "write_to_kml_file")


# --- elements

TAG = re.compile(r"<(/?)([A-Za-z][\w:.]*)(?:[^<>]|)*?(/?)>")


def nesting(parts):
    """Elements that a text closes without opening, and opens without closing."""
    text = "".join(x if isinstance(x, str) else "x" for x in parts)
    closed, opened = [], []
    for m in TAG.finditer(text):
        if m.group(3):
            continue
        if m.group(1):
            if opened:
                if opened[-1] != m.group(2):
                    return None
                opened.pop()
            else:
                closed.append(m.group(2))
        else:
            opened.append(m.group(2))
    return closed, opened


def elements(I, s, o):
    total, stack = 0, []
    ws = writes(s)

    def settled(g, g0):
        """g without the conditions on loops that ended early, which g0 does not mention."""
        seen = T.support(g0)
        for v in T.support(g) - seen:
            if v.op == "exists":
                g = T.cof(g, v, v_index(v, False))
        return g

    def same(g, g0):
        return And(g, T.Not(g0)) is T.FALSE and settled(g, g0) is g0

    for e in ws:
        alts = {}
        for parts, g in texts(e.value.args[0][1], e.guard):
            total += 1
            for x in parts:
                if isinstance(x, Node) or isinstance(x, Term) and x.op == "fold":
                    for r in inner(x):
                        if r is None or r != ((), ()):
                            o.bad(f"part of a text leaves elements open: {r}", e.where())
            n = nesting(parts)
            alts[None if n is None else (tuple(n[0]), tuple(n[1]))] = parts
        if None in alts:
            o.bad("elements are closed in another order than they were opened", e.where())
            return
        if len(alts) != 1:
            o.und(f"what is opened depends on a condition: {sorted(alts)}", e.where())
            return
        (closed, opened), = alts
        for c in closed:
            if not stack or stack[-1][0] != c or stack[-1][1].loops != e.loops:
                o.bad(f"</{c}> closes " + (f"<{stack[-1][0]}>, opened at {stack[-1][1].where()}" if stack else "an element that was never opened"), e.where())
                return
            if not same(e.guard, stack[-1][1].guard):
                o.bad(f"</{c}> is written under another condition than the element it closes, opened at {stack[-1][1].where()}", e.where())
                return
            stack.pop()
        stack += [(x, e) for x in opened]
    for x, e in stack:
        o.bad(f"<{x}> is not closed", e.where())
    o.measure.update({"texts": total})


def v_index(v, val):
    return list(T.domain(v)).index(val)


def inner(t):
    """Nesting of the alternatives of a part of a text."""
    if isinstance(t, Node):
        for l, _ in leaves(t):
            yield from inner(l)
    elif isinstance(t, Term) and t.op == "fold":
        x0 = t.args[0]
        yield from inner(x0.args[0] if isinstance(x0, Term) and x0.op == "v" else x0)
        yield from inner(t.args[-1])
    elif isinstance(t, Term) and t.op in ("fstr", "const"):
        for parts, _ in texts(t, T.TRUE):
            for x in parts:
                if not isinstance(x, str):
                    yield from inner(x)
            n = nesting(parts)
            yield n if n is None else (tuple(n[0]), tuple(n[1]))
    else:
        yield (), ()


def labels(ctx, o):
    """Names under which attributes are written."""
    n = 0
    for cn in ("SiteKey", "LinkKey", "SectorKey"):
        c = ctx.p.cls(K + cn)
        for m in ctx.p.enum_members(c):
            v = c.consts[m]
            args = getattr(v, "args", None)
            if not args or len(args) < 2:
                o.und(f"{cn}.{m} is not a pair of names", K + cn)
                continue
            try:
                name = ast.literal_eval(args[1])
            except ValueError:
                o.und(f"the name of {cn}.{m} is computed", K + cn)
                continue
            n += 1
            if set(name) & set('<>&"'):
                o.bad(f"{cn}.{m} is written under the name {name!r}, which is markup", K + cn)
    o.measure = {"names": n}


def run(ctx):
    q = S + "write_to_kml_file"
    ctx.query("escaped", "every value that enters the document is a constant, a number, the name of a type or status, a hash, or escaped once", q, escaping, keep=KEEP)
    ctx.query("styles", "every style a placemark refers to is defined in the document, for every type and status", q, styles, keep=KEEP)
    ctx.query("elements", "every element that is opened is closed, under the same condition", q, elements, keep=KEEP)
    ctx.query("encoding", "the document is written in the encoding it declares", q, encoding, keep=KEEP)
    ctx.equiv(VALUE, "c08:value", keep=[], what="values of attributes are escaped in XML output")
    ctx.rule("labels", "names of attributes contain no markup", K + "BaseDataKey", lambda o: labels(ctx, o))
