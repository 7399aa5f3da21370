"""What the planner writes to KML and CSV is what its readers look for."""
import ast
import re
from vstat import terms as T
from vstat.terms import Term, Node, And, Not, leaves
from . import areas
from .c08 import K, KEEP, S, VALUE, ESCAPERS, short, texts, writes

# internal path, output name and the input names of the attributes that appear in output files
NAMES = {
    "SiteKey": {
        "LATITUDE": ("latitude", "Lat"), "LONGITUDE": ("longitude", "Lon"), "ALTITUDE": ("altitude", "Altitude"), "NAME": ("name", "Site Name"),
        "SITE_TYPE": ("site_type", "Site Type"), "DEVICE_SKU": ("device.device_sku", "Device SKU"), "NUMBER_OF_SUBSCRIBERS": ("number_of_subscribers", "Number of Subscribers"),
        "BUILDING_ID": ("building_id", "Building Id"), "LOCATION_TYPE": ("location_type", "Location Type"), "STATUS_TYPE": ("status_type", "Status"),
        "SITE_GEOHASH": ("site_hash", "Site Geohash"), "POLARITY": ("polarity", "Polarity"), "BREAKDOWNS": ("breakdowns", "Outages Caused"),
    },
    "LinkKey": {
        "TX_SITE_NAME": ("tx_site.name", "Tx Site Name"), "RX_SITE_NAME": ("rx_site.name", "Rx Site Name"), "CONFIDENCE_LEVEL": ("confidence_level", "Confidence Level"),
        "LINK_TYPE": ("link_type", "Link Type"), "STATUS_TYPE": ("status_type", "Status"), "DISTANCE": ("distance", "Distance"), "PROPOSED_FLOW": ("proposed_flow", "Data Flow (Gbps)"),
        "CAPACITY": ("capacity", "Throughput (Gbps)"), "CAPACITY_UTILIZED": ("utilization", "Utilization"), "TX_BEAM_AZIMUTH": ("tx_beam_azimuth", "Tx Beam Azimuth"),
        "RX_BEAM_AZIMUTH": ("rx_beam_azimuth", "Rx Beam Azimuth"), "TX_DEV": ("tx_dev", "Deviation from Tx Boresight"), "RX_DEV": ("rx_dev", "Deviation from Rx Boresight"),
        "EL_DEV": ("el_dev", "Deviation from El Boresight"), "TX_POWER": ("tx_power", "Tx Power (dBm)"), "MCS": ("mcs_level", "Estimated MCS"), "SNR": ("snr_dbm", "Estimated SNR (dB)"),
        "SINR": ("sinr_dbm", "Estimated SINR (dB)"), "RSL": ("rsl_dbm", "Estimated RSL"), "BREAKDOWNS": ("breakdowns", "Outages Caused"), "LINK_GEOHASH": ("link_hash", "Link Geohash"),
    },
    "SectorKey": {
        "SECTOR_ID": ("sector_id", "Sector ID"), "NODE_ID": ("node_id", "Node ID"), "SECTOR_POSITION": ("position_in_node", "Sector Position"), "SITE_GEOHASH": ("site.site_hash", "Site Geohash"),
        "STATUS_TYPE": ("status_type", "Status"), "AZIMUTH_ORIENTATION": ("ant_azimuth", "Azimuth Orientation"), "POLARITY": ("site.polarity", "Polarity"), "SITE_TYPE": ("site.site_type", "Site Type"),
    },
}
MODELS = {"SiteKey": "common.topology_models.site:Site", "LinkKey": "common.topology_models.link:Link", "SectorKey": "common.topology_models.sector:Sector"}
# attributes the KML reader looks for, which the writer must not leave out
READ = {"site": ("SiteKey", ["SITE_TYPE", "ALTITUDE", "STATUS_TYPE", "LOCATION_TYPE", "DEVICE_SKU", "NUMBER_OF_SUBSCRIBERS"]), "link": ("LinkKey", ["LINK_TYPE", "TX_SITE_NAME", "RX_SITE_NAME", "STATUS_TYPE", "CONFIDENCE_LEVEL"])}
# attributes shown in a form of their own
SHOWN = {("LinkKey", "CHANNEL"), ("LinkKey", "TX_BEAM_AZIMUTH"), ("LinkKey", "RX_BEAM_AZIMUTH")}


def entries(ctx, cn, o):
    """{key: (internal path, output name, input names or None)}"""
    out = {}
    c = ctx.p.cls(K + cn)
    for m in ctx.p.enum_members(c):
        v = c.consts[m]
        if not isinstance(v, ast.Call):
            o.und(f"{cn}.{m} is not written as a literal", K + cn)
            continue
        fields = ["internal_name", "output_name", "possible_input_names"]
        try:
            d = {f: ast.literal_eval(a) for f, a in zip(fields, v.args)}
            d.update({k.arg: ast.literal_eval(k.value) for k in v.keywords})
            out[m] = (d["internal_name"], d["output_name"], d.get("possible_input_names"))
        except (ValueError, KeyError):
            o.und(f"the names of {cn}.{m} are computed", K + cn)
    return out


def has_attr(p, c, name):
    for k in p.mro(c):
        if name in k.getters or name in k.methods or name in k.consts:
            return True
        if p.attr_annotation(k, name) is not None:
            return True
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    return True
    return False


def resolves(ctx, c, path):
    """Name of the first part of the path that the class does not have."""
    for part in path.split("."):
        if c is None:
            return None
        if not has_attr(ctx.p, c, part):
            return part
        ty = ctx.p.attr_annotation(c, part)
        c = None
        if isinstance(ty, tuple) and ty and ty[0] == "cls":
            c = ty[1]
    return None


def table(ctx, o):
    n = 0
    for cn, want in NAMES.items():
        have = entries(ctx, cn, o)
        for m, (path, name) in want.items():
            if m not in have:
                o.und(f"{cn}.{m} does not exist", K + cn)
                continue
            n += 1
            got = have[m]
            bad = resolves(ctx, ctx.p.cls(MODELS[cn]), got[0]) if got[0] else None
            if got[0] != path:
                if got[0] == "" or bad:
                    o.bad(f"{cn}.{m} ({got[1]!r}) is read from {got[0]!r}, which {MODELS[cn].split(':')[1]} does not have", K + cn)
                elif any(got[0] == q for k, (q, _) in want.items() if k != m):
                    o.bad(f"{cn}.{m} ({got[1]!r}) is computed from {got[0]!r} instead of {path!r}", K + cn)
                else:
                    o.und(f"{cn}.{m} ({got[1]!r}) is computed from {got[0]!r} instead of {path!r}", K + cn)
            elif bad:
                o.bad(f"{cn}.{m}: {MODELS[cn].split(':')[1]} has no attribute {bad!r}", K + cn)
            if got[2] is not None:
                alias = {got[1].casefold(), got[1].casefold().replace(" ", "_")}
                names = {x.casefold() for x in got[2]}
                if m in sum((READ[k][1] for k in READ if READ[k][0] == cn), []) and got[1].casefold().replace(" ", "_") not in names:
                    o.bad(f"{cn}.{m} is written as {got[1]!r}, which its reader does not recognise", K + cn)
                for k2, g2 in have.items():
                    if k2 != m and g2[2] is not None and alias & {x.casefold() for x in g2[2]}:
                        o.bad(f"{cn}.{m} is written as {got[1]!r}, which is read as {cn}.{k2}", K + cn)
        seen = {}
        for m, g in have.items():
            if g[1] in seen:
                o.bad(f"{cn}.{m} and {cn}.{seen[g[1]]} are written under the same name {g[1]!r}", K + cn)
            seen[g[1]] = m
    o.measure = {"attributes": n}


# --- placemarks


def between(parts, tag):
    """Contents of the first element of this name, as parts."""
    out, on = [], False
    for x in parts:
        if not isinstance(x, str):
            if on:
                out.append(x)
            continue
        s = x
        if not on:
            m = re.search(rf"<{tag}(?:\s[^<>]*)?>", s)
            if not m:
                continue
            s, on = s[m.end():], True
        i = s.find(f"</{tag}>")
        if i >= 0:
            out.append(s[:i])
            return [y for y in out if y != ""]
        out.append(s)
    return None


def tokens(parts):
    """Coordinates: a list of positions, each a list of values."""
    out, cur, val = [], [], []
    for x in parts:
        if not isinstance(x, str):
            val.append(x)
            continue
        for y in re.findall(r"\s+|,|[^\s,]+", x):
            if y == ",":
                cur.append(val)
                val = []
            elif y.isspace():
                if val or cur:
                    cur.append(val)
                    out.append(cur)
                    cur, val = [], []
            else:
                val.append(y)
    if val or cur:
        out.append(cur + [val])
    return out


def attr_of(t):
    """(object, attribute) with the location of a site taken as part of the site."""
    if not isinstance(t, Term) or t.op != "attr":
        return None, None
    b, n = t.args[0], t.args[1]
    if isinstance(b, Term) and b.op == "attr" and b.args[1] in ("_location", "location"):
        b = b.args[0]
    return b, n.lstrip("_")


def alternatives(I, t, g):
    """(parts, guard, loops) of the pieces a repeated text consists of."""
    if isinstance(t, Node):
        for l, f in leaves(t):
            gg = And(g, f)
            if gg is not T.FALSE:
                yield from alternatives(I, l, gg)
    elif t.op == "fold":
        lts, gg, v = t.args[1], t.args[2], t.args[3]
        for parts, f in texts(v, gg):
            parts = [x for x in parts if not (isinstance(x, Term) and x.op == "acc0")]
            yield parts, f, lts
    elif t.op == "call" and t.args[0] == ".join":
        for c in t.args[2:]:
            if isinstance(c, Term) and c.op == "comp":
                for lts, gg, e in c.args[1]:
                    for parts, f in texts(e, gg):
                        yield parts, f, lts


def value_of(t, keys):
    """The key, object and component of a call of get_output_name_and_value in t."""
    while isinstance(t, Term) and t.op == "call" and t.args[0] in ("str", "format"):
        t = t.args[1]
    if isinstance(t, Term) and t.op == "idx" and isinstance(t.args[0], Term) and t.args[0].op == "call" and t.args[0].args[0] == VALUE:
        c = t.args[0]
        return c.args[1], c.args[2], t.args[1].args[0]
    return None


class Marks:
    def __init__(self, I, s, o, p):
        self.I, self.s, self.o, self.p = I, s, o, p
        self.n = {"site": 0, "link": 0}
        self.fields = 0
        self.told = set()
        self.domains = {"site": [], "link": []}

    def bad(self, what, e):
        if (what, e.where()) not in self.told:
            self.told.add((what, e.where()))
            self.o.bad(what, e.where())

    def und(self, what, e):
        if (what, e.where()) not in self.told:
            self.told.add((what, e.where()))
            self.o.und(what, e.where())

    def run(self):
        for e in writes(self.s):
            t = e.value.args[0][1]
            if not e.loops:
                continue
            for parts, g in texts(t, e.guard):
                flat = "".join(x for x in parts if isinstance(x, str))
                if "<Placemark>" not in flat or "demand_site" in flat or "demand_links" in flat:
                    continue
                kind = "site" if "<Point>" in flat else "link" if "<LineString>" in flat else None
                if kind is None:
                    self.bad("a placemark has neither a point nor a line", e)
                    continue
                for v in T.support(g):
                    if v.op == "isnone":
                        g = And(g, Not(And(self.I.isnone(v.args[0]), self.I.truth(v.args[0]))))
                if g is T.FALSE:
                    continue
                self.n[kind] += 1
                self.placemark(kind, parts, g, e)
        for kind in self.n:
            if not self.n[kind]:
                self.o.und(f"no placemark of a {kind} was found", S + "write_to_kml_file")
            elif self.domains[kind]:
                self.complete(kind)

    def placemark(self, kind, parts, g, e):
        coords = between(parts, "coordinates")
        if coords is None:
            self.bad("a placemark has no coordinates", e)
            return
        pos = tokens(coords)
        want = [None] if kind == "site" else ["tx_site", "rx_site"]
        if len(pos) != len(want) or any(len(x) != 3 for x in pos):
            self.bad(f"the coordinates of a {kind} are not {len(want)} positions of three values", e)
            return
        subject = None
        for side, xs in zip(want, pos):
            objs = []
            for n, v in zip(("longitude", "latitude", "altitude"), xs):
                if len(v) != 1:
                    self.und(f"a coordinate of a {kind} is composed of several values", e)
                    return
                v = v[0]
                if isinstance(v, str):
                    if n != "altitude":
                        self.bad(f"the {n} of a {kind} is written as {v}", e)
                    continue
                b, a = attr_of(v)
                if a is None:
                    self.und(f"origin of the {n} of a {kind} is not known: {short(v)}", e)
                    continue
                if a != n:
                    (self.bad if a in ("longitude", "latitude", "altitude", "utm_x", "utm_y", "height") else self.und)(f"the {a} of a {kind} is written where its {n} belongs", e)
                if n == "altitude" and And(g, self.I.isnone(v)) is not T.FALSE:
                    self.bad(f"a missing altitude of a {kind} is written into its coordinates", e)
                objs.append(b)
            if len(set(objs)) > 1:
                self.bad(f"a position of a {kind} is composed of two sites", e)
                return
            b = objs[0]
            if side is not None:
                b2, a = attr_of(b)
                if a != side:
                    (self.bad if a in ("tx_site", "rx_site") else self.und)(f"the {a} of a link is written where its {side} belongs", e)
                    return
                b = b2
            if subject is not None and subject is not b:
                self.bad("the positions of a link belong to two links", e)
                return
            subject = b
            # altitude mode
            alt = xs[2][0]
            mode = between(parts, "altitudeMode")
            if mode is not None and all(isinstance(x, str) for x in mode):
                m = "".join(mode).strip()
                here = Term("attr", Term("attr", b if side is None else Term("attr", b, "_" + side), "_location"), "_altitude")
                if isinstance(alt, str) and m == "absolute" and And(g, self.I.truth(here)) is not T.FALSE:
                    self.bad(f"the altitude of a {kind} is written as the constant {alt}", e)
                if not isinstance(alt, str) and m != "absolute":
                    self.bad(f"the altitude of a {kind} is written, but marked {m}", e)
        if kind == "site":
            self.name(subject, between(parts, "name"), e)
        self.data(kind, subject, between(parts, "ExtendedData"), g, e)
        self.domains[kind].append((subject, g, e))

    def name(self, subject, parts, e):
        if not parts or len(parts) != 1 or isinstance(parts[0], str):
            (self.bad if not parts or all(isinstance(x, str) for x in parts) else self.und)("a site is not written under its name", e)
            return
        t = parts[0]
        while isinstance(t, Term) and t.op == "call" and (t.args[0] in ESCAPERS or t.args[0] == "str"):
            t = t.args[1]
        b, a = attr_of(t)
        if a is None:
            self.und(f"a site is written under {short(t)}", e)
        elif b is not subject or a not in ("name", "site_id"):
            self.bad(f"a site is written under {short(t)} instead of its name", e)

    def data(self, kind, subject, parts, g, e):
        if parts is None:
            self.bad(f"the attributes of a {kind} are not written", e)
            return
        rep = [x for x in parts if not isinstance(x, str)]
        if len(rep) != 1:
            self.und(f"how the attributes of a {kind} are written is not known", e)
            return
        cn, read = READ[kind]
        left_out = T.FALSE
        loops = None
        for ps, f, lts in alternatives(self.I, rep[0], T.TRUE):
            if loops is None:
                loops = lts
            if not any(isinstance(x, str) and "<Data" in x for x in ps):
                left_out = T.Or(left_out, f)
                continue
            self.fields += 1
            nm = self.data_name(ps)
            val = between(ps, "value")
            if nm is None or val is None or len(val) != 1:
                self.und(f"an attribute of a {kind} is written in a form that is not known", e)
                continue
            vn = value_of(nm, None)
            if vn is None or vn[2] != 0:
                self.bad(f"an attribute of a {kind} is written under {short(nm)}", e) if vn is not None else self.und(f"an attribute of a {kind} is written under {short(nm)}", e)
                continue
            key, obj, _ = vn
            if obj is not subject:
                self.bad(f"an attribute of another object is written for a {kind}", e)
                continue
            v = val[0]
            vv = value_of(v, None) if not isinstance(v, str) else None
            if vv is not None:
                if vv[0] is not key or vv[1] is not subject or vv[2] != 1:
                    self.bad(f"the value of an attribute of a {kind} is that of another attribute", e)
                continue
            # values that are not those of the key itself: never for an attribute that is read back
            for m in self.p.enum_members(self.p.class_by_name[cn]):
                if (cn, m) not in SHOWN and And(f, self.I.eq(key, Term("enum", cn, m))) is not T.FALSE:
                    self.bad(f"{cn}.{m} of a {kind} is written as {short(v)}", e)
        if loops is None:
            self.und(f"how the attributes of a {kind} are written is not known", e)
            return
        key = self.key_of(rep[0])
        if key is not None:
            wireless = self.I.truth(Term("attr", subject, "is_wireless")) if kind == "link" else T.TRUE
            for m in self.p.enum_members(self.p.class_by_name[cn]):
                c = And(left_out, self.I.eq(key, Term("enum", cn, m)))
                if m not in read and not (kind == "site" and m == "NAME"):
                    # only wired links have no radio figures
                    c = And(c, wireless)
                elif m not in read:
                    continue
                if c is not T.FALSE:
                    self.bad(f"{cn}.{m} of a {kind} is left out", e)

    def key_of(self, t):
        for x in T.free(t):
            if isinstance(x, Term) and x.op == "call" and x.args[0] == VALUE:
                return x.args[1]
        return None

    def data_name(self, ps):
        for i, x in enumerate(ps):
            if isinstance(x, str) and re.search(r'<Data\s+name\s*=\s*"$', x) and i + 1 < len(ps) and not isinstance(ps[i + 1], str) and isinstance(ps[i + 2], str) and ps[i + 2].startswith('"'):
                return ps[i + 1]
        return None

    def complete(self, kind):
        """Every element of the topology is written, whatever its type and status."""
        I, o = self.I, self.o
        coll = "sites" if kind == "site" else "links"
        per = {}
        for subject, e in {(x, e) for x, _, e in self.domains[kind]}:
            f = e.guard
            for r in self.s.effects:
                if r.kind == "raise" and r.loops[:len(e.loops)] == e.loops:
                    f = T.Or(f, r.guard)
            dep = [v for v in T.support(f) if subject in T.free(v)]
            if dep:
                self.bad(f"not every one of the {coll} is written: it depends on {short(dep[0])}", e)
        for subject, g, e in self.domains[kind]:
            src = self.source(subject)
            if src is None:
                self.und(f"the collection of {coll} that is written is not known", e)
                return
            per.setdefault(src, (T.FALSE, e))
            per[src] = (T.Or(per[src][0], g), e)
        c = self.p.class_by_name["StatusType"]
        covered = {m: T.FALSE for m in self.p.enum_members(c)}
        for src, (g, e) in per.items():
            if not self.cover(src, coll, covered):
                self.und(f"which {coll} are written is not known: {short(src)}", e)
                return
        for m, f in sorted(covered.items()):
            if f is T.FALSE:
                self.bad(f"{coll} of status {m} are not written", self.domains[kind][0][2])
            elif f is not T.TRUE:
                self.bad(f"{coll} of status {m} are only written when {short(f)}", self.domains[kind][0][2])

    def source(self, t):
        """The list comprehension that a loop element comes from, through sorting and grouping."""
        while isinstance(t, Term):
            if t.op == "comp":
                return t
            if t.op in ("elem", "idx"):
                t = t.args[0]
            elif t.op == "call" and t.args[0] in ("sorted", "list", "tuple", "reversed") or t.op == "call" and t.args[0].startswith("itertools.groupby"):
                t = t.args[1]
            elif t.op == "values" and str(t.args[0]) in ("topology.sites", "topology.links"):
                return t
            else:
                return None
        return None

    def cover(self, src, coll, covered):
        """Adds the condition under which this collection has the elements of each status."""
        if src.op == "values":
            for m in covered:
                covered[m] = T.TRUE
            return True
        if src.op != "comp" or len(src.args[1]) != 1:
            return False
        (lts, g, el), = src.args[1]
        if len(lts) != 1 or f"topology.{coll}" not in str(lts[0]):
            return False
        st = Term("attr", el, "_status_type")
        for m in covered:
            f = self.I.eq(st, Term("enum", "StatusType", m))
            got = And(g, f)
            covered[m] = T.Or(covered[m], T.constrain(got, f) if got is not T.FALSE else T.FALSE)
        return True


def placemarks(I, s, o, p):
    m = Marks(I, s, o, p)
    m.run()
    o.measure.update({"placemarks": sum(m.n.values()), "attributes": m.fields})


def run(ctx):
    BL = "common.data_io.building_group_loader:BuildingGroupLoader."
    ctx.equiv(BL + "write", "c09:building_write", keep=[BL + "get_a_temp_dir"], calls=[".SetGeometry", ".CreateFeature", ".write"], what="every outline, its coordinate system, and all files of the shapefile in the archive")
    ctx.rule("names", "attributes are written under names their readers recognise, from the attribute they are named after", K + "BaseDataKey", lambda o: table(ctx, o))
    ctx.query("placemarks", "every site and link of the topology is written, with its own name, position and attributes", S + "write_to_kml_file", lambda I, s, o: placemarks(I, s, o, ctx.p), keep=[k for k in KEEP if not k.endswith("rf_field")])
    ctx.equiv(VALUE, "c08:value", what="value of the attribute under the name of the key")
    for cn in ("SiteKey", "LinkKey", "SectorKey"):
        ctx.equiv(K + cn + ".csv_output_keys", "c09:" + cn.lower() + "_csv", what="columns of the report")
    for cn in ("SiteKey", "LinkKey"):
        ctx.equiv(K + cn + ".kml_output_keys", "c09:" + cn.lower() + "_kml", what="attributes in KML")
    areas.report(ctx, "links", "sectors", "sites")
