from vstat import passes, terms as T
from vstat.terms import Term, Const
from checks import areas, con
from vstat.compare import Observe

TM = "common.topology_models."
HASH = "common.utils:deterministic_hash"
UNSTABLE = ("hash", "id", "random", "numpy.random", "time.", "uuid", "os.getpid", "os.urandom", "secrets", "datetime", "set", "object")


def A(b, *names):
    for n in names:
        b = Term("attr", b, n)
    return b


def parts(v):
    """Flattened argument leaves of a hash call or a formatted string."""
    if v.op == "call":
        out = []
        for a in v.args[1:]:
            out += parts(a) if isinstance(a, Term) and a.op in ("tuple", "comp") else [a]
        return out
    if v.op == "tuple":
        return list(v.args[0])
    if v.op == "comp":
        return [e for _, _, e in v.args[1]]
    if v.op == "fstr":
        return list(v.args[0])
    return [v]


def built_from(ctx, oid, qual, attr, want, hashed):
    """The id stored in attr is built from exactly the wanted attributes."""
    def go(I, s, o):
        ws = [e for e in s.effects if e.kind == "setattr" and e.key == attr]
        if not ws:
            o.bad(f"{attr} is never assigned", qual)
        W = want(I)
        for e in ws:
            for v, g in T.leaves(e.value):
                ps = [p for p in parts(v)]
                if hashed and not (v.op == "call" and v.args[0] == HASH):
                    o.und(f"{attr} is not built by the id hash: {v!r}", e.where())
                    continue
                flat = [p for p in ps if not T.is_const(p)]
                got = set(flat)
                if T._opq(v):
                    o.und(f"{attr} = {v!r}", e.where())
                    continue
                if got != set(W):
                    miss = [repr(x) for x in W if x not in got]
                    extra = [repr(x) for x in got if x not in W]
                    o.bad(f"{attr} is built from a different set of attributes: missing {miss}, unexpected {extra}", e.where())
                elif not hashed:
                    for i in range(len(ps) - 1):
                        if not T.is_const(ps[i]) and not T.is_const(ps[i + 1]):
                            o.bad(f"parts of {attr} are not separated", e.where())
    ctx.query(oid, "the id is built from exactly the key attributes", qual, go, keep=[HASH, "common.geos:lat_lon_to_geo_hash"])


def run(ctx):
    con.constants(ctx, "GEOHASH_SEED", "LAT_LON_TO_GEO_HASH_PRECISION")
    S = Term("sym", "self")
    st, loc, dev = Term("sym", "site_type"), Term("sym", "location"), Term("sym", "device")

    def site(I):
        return [A(st, "value"), A(loc, "latitude"), A(loc, "longitude"), A(loc, "_altitude"), A(dev, "device_sku")]
    built_from(ctx, "site-id", TM + "site:Site.__init__", "_site_id", site, True)
    built_from(ctx, "demand-id", TM + "demand_site:DemandSite.__init__", "_demand_id", lambda I: [A(loc, "latitude"), A(loc, "longitude"), A(loc, "_altitude")], True)

    def sector_id(I, s, o):
        for e in [e for e in s.effects if e.kind == "setattr" and e.key == "_sector_id"]:
            for v, g in T.leaves(e.value):
                if v.op != "fstr" or T._opq(v):
                    o.und(f"_sector_id = {v!r}", e.where())
                    continue
                ps = list(v.args[0])
                site_ = Term("sym", "site")
                for w in (A(site_, "_site_id"), Term("sym", "node_id"), Term("sym", "position_in_node")):
                    if w not in ps:
                        o.bad(f"the sector id does not depend on {w!r}: {v!r}", e.where())
                rest = [p for p in ps if not T.is_const(p) and p not in (A(site_, "_site_id"), Term("sym", "node_id"), Term("sym", "position_in_node"))]
                for r in rest:
                    if not any(x.op == "enum" and x.args[0] == "SectorType" or x is A(site_, "_site_type") for x in T.free(r)) and not (T.is_const(r)):
                        o.bad(f"the sector id depends on {r!r}", e.where())
                cn = [p for p in ps if T.is_const(p) and p.args[0] in ("CN", "DN")]
                for i in range(len(ps) - 1):
                    a, b = ps[i], ps[i + 1]
                    sep = lambda x: T.is_const(x) and isinstance(x.args[0], str) and x.args[0] not in ("CN", "DN")
                    if not sep(a) and not sep(b):
                        o.bad("parts of the sector id are not separated", e.where())
    ctx.query("sector-id", "the sector id is built from site, node, position and type", TM + "sector:Sector.__init__", sector_id)

    def link_id(I, s, o):
        tx, rx = Term("sym", "tx_site_id"), Term("sym", "rx_site_id")
        for v, g in T.leaves(s.ret):
            if v.op != "fstr" or T._opq(v):
                o.und(f"link id = {v!r}", s.func.qual)
                continue
            ps = list(v.args[0])
            if [p for p in ps if not T.is_const(p)] != [tx, rx] and [p for p in ps if not T.is_const(p)] != [rx, tx]:
                o.bad(f"the link id is not built from the ordered pair of sites: {v!r}", f"{s.func.module.path}:{s.func.node.lineno}")
            elif len(ps) < 3 or not T.is_const(ps[[i for i, p in enumerate(ps) if p in (tx, rx)][0] + 1]):
                o.bad(f"the two site ids are not separated: {v!r}", f"{s.func.module.path}:{s.func.node.lineno}")
    ctx.query("link-id", "the link id is built from the ordered pair of end sites", TM + "link:Link.get_link_id_by_site_ids", link_id)

    def link_init(I, s, o):
        for e in [e for e in s.effects if e.kind == "setattr" and e.key == "_link_id"]:
            for v, g in T.leaves(e.value):
                if T._opq(v) or v.op != "call" or v.args[0] != TM + "link:Link.get_link_id_by_site_ids":
                    o.und(f"_link_id = {v!r}", e.where())
                    continue
                ends = [e2 for e2 in s.effects if e2.kind == "setattr" and e2.key in ("_tx_site", "_rx_site")]
                for i, end in ((1, "_tx_site"), (2, "_rx_site")):
                    ok = False
                    for e2 in ends:
                        if e2.key == end:
                            for w, _ in T.leaves(e2.value):
                                if v.args[i] is I.attr_term(w, "_site_id"):
                                    ok = True
                    if not ok:
                        o.bad(f"argument {i} of the link id is {v.args[i]!r}, not the id of {end}", e.where())
    ctx.query("link-id-ends", "the link id names the link's own end sites in order", TM + "link:Link.__init__", link_init, keep=[TM + "link:Link.get_link_id_by_site_ids"])
    ctx.equiv(TM + "link:Link.link_hash", "c05:link_hash", what="a link and its reverse share the hash they are counted by")

    ctx.equiv(HASH, "c05:id_hash", obs=Observe(raises=None, kept=False), what="the hash is a function of all its arguments")

    def stable(o):
        f = ctx.find(HASH)
        from vstat.absint import Interp
        s = Interp(ctx.p).summarize(f)
        for e in s.effects:
            if e.kind == "call":
                n = str(e.target.args[0])
                if n in UNSTABLE or any(n.startswith(u) for u in UNSTABLE if u.endswith(".") or u in ("random", "numpy.random", "uuid", "secrets", "datetime")):
                    o.bad(f"the id hash calls {n}, which differs between processes", e.where())
    ctx.rule("hash-stable", "the hash uses nothing that differs between processes", HASH, stable)

    for cls, names in (("site:Site", ("site_type", "location", "device", "site_id", "latitude", "longitude", "altitude")), ("sector:Sector", ("site", "sector_type", "node_id", "position_in_node", "sector_id")),
                       ("link:Link", ("tx_site", "rx_site", "link_id")), ("demand_site:DemandSite", ("demand_id", "latitude", "longitude", "altitude"))):
        def ro(o, cls=cls, names=names):
            c = ctx.p.cls(TM + cls)
            for n in names:
                if ctx.p.find_setter(c, n) is not None:
                    o.bad(f"key attribute {n} of {c.name} can be assigned", f"{c.module.path}:{ctx.p.find_setter(c, n).node.lineno}")
                elif ctx.p.find_getter(c, n) is None:
                    o.bad(f"key attribute {n} of {c.name} is a plain writable attribute", f"{c.module.path}:{c.node.lineno}")
            o.measure = {"attributes": len(names)}
        ctx.rule(f"read-only:{cls}", "key attributes have no setter", TM + cls, ro)
        init = {TM + cls + ".__init__"}
        for n in names:
            if n in ("latitude", "longitude", "altitude"):
                continue
            if n == "site":
                continue
            passes.only_writers(ctx, f"writer:{cls}:_{n}", "_" + n, init | ({TM + "demand_site:DemandSite.__init__"} if n == "location" else {"optimization.ilp_models.pop_proposal_optimization:"} if n == "site_type" else set()), rule="key attributes are assigned only by the constructor")
    passes.only_writers(ctx, "writer:_altitude", "_altitude", {"common.geos:GeoLocation.__init__"}, rule="locations are immutable")
    areas.records(ctx)
