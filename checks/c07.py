import ast
import os

from vstat import passes, terms as T, template
from vstat.compare import Observe
from vstat.program import AnalysisBroken, _dotted
from vstat.terms import Term, Const
from checks import con

C = "common.configuration.configs:"
U = "common.configuration.utils:"
KEEP = ["common.data_io.csv_library:read_antenna_pattern_data", "common.data_io.csv_library:read_scan_pattern_data", "common.data_io.csv_library:read_mcs_snr_mbps_map_data"]
CLASSES = ["SystemParams", "GISDataParams", "LOSParams", "OptimizerParams", "DeviceData", "SectorParams", "SiteDetectionParams"]
# parameters whose value is transformed on the way in
SHAPED = {("GISDataParams", "dsm_file_paths"), ("DeviceData", "number_of_nodes_per_site")}
SHARED = ["carrier_frequency", "thermal_noise_power", "noise_figure", "rain_rate", "link_availability_percentage"]
# documented as null although a path is shown
NULLS = lambda k: k.endswith(("_path", "_paths"))
REQUIRED = {"boundary_polygon_file_path", "device_list", "device_sku", "sector_params"}


def params_of(ctx, cls):
    f = ctx.p.func(C + cls + ".__init__")
    a = f.node.args
    names = [x.arg for x in a.args][1:]
    defs = dict(zip(reversed(names), reversed(a.defaults)))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        names.append(x.arg)
        if d is not None:
            defs[x.arg] = d
    anns = {x.arg: x.annotation for x in a.args + a.kwonlyargs}
    return f, names, defs, anns


def run(ctx):
    con.constants(ctx, "DEFAULT_MCS_SNR_MBPS_MAP")
    con.distinct(ctx, {"OutputFile", "DebugFile"}, but=True)
    P = {c: params_of(ctx, c) for c in CLASSES}
    # 1. parameters reach the attribute of the same name
    for c in CLASSES:
        def stored(I, s, o, c=c):
            n = 0
            for name in P[c][1]:
                if (c, name) in SHAPED:
                    continue
                n += 1
                ws = [e for e in s.effects if e.kind == "setattr" and e.key == name and e.target is Term("sym", "self")]
                if not ws:
                    o.bad(f"{c}.{name} is never stored", f"{s.func.module.path}:{s.func.node.lineno} ({s.func.qual})")
                    continue
                e = ws[-1]
                for v, g in T.leaves(I.simplify(e.value, I.forced(e.guard))):
                    if v is not Term("sym", name):
                        if T._opq(v):
                            o.und(f"{c}.{name} = {v!r}", e.where())
                        else:
                            o.bad(f"{c}.{name} is set to {v!r} instead of the parameter {name}", e.where())
            o.measure = {"parameters": n}
        ctx.query(f"stored:{c}", "every constructor parameter is stored under its own name", C + c + ".__init__", stored, keep=KEEP)

    # 2. template <-> parameters
    path = os.path.join(ctx.p.repo, "terragraph_planner", "data", "template.yaml")
    if not os.path.exists(path):
        raise AnalysisBroken("data/template.yaml is missing")
    tpl = template.parse(path)

    def flat(d, drop=()):
        out = {}
        for k, v in d.items():
            if isinstance(v, dict) and k.casefold() not in drop:
                out.update({x.casefold(): y for x, y in v.items()})
            else:
                out[k.casefold()] = v
        return out
    nested = ("site_detection", "sector_params")
    radio = flat(tpl.get("RADIO", {}), nested)
    dev = radio.get("device_list")
    dev = {k.casefold(): v for k, v in (dev[0] if isinstance(dev, list) and dev else {}).items()}
    los = flat(tpl.get("LINE_OF_SIGHT", {}), nested)
    groups = {
        "SystemParams": flat(tpl.get("SYSTEM", {})),
        "GISDataParams": flat(tpl.get("DATA", {})),
        "LOSParams": {**los, **radio},
        "OptimizerParams": {**flat(tpl.get("NETWORK_DESIGN", {})), **radio},
        "DeviceData": dev,
        "SectorParams": {**{k.casefold(): v for k, v in (dev.get("sector_params") or {}).items()}, **{k: radio[k] for k in SHARED if k in radio}},
        "SiteDetectionParams": {k.casefold(): v for k, v in (los.get("site_detection") or {}).items()},
    }
    for c in CLASSES:
        def agree(o, c=c):
            f, names, defs, anns = P[c]
            where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
            for n in names:
                if n not in groups[c]:
                    o.bad(f"parameter {n} of {c} is not in the documented template", where)
            for k in groups[c]:
                if k in names:
                    continue
                o.bad(f"template field {k.upper()} does not reach any parameter of {c}", path)
            from vstat.absint import Interp
            I = Interp(ctx.p)
            n = 0
            for k, v in groups[c].items():
                if k not in names or k in REQUIRED or k == "site_detection":
                    continue
                want = None if NULLS(k) else v
                if k not in defs:
                    o.bad(f"parameter {k} of {c} has no default", where)
                    continue
                n += 1
                got = I.eval_global(defs[k], f.module)
                if k == "number_of_nodes_per_site":     # depends on the device type: decided under C06
                    continue
                if got.op == "enum":
                    ok = isinstance(want, str) and want.upper() == got.args[1]
                elif got.op == "const" or got is T.NONE:
                    gv = None if got is T.NONE else got.args[0]
                    ok = gv == want if not isinstance(want, float) or isinstance(gv, (int, float)) or hasattr(gv, "numerator") else False
                    if isinstance(want, float) and gv is not None and not isinstance(gv, str):
                        ok = float(gv) == want
                elif T.as_poly(got) is not None and set(T.as_poly(got)) <= {()}:
                    gv = T.as_poly(got).get((), 0)
                    ok = isinstance(want, (int, float)) and not isinstance(want, bool) and abs(float(gv) - float(want)) < 1e-9 * max(1, abs(float(want)))
                elif got is T.TRUE or got is T.FALSE:
                    ok = want is (got is T.TRUE)
                else:
                    o.und(f"default of {k}: {got!r}", where)
                    continue
                if not ok:
                    o.bad(f"default of {c}.{k} is {got!r}, the documented default is {want!r}", where)
            o.measure = {"fields": len(groups[c]), "defaults": n}
        ctx.rule(f"template:{c}", "documented fields and defaults equal constructor parameters and defaults", C + c, agree)

    # 3. name -> class tables cover every structured parameter
    def tables(o):
        m = ctx.p.module("common.configuration.configs")
        from vstat.absint import Interp
        I = Interp(ctx.p)

        def table(name):
            for n in m.tree.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(t, ast.Name) and t.id == name and isinstance(n.value, ast.Dict):
                        return {k.value: v.value for k, v in zip(n.value.keys, n.value.values) if isinstance(k, ast.Constant) and isinstance(v, ast.Constant)}, n.lineno
            return None, 0
        en, l1 = table("CLASS_NAME_TO_ENUM_MAPPING")
        cn, l2 = table("CLASS_NAME_MAPPING")
        if en is None or cn is None:
            o.und("name tables not found as literals", m.path)
            return
        n = 0
        for c in CLASSES:
            f, names, defs, anns = P[c]
            for k in names:
                t = I.unopt(I.ann_type(anns.get(k), f.module)) if anns.get(k) is not None else None
                if t is None:
                    continue
                if t[0] in ("list",) and t[1] is not None:
                    t = I.unopt(t[1])
                if t and t[0] in ("enum", "cls") and t[1].is_enum:
                    n += 1
                    if en.get(k) != t[1].name:
                        o.bad(f"{c}.{k} is a {t[1].name} but the enum table says {en.get(k)}", f"{m.path}:{l1}")
                elif t and t[0] == "cls" and t[1].module is m:
                    n += 1
                    if cn.get(k) != t[1].name:
                        o.bad(f"{c}.{k} is a {t[1].name} but the class table says {cn.get(k)}", f"{m.path}:{l2}")
                elif k in en:
                    o.bad(f"{c}.{k} is not an enum but is in the enum table", f"{m.path}:{l1}")
        if n == 0:
            o.und("no structured parameter recognised", m.path)
        o.measure = {"structured_parameters": n}
    ctx.rule("name-tables", "structured parameters are built by the class they are annotated with", C + "CLASS_NAME_MAPPING", tables)

    # 4. parsing
    ctx.equiv(C + "ConfigParser.from_dict", "c07:from_dict", keep=[C + "ConfigParser.from_dict", "common.configuration.enums:EnumParser.from_string"], obs=Observe(raises=None), what="fields by case-insensitive name, nulls dropped, shared fields passed down")
    ctx.equiv(U + "_detect_typo", "c07:detect_typo", keep=[U + "_detect_typo"], what="unknown fields are refused at every level")
    ctx.equiv(U + "_load_dict_from_file", "c07:load", keep=[U + "_detect_typo"], obs=Observe(ret=False, kept=False, kinds=set()), what="only existing JSON/YAML files are read")
    ctx.equiv(U + "struct_objects_from_file", "c07:struct", keep=[U + "_load_dict_from_file", C + "ConfigParser.from_dict"], obs=Observe(raises=None), what="each object is built from its own sections")
    ctx.equiv("common.configuration.enums:EnumParser.from_string", "c07:from_label", what="labels are case-insensitive names or values")

    def checked(I, s, o):
        loads = [e for e in s.effects if e.kind == "call" and str(e.target.args[0]) in ("json.load", "yaml.safe_load")]
        typo = [e for e in s.effects if e.kind == "call" and e.target.args[0] == U + "_detect_typo" and not e.loops]
        cover = T.Or(*[e.guard for e in typo]) if typo else T.FALSE
        for v, g in T.leaves(s.ret):
            if T._opq(v):
                o.und(f"returns {v!r}", s.func.qual)
                continue
            ok = T.FALSE
            for e in typo:
                a = e.value.args[0] if e.value is not None and e.value.op == "tuple" else ()
                for d, dg in T.leaves(a[0]) if a else ():
                    if d is v:
                        ok = T.Or(ok, T.And(e.guard, dg))
            miss = T.And(s.exit_guard, g, T.Not(ok))
            if miss is not T.FALSE and not any(x.opaque for x in T.support(miss)):
                o.bad(f"{v!r} is returned without the check for unknown fields", f"{s.func.module.path}:{s.func.node.lineno} ({s.func.qual})")
        o.measure = {"loads": len(loads), "typo_checks": len(typo)}
    ctx.query("typo-checked", "no parsed file is used before its fields are checked", U + "_load_dict_from_file", checked, keep=[U + "_detect_typo"])

    # 5. shared radio parameters
    for c in ("LOSParams", "OptimizerParams"):
        ctx.equiv(C + c + ".__init__", "c07:params", name=f"shared:{c}", keep=KEEP,
                  obs=Observe(ret=False, raises=None, kept=False, on_exit=True, kinds={"setattr"}, effects=lambda e: bool(e.loops)), what="every device gets the project-level radio parameters")

    # 6. system parameters
    def system(I, s, o):
        want = set(P["SystemParams"][1])
        for name in sorted(want):
            ws = [e for e in s.effects if e.kind == "setattr" and e.key == name]
            if not ws:
                o.bad(f"system parameter {name} is not taken over", f"{s.func.module.path}:{s.func.node.lineno} ({s.func.qual})")
            for e in ws[-1:]:
                for v, _ in T.leaves(e.value):
                    if not (v.op == "attr" and v.args[1] == name) and not T._opq(v):
                        o.bad(f"system parameter {name} is set to {v!r}", e.where())
    ctx.query("system", "every system parameter of the file becomes current", "common.utils:set_system_control_with_config_file", system, keep=[U + "struct_objects_from_file", "common.utils:set_root_logger"])

    # 7. safe parsers
    UNSAFE = {"yaml.load", "yaml.unsafe_load", "yaml.full_load", "yaml.load_all", "yaml.unsafe_load_all", "pickle.load", "pickle.loads", "marshal.load", "marshal.loads", "eval", "exec", "builtins.eval", "builtins.exec"}

    def safe(o):
        n = 0
        for m in ctx.p.modules.values():
            for nd in ast.walk(m.tree):
                if not isinstance(nd, ast.Call):
                    continue
                d = _dotted(nd.func)
                if d is None:
                    continue
                n += 1
                head, _, rest = d.partition(".")
                imp = m.imports.get(head)
                full = d
                if imp and imp[0] == "mod":
                    full = imp[1] + ("." + rest if rest else "")
                elif imp and imp[0] == "from":
                    full = f"{imp[1]}.{imp[2]}" + ("." + rest if rest else "")
                elif head in m.funcs or head in m.classes:
                    continue
                if full in UNSAFE:
                    if full in ("yaml.load", "yaml.load_all"):
                        ldr = [a for a in nd.args[1:2]] + [k.value for k in nd.keywords if k.arg == "Loader"]
                        if ldr and (_dotted(ldr[0]) or "").split(".")[-1] in ("SafeLoader", "CSafeLoader"):
                            continue
                    o.bad(f"{full} can execute code from its input", f"{m.path}:{nd.lineno}")
        o.measure = {"calls": n}
    ctx.rule("safe-parsers", "no parser that can execute code is used", "package", safe)
    ctx.equiv("spec:rec:asked_surfaces", "rec:given_surfaces", obs=Observe(drop=lambda e: True, kept=False, raises=None), inline_new=("GISDataParams",), name="record:surfaces",
              what="the surface files that are given are kept, in order")
    ctx.equiv(C + "SectorParams.__init__", "rec:tables", keep=KEEP, name="record:tables", obs=Observe(ret=False, kept=False, raises=None, on_exit=True, kinds={"setattr"}, only_attrs={"antenna_pattern_data", "scan_pattern_data", "mcs_map"}),
              what="antenna, scan and MCS tables are those of the given files")
