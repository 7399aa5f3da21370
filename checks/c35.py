import ast

from checks import areas, con
from vstat.compare import Observe
from vstat.passes import callers_of

U = "common.utils:"
S = "common.data_io.topology_serializer:"
R = "optimization.topology_report:"


def run(ctx):
    con.distinct(ctx, {"OutputFile", "DebugFile"})
    ctx.equiv(R + "analyze_with_dump", "c35:everything", keep=[R + "analyze", S + "dump_topology_to_kml", R + "dump_df_to_csv", R + "dump_metrics_to_yaml"], what="each result in the file of its own")
    ctx.equiv(S + "dump_topology_to_kml", "c35:kml", keep=[S + "write_to_kml_file"], what="outputs always, debug files in debug mode, in the configured directory")
    ctx.equiv(R + "dump_df_to_csv", "c35:table", calls=[".to_csv"], what="in the configured directory, under the name of the table")
    ctx.equiv(R + "dump_metrics_to_yaml", "c35:yaml_file", calls=["yaml.dump", "open"], what="in the configured directory, every metric")
    ctx.equiv("optimization.ilp_models.network_optimization:NetworkOptimization.dump_problem_file_for_debug_mode", "c35:problem_file", calls=[".write"], what="debug mode only, in the configured directory")
    ctx.equiv(U + "set_system_control_with_config_file", "c35:system", keep=["common.configuration.utils:struct_objects_from_file", U + "set_root_logger"], what="every system parameter of the file takes effect")
    ctx.equiv(U + "set_root_logger", "c35:logger", calls=[".setLevel", ".addHandler", ".removeHandler"], what="messages of the configured level go where they are configured to")
    areas.pipeline(ctx, "plan", obs=Observe(ret=False, raises=None, effects=lambda e: e.kind == "call" and str(e.target.args[0]).endswith(":dump_topology_to_kml")), name="intermediate")
    ctx.rule("directories", "every output directory is created, with its parents, before it is written to", "package", lambda o: directories(ctx.p, o))


def directories(p, o):
    """Functions that build a path below the output directory, or their callers or callees, create it with its parents."""
    fs = [f for f in p.all_funcs() if any(isinstance(n, ast.Attribute) and n.attr == "output_dir" and isinstance(n.ctx, ast.Load) and dotted_end(n.value) == "current_system_params" for n in ast.walk(f.node))]
    o.measure["functions"] = len(fs)
    for f in fs:
        near = [f] + list(callers_of(p, f))
        names = {last(c.func) for g in near for c in ast.walk(g.node) if isinstance(c, ast.Call)}
        near += [g for g in p.all_funcs() if g.name in names and g.module.name.startswith("terragraph_planner") and (g.module is f.module or g.name not in COMMON)]
        made = [(g, c) for g in near for c in ast.walk(g.node) if isinstance(c, ast.Call) and last(c.func) in ("makedirs", "mkdir")]
        where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
        if not made:
            o.bad("the output directory is not created", where)
        for g, c in made:
            if g is f and last(c.func) == "mkdir" and not any(k.arg == "parents" and isinstance(k.value, ast.Constant) and k.value.value is True for k in c.keywords):
                o.bad("the output directory is created without its parents", f"{g.module.path}:{c.lineno} ({g.qual})")


COMMON = {"write", "get", "join", "append", "add", "info", "__init__"}


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""


def dotted_end(e):
    return last(e)
