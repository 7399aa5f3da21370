"""Obligations shared by several properties, by area of the code."""
import os
import re

from vstat.compare import Observe

O = "optimization.topology_operations:"
P = "optimization.topology_preparation:"
L = "common.rf.link_budget_calculator:"
T = "common.topology_models.topology:Topology."
LK = "common.topology_models.link:Link."
NX = "optimization.topology_networkx:"
I = "optimization.topology_interference:"
G = "common.geos:"
RF = [L + n for n in ("get_max_tx_power", "fspl_based_estimation", "get_mcs_from_snr", "get_link_capacity_from_mcs", "adjust_tx_power_with_backoff", "get_fspl_based_rsl", "get_snr", "get_noise_power")]
QUERIES = [T + n for n in ("get_site_ids", "get_successor_sites", "get_predecessor_sites", "get_colocated_sites", "get_link_by_site_ids")]
GEOM = [LK + n for n in ("tx_dev", "rx_dev", "el_dev", "distance", "is_out_of_sector")] + [G + n for n in ("haversine_distance", "bearing_in_degrees")]


def pure(*names):
    """Kept calls without effects are compared by value, not as events."""
    names = set(names)
    return Observe(drop=lambda e: e.kind == "call" and str(e.target.args[0]) in names)


def operations(ctx, *which):
    """Reference semantics of topology_operations / topology_preparation, by name."""
    q = QUERIES + RF + GEOM
    table = {
        "hops": (O + "hops_from_pops", "hops", QUERIES, "breadth-first hop counts from the POPs over sites and links of the given statuses"),
        "reachable": (O + "get_reachable_demand_sites", "reachable_demand", [O + "hops_from_pops"], "demand sites with a connected site that has a hop count"),
        "unreachable": (O + "mark_unreachable_components", "unreachable", QUERIES + [O + "hops_from_pops"], "exactly the candidate sites without a path to a POP, or beyond the hop limit, and what hangs on them"),
        "popcap": (O + "compute_max_pop_capacity_of_topology", "pop_capacity", QUERIES + [LK + "is_out_of_sector"], "best link per sector plus all wired links, at most the capacity of the POP"),
        "colocated": (O + "_find_colocated_sites_to_remove", "colocated_to_remove", QUERIES, "sites excluded by an active site at the same place"),
        "adversarial": (O + "get_adversarial_links", "adversarial", [NX + "build_digraph", NX + "find_most_disruptive_links", O + "_find_colocated_sites_to_remove"], "most disruptive links of the active network that are no cut edges of the reachable network"),
        "capex": (O + "compute_capex", "capex", [], "once per node and site, by status"),
        "same_node": (O + "_set_sector_status_in_same_node", "same_node", [], "all sectors of a node with a proposed sector are proposed"),
        "capacities": (P + "add_link_capacities", "capacities", q, "budget of each link from its own ends"),
        "prepare": (P + "prepare_topology_for_optimization", "prepare", [P + "setup_node_structure", P + "add_link_capacities", "optimization.topology_demand:add_demand_to_topology"], "sectors, then capacities, then demand"),
        "status_ok": (P + "validate_topology_status", "status_ok", QUERIES, "active links hang on active sites and sectors and have the status of their reverse link"),
        "readjust": (O + "readjust_sectors_post_opt", "readjust", QUERIES + [P + "find_best_sectors", P + "add_sectors_to_links", T + "add_sector", T + "remove_sector", LK + "clear_sectors"], "sectors re-oriented to the active links of their site"),
        "sinr_caps": (O + "update_link_caps_with_sinr", "sinr_caps", q + [P + "add_link_capacities", I + "analyze_interference", I + "compute_link_net_gain_map"], "transmit power backed off until stable; MCS and capacity from the SINR"),
    }
    effects = {T + "add_sector", T + "remove_sector", LK + "clear_sectors", P + "add_link_capacities", I + "analyze_interference", P + "add_sectors_to_links", P + "setup_node_structure", "optimization.topology_demand:add_demand_to_topology", NX + "find_most_disruptive_links"}
    for w in which:
        fn, sp, keep, what = table[w]
        ctx.equiv(fn, "ops:" + sp, keep=keep, obs=pure(*(set(keep) - effects)), what=what)


def networks(ctx, *which):
    """Reference semantics of topology_networkx, by name."""
    table = {
        "digraph": ("build_digraph", [], "edges of the graph: POPs below the super source, links with both ends and their sites to demand, all of the given statuses"),
        "connected": ("find_connected_demands", [], "demand sites below the super source"),
        "edge_failures": ("single_edge_failures", [NX + "find_connected_demands"], "demand lost without each wireless backhaul edge and its reverse"),
        "site_failures": ("single_site_failures", [NX + "find_connected_demands"], "demand lost without each POP or DN"),
        "disruptive": ("find_most_disruptive_links", [NX + "single_edge_failures", NX + "find_connected_demands"], "most disruptive edges whose removal disconnects nothing"),
        "dpa": ("_get_dpa_routing_paths", [], "shortest paths inside the zone of each POP"),
        "routing": ("get_topology_routing_results", [NX + "_get_dpa_routing_paths"], "links on the shortest paths to connected demand"),
        "disjoint": ("disjoint_paths", [], "second path without the links of the first, graph restored"),
    }
    for w in which:
        fn, keep, what = table[w]
        ctx.equiv(NX + fn, "net:" + w, keep=keep, obs=pure(*keep), what=what)


def demand(ctx, *which):
    """Reference semantics of topology_demand, by name."""
    D = "optimization.topology_demand:"
    parts = [D + n for n in ("_add_cn_demand_sites", "_add_dn_sites_to_cn_connected_demand", "_add_uniform_demand_sites")]
    q = [G + "haversine_distance", G + "grid_deltas", T + "get_colocated_sites", T + "get_site_ids"]
    edit = [T + "add_demand_site", T + "remove_demand_site", "common.geos:GeoLocation.copy"]
    table = {
        "add_demand": ("add_demand_to_topology", parts + q + edit, "manual, uniform and CN demand, connected within the radius"),
        "cn_demand": ("_add_cn_demand_sites", q + edit, "one demand site per place of CNs"),
        "uniform": ("_add_uniform_demand_sites", q + edit, "grid over the bounding box plus one spacing, also across the antimeridian"),
        "near_cns": ("_add_dn_sites_to_cn_connected_demand", q + edit, "DNs and POPs at the place or on the building of a CN serve its demand"),
    }
    for w in which:
        fn, keep, what = table[w]
        ctx.equiv(D + fn, "dem:" + w, keep=keep, obs=pure(*q), what=what)


def counts(ctx, *which):
    """Reference semantics of topology_component_counter and topology_availability, by name."""
    C = "optimization.topology_component_counter:"
    q = [T + "get_colocated_sites", O + "hops_from_pops", C + "_component_counter", C + "_redundant_sites_counter", NX + "find_connected_demands"]
    table = {
        "components": (C + "_component_counter", "cnt:components", "numbers of sites, nodes, sectors, links by type, of the given statuses"),
        "redundant": (C + "_redundant_sites_counter", "cnt:redundant", "sites beyond the first of their type at one place"),
        "counts": (C + "count_topology_components", "cnt:counts", "each reported number is the number it is named after"),
        "availability": ("optimization.topology_availability:compute_availability", "av:availability", "exponential failures and repairs per backhaul link, uptime per connected demand"),
    }
    for w in which:
        fn, sp, what = table[w]
        ctx.equiv(fn, sp, keep=[x for x in q if x != fn], obs=pure(*q), what=what)


def report(ctx, *which, obs=None, name=None):
    """Reference semantics of topology_report, by name."""
    R = "optimization.topology_report:"
    D = "optimization.deployment_rules:"
    parts = [R + n for n in ("get_routing_flow_solution", "get_routing_topology", "get_topology_metrics", "add_statistics_to_topology", "build_links_df", "build_sectors_df", "build_sites_df")]
    pure_ = [NX + n for n in ("build_digraph", "get_topology_routing_results", "disjoint_paths", "single_edge_failures", "single_site_failures")] + [
        D + "find_angle_violating_link_pairs", D + "find_sector_limit_violations", D + "get_violating_link_ids", "optimization.topology_availability:compute_availability",
        "optimization.topology_component_counter:count_topology_components", O + "compute_capex", O + "hops_from_pops", T + "get_link_by_site_ids", LK + "distance", R + "site_flow_statistics"]
    key = "common.data_io.data_key:BaseDataKey."
    keep = pure_ + [O + "update_link_caps_with_sinr", "optimization.ilp_models.flow_optimization:MaxFlowNetwork.solve", "optimization.ilp_models.flow_optimization:MaxFlowNetwork.__init__", key + "get_output_name_and_value"]
    table = {
        "analyze": ("analyze", "analysis", "each analysis is computed from the active network and passed on under its own name"),
        "flow": ("get_routing_flow_solution", "flow", "utilisation per physical link from its own flow and capacity"),
        "redundant": ("get_routing_topology", "redundant_links", "links off the routes in both directions are redundant"),
        "statistics": ("add_statistics_to_topology", "statistics", "flow, utilisation and breakdowns of each active link and site"),
        "metrics": ("get_topology_metrics", "metrics", "each reported metric is computed from active elements and carries its own name"),
        "site_flow": ("site_flow_statistics", "site_flow", "flow over active links only"),
        "links": ("build_links_df", "links_table", "each column from its own link"),
        "sectors": ("build_sectors_df", "sectors_table", "active sectors, active links"),
        "sites": ("build_sites_df", "sites_table", "active sectors, links and hop counts"),
    }
    quiet = pure(*(pure_ + [key + "get_output_name_and_value"]))
    for w in which:
        fn, sp, what = table[w]
        ks = [x for x in keep + (parts if w == "analyze" else []) if x != R + fn]
        ctx.equiv(R + fn, "rep:" + sp, keep=ks, obs=obs or quiet, what=what, name=name)


def pipeline(ctx, *which, obs=None, name=None):
    """Reference semantics of topology_optimization, by name."""
    M = "optimization.topology_optimization:"
    ILP = "optimization.ilp_models."
    steps = [M + n for n in ("_run_propose_extra_pops_step", "_run_min_cost_step", "_run_max_coverage_step", "_run_redundancy_step", "_run_interference_step")]
    public = [M + n for n in ("pre_opt_check", "optimize_topology", "optimize_and_report_topology", "update_topology_with_solution")]
    nets = [ILP + n for n in (
        "cost_optimization:MinCostNetwork.__init__", "cost_optimization:MinCostNetwork.solve", "coverage_optimization:MaxCoverageNetwork.__init__", "coverage_optimization:MaxCoverageNetwork.solve",
        "pop_proposal_optimization:POPProposalNetwork.__init__", "pop_proposal_optimization:POPProposalNetwork.propose_pops", "pop_proposal_optimization:add_duplicate_pop_to_dn_site",
        "redundancy_optimization:RedundantNetwork.__init__", "redundancy_optimization:RedundantNetwork.solve", "interference_optimization:MinInterferenceNetwork.__init__", "interference_optimization:MinInterferenceNetwork.solve")]
    late = ILP + "network_optimization:NetworkOptimization.did_problem_timeout"
    analyses = [O + "compute_capex", O + "compute_max_pop_capacity_of_topology", O + "get_adversarial_links", O + "hops_from_pops", "optimization.deployment_rules:find_angle_violating_link_pairs", I + "compute_link_interference", T + "get_site_ids",
                ILP + "redundancy_optimization:compute_candidate_edges_for_redundancy"]
    dump = "common.data_io.topology_serializer:dump_topology_to_kml"
    other = [O + "mark_unreachable_components", O + "readjust_sectors_post_opt", P + "prepare_topology_for_optimization", "optimization.topology_report:analyze_with_dump", T + "sort", "common.utils:set_system_control_with_config_file",
             "common.configuration.utils:struct_objects_from_file", "common.data_io.utils:extract_topology_from_file", "los.core:generate_candidate_topology_with_config_file"]
    table = {
        "run": ("optimize_and_report_topology", "whole", "checked, prepared, optimised, reported, in this order"),
        "run_file": ("optimize_and_report_topology_with_config_file", "from_file", "the configured topology or a generated one is planned with the parameters of the file"),
        "check": ("pre_opt_check", "check", "a plan needs a POP and demand"),
        "plan": ("optimize_topology", "plan", "POP proposal, reachability, minimum cost, redundancy, interference, sector readjustment, in this order"),
        "cost": ("_run_min_cost_step", "cost_step", "the solution becomes the plan or an optimizer error is raised"),
        "pops": ("_run_propose_extra_pops_step", "pops_step", "POPs are proposed when asked for"),
        "coverage": ("_run_max_coverage_step", "coverage_step", "the solution becomes the plan if the budget leaves something to spend"),
        "redundancy": ("_run_redundancy_step", "redundancy_step", "capacities by level and number of POPs; the solution becomes the plan"),
        "interference": ("_run_interference_step", "interference_step", "the solution becomes the plan or an optimizer error is raised"),
        "update": ("update_topology_with_solution", "update", "sites, then sectors, then links get exactly the selected status, if it may change; then disconnected parts are dropped"),
    }
    quiet = pure(*(analyses + [dump, late]))
    for w in which:
        fn, sp, what = table[w]
        ks = [x for x in steps + public + nets + [late, dump] + analyses + other if x != M + fn]
        ctx.equiv(M + fn, "opt:" + sp, keep=ks, obs=obs or quiet, what=what, name=name)


UNTOUCHED = {
    "optimization.topology_networkx:": ["build_digraph", "find_connected_demands", "single_edge_failures", "single_site_failures", "find_most_disruptive_links", "_get_dpa_routing_paths", "get_topology_routing_results"],
    "optimization.topology_availability:": ["compute_availability"],
    "optimization.topology_component_counter:": ["count_topology_components", "_component_counter", "_redundant_sites_counter"],
    "optimization.deployment_rules:": ["find_angle_violating_link_pairs", "_get_adjacency_dictionary", "get_violating_link_ids", "find_sector_limit_violations"],
    "optimization.topology_interference:": ["compute_link_interference", "_compute_link_interference_net_gain", "compute_link_rsl_map", "compute_link_net_gain_map", "_get_cn_polarities", "_compatible_polarity", "_compatible_channel"],
    "optimization.topology_operations:": ["hops_from_pops", "get_reachable_demand_sites", "compute_max_pop_capacity_of_topology", "_find_colocated_sites_to_remove", "get_adversarial_links", "compute_capex"],
    "optimization.topology_preparation:": ["validate_site_sectors", "validate_link_sectors", "validate_topology_status", "get_sector_azimuths_from_node_center"],
    "optimization.topology_report:": ["get_topology_metrics", "build_links_df", "build_sectors_df", "build_sites_df", "site_flow_statistics", "dump_df_to_csv", "dump_metrics_to_yaml"],
    "optimization.topology_optimization:": ["pre_opt_check"],
    "optimization.ilp_models.pop_proposal_optimization:": ["_compute_access_candidate_topology"],
    "optimization.ilp_models.redundancy_optimization:": ["compute_candidate_edges_for_redundancy"],
}


def untouched(ctx):
    """Analyses change nothing they are given; nothing changes the caller's parameters."""
    import ast
    from vstat import passes

    def restored(f, attr):
        return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr
                   for t in ast.walk(f.node) if isinstance(t, ast.Try) for s in t.finalbody for n in ast.walk(s))

    def analyses(o):
        mut, failed = passes.mutations(ctx)
        n = 0
        for m, names in UNTOUCHED.items():
            for name in names:
                f = ctx.find(m + name)
                if f is None:
                    continue
                if f in failed:
                    o.und(f"not analysed: {failed[f]}", f.qual)
                    continue
                n += 1
                for p, ws in mut.get(f, {}).items():
                    for what, where, _ in ws[:3]:
                        o.bad(f"{f.qual} changes its argument {p}: {what}", where)
        o.measure = {"functions": n, "functions_analysed": len(mut), "not_analysed": sorted(f.qual for f in failed)}
    ctx.rule("analyses-change-nothing", "no analysis changes an argument, directly or through the functions it calls", "optimization", analyses)

    def models(o):
        """The optimization models read the topology they are built from."""
        mut, failed = passes.mutations(ctx)
        base = ctx.p.cls("optimization.ilp_models.optimization_setup:OptimizationSetup")
        n = 0
        for c in {base, *ctx.p.subclasses(base)}:
            for f in c.methods.values():
                if f not in mut:
                    if f in failed:
                        o.measure.setdefault("not_analysed", []).append(f.qual)
                    continue
                n += 1
                for p, ws in mut[f].items():
                    ann = next((x.annotation for x in f.node.args.args if x.arg == p), None)
                    if p != "self" and (ann is None or ast.unparse(ann).startswith(("Dict", "dict")) and "float" in ast.unparse(ann)):
                        continue        # flows being worked on, not something given
                    for what, where, at in ws:
                        if p == "self" and (at not in ("topology", "input_topology") or what.startswith(("setattr self.topology", "setattr self.input_topology")) or f.qual in POP_STATUS and "status_type" in what):
                            continue
                        o.bad(f"{f.qual} changes {p}: {what}", where)
        o.measure["methods"] = n
    ctx.rule("models-change-nothing", "no method of an optimization model changes the topology or an argument", "optimization.ilp_models", models)

    def parameters(o):
        mut, failed = passes.mutations(ctx)
        base = ctx.p.cls("common.configuration.configs:ConfigParser")
        fam = {base, *ctx.p.subclasses(base)}
        out, _ = passes.flat_summaries(ctx)
        n = 0
        by_name = {}
        for g in ctx.p.all_funcs():
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call):
                    by_name.setdefault(x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None), set()).add(g)
        callers = {f: by_name.get(f.name, set()) - {f} for f in mut}
        for f, d in mut.items():
            if f.cls in fam or f.module.short == "common.configuration.configs":
                continue
            I = out[f][0]
            for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                if a.annotation is None or not any(isinstance(x, ast.Name) and any(x.id == c.name for c in fam) for x in ast.walk(a.annotation)):
                    continue
                n += 1
                for what, where, _ in d.get(a.arg, []):
                    attr = what.rsplit(".", 1)[-1]
                    if attr == "ignore_polarities" and f.module.short == "optimization.topology_optimization":
                        continue
                    if restored(f, attr) or f.name.startswith("_") and callers.get(f):
                        continue        # a helper's change shows in what calls it
                    o.bad(f"{f.qual} changes the caller's parameters {a.arg}: {what}", where)
        o.measure = {"parameters": n}
    ctx.rule("parameters-unchanged", "no function changes the configuration it is given (or restores it in a finally)", "package", parameters)


POP_STATUS = {"optimization.ilp_models.pop_proposal_optimization:POPProposalNetwork.propose_pops"}


def given_active_links(ctx):
    """Active wireless links of the input need active sectors; somebody has to make them."""
    import ast

    def go(o):
        n, can = 0, set()
        for f in ctx.p.all_funcs():
            if f.module.short != "optimization.topology_preparation":
                continue
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "Sector":
                    n += 1
                    for k in c.keywords:
                        if k.arg == "status_type":
                            can |= {x.attr for x in ast.walk(k.value) if isinstance(x, ast.Attribute)}
        o.measure = {"sector_constructions": n, "mentioned": sorted(can)}
        if n and can <= {"CANDIDATE", "status_type", "inactive_status"} and "CANDIDATE" in can:
            o.bad("sectors created for the input are never EXISTING or PROPOSED, so an input with an EXISTING or PROPOSED wireless link is rejected by validate_topology_status", "optimization.topology_preparation")
        elif not n:
            o.und("no sector is constructed", "optimization.topology_preparation")
    ctx.rule("given-active-links", "an input with active wireless links can be planned", "optimization.topology_preparation", go)


def defined_before_use(ctx):
    """No model reads a table of variables it has not created."""
    from vstat import terms as T
    names = ctx.p.solver_attrs()
    M = "optimization.ilp_models."
    entries = [
        ("cost_optimization:MinCostNetwork.", "build_model"), ("coverage_optimization:MaxCoverageNetwork.", "solve"), ("pop_proposal_optimization:POPProposalNetwork.", "propose_pops"),
        ("flow_optimization:MaxFlowNetwork.", "solve"), ("redundancy_optimization:RedundantNetwork.", "solve"), ("interference_optimization:MinInterferenceNetwork.", "setup_problem_skeleton"),
        ("site_optimization:SiteOptimization.", "build_connected_demand_model"), ("interference_optimization:MinInterferenceNetwork.", "build_connected_demand_model"),
    ]
    extract = [f.qual for m in ctx.p.modules.values() if ".ilp_models." in m.name for c in m.classes.values() for f in c.methods.values() if f.name.startswith(("extract_", "prune_"))]

    def uses(v, seen, out):
        if isinstance(v, (tuple, list)):
            for x in v:
                uses(x, seen, out)
        elif isinstance(v, (T.Term, T.Node)) and v not in seen:
            seen.add(v)
            if isinstance(v, T.Node):
                uses(v.var, seen, out)
                uses(list(v.kids), seen, out)
            elif v.op == "attr" and v.args[1] in names and v.args[0] is T.Term("sym", "self"):
                out.add(v)
            elif v.op != "isnone":
                uses(list(v.args), seen, out)

    for cls, name in entries:
        def go(I, s, o, name=name):
            n = 0
            for e in s.effects:
                n += 1
                if e.kind == "call" and str(e.target.args[0]) in extract:
                    continue
                if e.kind == "setattr":
                    continue
                out = set()
                uses([e.guard, e.target, e.key, e.value] + [x.dom for x in e.loops], set(), out)
                for a in out:
                    none = T.And(e.guard, I.isnone(a))
                    if none is not T.FALSE:
                        o.bad(f"self.{a.args[1]} is used before it is created", e.where())
            o.measure["uses_checked"] = n
        ctx.query(f"defined:{cls.split(':')[1]}{name}", "every table of variables a constraint or objective reads was created before by the same model", M + cls + name, go, keep=extract)


def ilp(ctx, *which):
    """Reference semantics of the constraint families of the models, by name."""
    N = "optimization.ilp_models.network_optimization:NetworkOptimization."
    solver = [".addConstraint", ".addVariable", ".setObjective", ".delConstraint"]
    table = {
        "site_decisions": (N + "create_site_decisions", "one binary per real site"),
        "flow_decisions": (N + "create_flow_decisions", "one non-negative flow per link"),
        "tdm_decisions": (N + "create_tdm_decisions", "one time share in [0, 1] per wireless link and channel"),
        "polarity_decisions": (N + "create_polarity_decisions", "one binary per distribution site unless polarities are ignored"),
        "shortage_decisions": (N + "create_shortage_decisions", "shortage of each demand site between 0 and its demand"),
        "sector_decisions": (N + "create_sector_decisions", "one binary per real sector, per channel for DN sectors"),
        "sector_channel": (N + "create_sector_channel_constraints", "at most one channel per sector"),
        "always_active_sector": (N + "create_always_active_sector_constraints", "given sectors are active"),
        "sector_site": (N + "create_sector_site_relationship", "an active sector needs its site"),
        "same_node": (N + "create_same_node_sector_relationship", "sectors of one node of one site are on together"),
        "tdm_sector": (N + "create_tdm_sector_relationship", "time shares of a sector sum to at most its activity, in each direction"),
        "pop_load": (N + "create_pop_load_constraints", "a POP sends at most its capacity"),
        "tdm_flow": (N + "create_tdm_flow_relationship", "flow within the time share of the link capacity"),
        "tdm_polarity": (N + "create_tdm_polarity_relationship", "used links join opposite polarities"),
        "flow_site": (N + "create_flow_site_relationship", "no flow through inactive sites"),
        "flow_balance": (N + "create_flow_balance_with_shortage", "flow conservation with shortage"),
        "inactive_flow": (N + "create_inactive_link_flow_constraints", "no flow on unavailable links"),
        "colocated": (N + "create_colocated_site_relationship", "one site per place; active ones may only be upgraded"),
        "decided_site": (N + "create_decided_site_constraints", "given sites keep their state"),
        "active_link_polarity": (N + "create_active_link_polarity_constraints", "given links join opposite polarities"),
        "cost_constraint": (N + "create_cost_constraint", "total cost within the budget"),
        "cost_objective": (N + "create_cost_objective", "total cost is minimised"),
        "extract_cost": (N + "_extract_cost", "sites and sectors of locations not already built"),
        "coverage_constraint": (N + "create_coverage_constraint", "coverage of the demand"),
        "coverage_objective": (N + "create_coverage_objective", "shortage minimised or common bandwidth maximised"),
    }
    K = {"reachable_with": [N + "_get_ignore_links", N + "_get_ignore_sites", N + "solve_connected_demand"],
         "reachable_without": [N + "_get_ignore_links", N + "_get_ignore_sites", O + "get_reachable_demand_sites"],
         "solve_demand": [N + "build_connected_demand_model", N + "reset_connected_demand_model"]}
    table.update({
        "ignore_links": (N + "_get_ignore_links", "links without capacity"),
        "reachable_with": (N + "_get_reachable_demand_sites_with_constraints", "connectable demand by optimization"),
        "reachable_without": (N + "_get_reachable_demand_sites_without_constraints", "connectable demand by search, every copy of a demand site"),
        "unit_flow": (N + "create_unit_flow_decisions", "one flow in [0, 1] per link"),
        "demand_decisions": (N + "create_demand_site_decisions", "one binary per demand site; sites are on unless unavailable or excluded"),
        "ignore_link_flow": (N + "create_ignore_link_flow_constraints", "no flow on unavailable and excluded links"),
        "unit_balance": (N + "create_unit_flow_balance_constraints", "flow conservation; demand is connected only with flow"),
        "demand_objective": (N + "create_demand_site_objective", "connected demand sites are maximised"),
        "solve_demand": (N + "solve_connected_demand", "the demand sites selected by the model"),
        "pop_feasible": (N + "check_pop_feasibility", "some POP has outgoing capacity"),
        "demand_feasible": (N + "check_demand_feasibility", "some demand has incoming capacity"),
        "timeout": (N + "did_problem_timeout", "the search did not finish"),
        "flat": (N + "_extract_flat_dictionary", "the value of each variable"),
        "sites_with_links": (N + "get_sites_with_active_links", "ends of selected links"),
        "sectors_with_links": (N + "get_sectors_with_active_links", "sectors of the nodes at the ends of selected links"),
        "create_model": (N + "create_model", "an empty problem with the configured limits"),
        "demand_model": (N + "create_connected_demand_model", "an empty problem with the configured limits"),
    })
    def spec(w):
        return ("ilps:" if w in SITE else "ilpr:" if w in RED else "ilpi:" if w in INT else "ilp:") + w
    S, C, V, F = ("optimization.ilp_models." + n for n in ("site_optimization:SiteOptimization.", "cost_optimization:MinCostNetwork.", "coverage_optimization:MaxCoverageNetwork.", "flow_optimization:MaxFlowNetwork."))
    SITE = {
        "s_init": (S + "__init__", "one channel, the given adversarial links, the connectable demand", [N + "__init__", S + "_compute_connectable_demand_sites"]),
        "c_init": (C + "__init__", "no adversarial link, no model yet", [S + "__init__"]),
        "v_init": (V + "__init__", "the given adversarial links", [S + "__init__"]),
        "connectable": (S + "_compute_connectable_demand_sites", "by optimization under polarity constraints, else by search", [N + "_get_reachable_demand_sites_with_constraints", N + "_get_reachable_demand_sites_without_constraints"]),
        "s_ignore_links": (S + "_get_ignore_links", "links without capacity and adversarial links", []),
        "s_ignore_sites": (S + "_get_ignore_sites", "sites excluded by an active site at the same place", []),
        "s_sector_decisions": (S + "create_sector_decisions", "a sector is on with its site", []),
        "adversarial_flow": (S + "create_adversarial_restrictions", "no flow on adversarial links", []),
        "compatible": (S + "_compatible_polarity", "opposite polarities unless given, wired or with a CN", []),
        "sectors_from_sites": (S + "get_sector_decisions_from_sites", "sectors are on with their site", []),
        "link_decisions": (S + "get_link_decisions_from_sectors_and_polarity", "a link is on iff its sites, sectors and polarities allow", [S + "_compatible_polarity"]),
        "s_extract": (S + "extract_solution", "decisions of the solution without unused elements", "extract"),
        "s_skeleton": (S + "set_up_problem_skeleton", "all documented families", "families"),
        "s_demand_model": (S + "build_connected_demand_model", "all documented families", "families"),
        "s_unit_flow": (S + "create_unit_flow_decisions", "time shares are the flows", []),
        "s_reset": (S + "reset_connected_demand_model", "no variable of the demand model survives", []),
        "s_cost_cov": (S + "add_cost_constraint_coverage_objective", "budget and coverage objective", "families"),
        "s_cov_cost": (S + "add_coverage_constraint_cost_objective", "coverage and cost objective", "families"),
        "c_build": (C + "build_model", "the skeleton, the coverage and the cost objective", "families"),
        "c_solve": (C + "solve", "the required coverage is the given one, also when the model is reused", "solve"),
        "v_build": (V + "build_model", "the skeleton, the budget and the coverage objective", "families"),
        "v_solve": (V + "solve", "needs a budget", "solve"),
        "f_init": (F + "__init__", "only active, non-redundant elements carry flow", [N + "__init__", N + "_get_reachable_demand_sites_without_constraints"] + QUERIES),
        "f_ignore_links": (F + "_get_ignore_links", "links without capacity and redundant links", []),
        "f_skeleton": (F + "set_up_problem_skeleton", "all documented families", "families"),
        "f_sites": (F + "create_site_decisions", "given", []),
        "f_sectors": (F + "create_sector_decisions", "given", []),
        "f_buffer": (F + "create_buffer_var", "non-negative", []),
        "f_objective": (F + "create_maximum_buffer_objective", "the common bandwidth is maximised", []),
        "f_balance": (F + "create_flow_balance_with_buffer", "every connected demand site receives the common bandwidth", []),
        "f_extract": (F + "extract_flow_solution", "the values of the solution", "extract"),
        "f_solve": (F + "solve", "set up, solve, extract", "solve"),
    }
    R, P, U = ("optimization.ilp_models." + n for n in ("redundancy_optimization:RedundantNetwork.", "pop_proposal_optimization:POPProposalNetwork.", "optimization_setup:OptimizationSetup."))
    A = "optimization.ilp_models.pop_proposal_optimization:_compute_access_candidate_topology"
    T = "common.topology_models.topology:Topology."
    RED = {
        "r_init": (R + "__init__", "the backhaul of the base network", [S + "__init__"]),
        "r_skeleton": (R + "setup_problem_skeleton", "all documented families", "families"),
        "r_sites": (R + "create_site_decisions", "one binary per backhaul site", []),
        "r_polarity": (R + "create_polarity_decisions", "one binary per backhaul site unless polarities are ignored", []),
        "r_flow": (R + "create_flow_decisions", "one unit flow per backhaul link and base DN", []),
        "r_shortage": (R + "create_shortage_decisions", "shortage of each base DN at most the sink capacity", []),
        "r_decided": (R + "create_decided_site_constraints", "given sites keep their state, no new POP", []),
        "r_inactive": (R + "create_inactive_link_flow_constraints", "no flow on unavailable links", []),
        "r_colocated": (R + "create_colocated_site_relationship", "one distribution site per place", []),
        "r_flow_site": (R + "create_flow_site_relationship", "node capacities of active sites", []),
        "r_balance": (R + "create_flow_balance_with_shortage", "flow conservation with shortage at the source and the sink", []),
        "r_flow_polarity": (R + "create_flow_polarity_constraints", "flow joins opposite polarities", []),
        "r_cost": (R + "create_cost_objective", "cost of everything not already built", []),
        "r_shortage_objective": (R + "create_shortage_objective", "total shortage is minimised", []),
        "r_shortage_solve": (R + "shortage_solve", "the shortage of the first solve is given to the second", "solve"),
        "r_solve": (R + "solve", "shortage first, then cost", "solve"),
        "r_extract": (R + "extract_redundancy_solution", "the decisions of the solution, given CNs unless upgraded", "extract"),
        "p_init": (P + "__init__", "access network without polarities, without forced POPs", [S + "__init__", A]),
        "p_access": (A, "DNs stand in for POPs and only links to CNs remain", [T + "remove_link", T + "get_colocated_sites", O + "mark_unreachable_components"]),
        "p_constraint": (P + "create_pop_constraint", "exactly the given and the extra POPs, as far as there are candidates", []),
        "p_model": (P + "add_pop_constraint_coverage_objective", "POP count and coverage objective", "families"),
        "p_solve": (P + "propose_pops", "the given POPs stay proposed", "solve"),
        "o_init": (U + "__init__", "set-up of a private copy of the parameters", [U + "extract_fixed_inputs", U + "set_up_topology_input", U + "create_links", "optimization.topology_preparation:validate_topology_status"]),
        "o_fixed": (U + "extract_fixed_inputs", "the statuses of the input", [T + "get_site_ids", T + "get_link_site_id_pairs", T + "get_sectorless_links", T + "get_sector_ids", T + "get_site_polarities"]),
        "o_wired": (U + "_get_wired_links", "ethernet links and the imaginary links", []),
        "o_links": (U + "create_links", "every link is incoming at its end and outgoing at its start", [U + "_get_wired_links"]),
        "o_input": (U + "set_up_topology_input", "locations, links, capacities, sectors and costs of the input", [T + "get_colocated_sites"]),
        "n_init": (N + "__init__", "nothing is decided before the model is built", [U + "__init__", N + "check_pop_feasibility", N + "check_demand_feasibility"]),
    }
    M = "optimization.ilp_models.interference_optimization:MinInterferenceNetwork."
    RF = "common.rf.link_budget_calculator:"
    maxtypes = N + "_get_max_and_valid_site_types_from_colocated_sites"
    INT = {
        "i_init": (M + "__init__", "given links may change, signal and noise of every link, capacity classes of every device", [N + "__init__", M + "_compute_connectable_demand_sites", RF + "log_to_linear", RF + "mbps_to_gbps"]),
        "i_connectable": (M + "_compute_connectable_demand_sites", "by optimization, else by search", [N + "_get_reachable_demand_sites_with_constraints", N + "_get_reachable_demand_sites_without_constraints"]),
        "i_ignore_sites": (M + "_get_ignore_sites", "everything that is not active", [M + "_get_active_sites"]),
        "i_skeleton": (M + "setup_problem_skeleton", "all documented families", "families"),
        "i_demand_model": (M + "build_connected_demand_model", "all documented families", "families"),
        "i_fixed": (M + "create_fixed_input_constraints_with_sectors", "given links, polarities and unavailable links", "families"),
        "i_reset": (M + "reset_connected_demand_model", "no variable of the demand model survives", []),
        "i_solve": (M + "solve", "total bandwidth when there is no common bandwidth", "solve"),
        "i_active_sites": (M + "_get_active_sites", "given sites, the largest type at each place", [maxtypes]),
        "i_sites": (M + "create_site_decisions", "given", [M + "_get_active_sites"]),
        "i_links": (M + "create_active_link_decisions", "one binary per wireless link with capacity and sectors", []),
        "i_deployment": (M + "create_deployment_link_decisions", "one binary per violating link and channel", []),
        "i_decided": (M + "create_decided_link_constraints", "given links stay, unavailable links are off", []),
        "i_p2mp": (M + "create_multi_point_contstraints", "point-to-multipoint limits of each sector", []),
        "i_flow_link": (M + "create_flow_link_relationship", "flow only on active links", []),
        "i_unit_flow": (M + "create_unit_flow_link_relationship", "flow only on active links", []),
        "i_cn": (M + "create_cn_link_constraints", "one active link into a CN", []),
        "i_sector_link": (M + "create_sector_link_constraints", "active links need both sectors on the same channel", []),
        "i_tdm_link": (M + "create_tdm_link_relationship", "time shares only on active links", []),
        "i_polarity": (M + "create_polarity_link_relationship", "active links join opposite polarities", []),
        "i_symmetric": (M + "create_symmetric_link_constraints", "both directions or none", []),
        "i_deployment_constraints": (M + "create_deployment_link_constraints", "deployment link iff link and both sectors are on the channel", []),
        "i_angles": (M + "create_angle_limit_guideline_constraints", "violating links are not active together on a channel", []),
        "i_interfering": (M + "get_interferering_links", "other links of the sectors heard by the receiver", ["common.geos:angle_delta"]),
        "i_rsl": (M + "get_interfering_rsl_expr", "interference in proportion to the time share", [M + "get_interferering_links"]),
        "i_compatible": (M + "create_tdm_compatible_polarity_decisions", "time share if the polarities are the same, else zero", [M + "get_interferering_links"]),
        "i_capacity": (M + "create_exact_capacity_constraints", "flow within the capacity class of the SINR", [M + "get_interfering_rsl_expr", M + "create_tdm_compatible_polarity_decisions"]),
        "i_objective": (M + "create_coverage_and_weighted_link_objective", "coverage first, then heavier links", [N + "_create_coverage_objective_expr"]),
        "i_link_decisions": (M + "get_link_decisions", "active links, links with flow, wired links between active sites", [N + "_extract_flat_dictionary"]),
        "i_sector_decisions": (M + "get_sector_and_channel_decisions", "channels of the DN sectors; CN sectors follow their link", [N + "_extract_flat_dictionary"]),
        "i_extract": (M + "extract_solution", "decisions of the solution without unused elements", "extract"),
        "types_at": (maxtypes, "the largest type at a place; only CNs are upgraded", []),
    }
    # a helper the reference does not name is part of its callers
    known = "".join(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", n + ".py")).read() for n in ("ilp", "ilps", "ilpr", "ilpi"))
    known = set(re.findall(r"[A-Za-z_]\w*", known))
    allm = [f.qual for m in ctx.p.modules.values() if ".ilp_models." in m.name for c in m.classes.values() for f in c.methods.values() if f.name in known]
    KINDS = {
        "families": lambda q: q.split(".")[-1].startswith(("create_", "set_up_", "setup_", "add_")) and not q.endswith("create_fixed_input_constraints_without_sectors"),
        "solve": lambda q: q.split(".")[-1].startswith(("create_", "set_up_", "setup_", "build_", "dump_", "extract_")),
        "extract": lambda q: q.split(".")[-1] in ("_extract_flat_dictionary", "prune_loops", "get_sector_decisions_from_sites", "get_link_decisions_from_sectors_and_polarity", "get_link_decisions", "get_sector_and_channel_decisions", "get_sectors_with_active_links", "get_sites_with_active_links", "_extract_cost"),
    }
    for w in which or list(table) + list(SITE) + list(RED) + list(INT):
        row = INT.get(w) or RED.get(w) or SITE.get(w) or table[w]
        fn, what = row[:2]
        keep = row[2] if len(row) > 2 else K.get(w, [])
        if isinstance(keep, str):
            keep = [q for q in allm if KINDS[keep](q) and q != fn] + [O + "compute_max_pop_capacity_of_topology"]
        ctx.equiv(fn, spec(w), keep=keep, obs=Observe(calls=solver + [".setControl", ".solve"], raises="any" if w == "o_input" else "class"), what=what)


def records(ctx, *which):
    """An element made from given values answers with these values."""
    for n, rest in (("site", "site_type location device status_type ..."), ("sector", "site node_id position ..."), ("link", "sites status ..."),
                    ("link_of_sectors", "sites of the sectors"), ("demand", "location number demand sites")):
        if not which or n in which:
            ctx.equiv(f"spec:rec:made_{n}", f"rec:given_{n}", obs=Observe(drop=lambda e: True, kept=False, raises=None), inline_new=("Site", "Sector", "Link", "DemandSite"), keep=["common.utils:deterministic_hash"], name=f"record:{n}",
                      what=f"the properties of a new {n.replace('_', ' ')} are what it was made from ({rest})")
    for n in ("site", "sector", "link"):
        if not which or n in which:
            ctx.equiv(f"spec:rec:restated_{n}", f"rec:stated_{n}", obs=Observe(drop=lambda e: True, kept=False, raises=None), inline_new=("Site", "Sector", "Link", "DemandSite"), keep=["common.utils:deterministic_hash"], name=f"record:status:{n}", what="an accepted status is the status read back")


def inputs(ctx):
    obs = Observe(drop=lambda e: True, kept=False, raises=None)
    ctx.equiv("spec:rec:empty_inputs", "rec:nothing", obs=obs, inline_new=("InputSites",), name="inputs:empty", what="no site before the first")
    ctx.equiv("spec:rec:one_input", "rec:just_it", obs=obs, inline_new=("InputSites",), keep=["common.geos:lat_lon_to_utm_epsg"], name="inputs:one", what="an added site is found by position, name and id")
