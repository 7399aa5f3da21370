from checks import areas, con

N = "optimization.ilp_models."
T = "common.topology_models.topology:Topology."
M = "common.topology_models."
Q = [T + n for n in ("get_successor_sites", "get_predecessor_sites", "get_link_by_site_ids")]
EXC = {"OptimizerException": []}


def run(ctx):
    con.constants(ctx, "BACKHAUL_LINK_TYPE_WEIGHT")
    areas.operations(ctx, "adversarial", "colocated")
    areas.networks(ctx, "disruptive")
    build = [M + "site:Site.__init__", M + "sector:Sector.__init__", M + "link:Link.__init__", T + "add_site", T + "add_sector", T + "add_link"]
    ctx.equiv(N + "pop_proposal_optimization:add_duplicate_pop_to_dn_site", "c34:duplicate", keep=Q + build + ["optimization.topology_demand:connect_demand_to_colocated_sites"], obs=areas.pure(*Q), what="a candidate POP like each selected DN, with its sectors and links")
    ctx.equiv(N + "redundancy_optimization:compute_candidate_edges_for_redundancy", "c34:usable", keep=Q, obs=areas.pure(*Q), fields=EXC, what="links of disjoint paths from each active POP to each active DN, and between DNs close by")
