from checks import areas, con


def run(ctx):
    con.constants(ctx, "EPSILON", "UNASSIGNED_CHANNEL")
    areas.pipeline(ctx, "run", "run_file", "check", "plan", "cost", "pops", "coverage", "redundancy", "interference", "update")
    areas.operations(ctx, "unreachable", "prepare", "status_ok", "same_node")
    areas.given_active_links(ctx)
    areas.ilp(ctx, "c_solve", "v_solve", "f_solve", "i_solve", "r_solve", "r_shortage_solve", "p_solve", "solve_demand", "s_extract", "link_decisions", "sectors_from_sites",
              "i_link_decisions", "i_sector_decisions", "i_extract", "r_extract", "f_extract", "flat", "sites_with_links", "sectors_with_links", "timeout", "pop_feasible", "demand_feasible")
