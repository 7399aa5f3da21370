from checks import areas, con


def run(ctx):
    con.constants(ctx, "UNKNOWN_BUILDING_ID")
    areas.demand(ctx, "add_demand", "cn_demand", "uniform", "near_cns")
    areas.operations(ctx, "colocated")
