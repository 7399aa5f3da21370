from checks import areas


def run(ctx):
    areas.operations(ctx, "capex")
    areas.ilp(ctx, "cost_constraint", "cost_objective", "extract_cost", "r_cost", "o_input")
