from checks import areas


def run(ctx):
    areas.networks(ctx, "edge_failures", "site_failures", "disjoint", "disruptive")
    areas.untouched(ctx)
