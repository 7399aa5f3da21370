from checks import areas


def run(ctx):
    areas.networks(ctx, "digraph", "connected", "dpa", "routing", "disjoint", "edge_failures", "site_failures", "disruptive")
    areas.operations(ctx, "hops", "reachable", "popcap")
    areas.counts(ctx, "components", "redundant", "counts")
    areas.report(ctx, "analyze", "flow", "redundant", "statistics", "metrics", "site_flow", "links", "sectors", "sites")
