from vstat import passes
from vstat.compare import Observe

M = "common.topology_models.topology:Topology."


def run(ctx):
    for m in ("add_site", "remove_site", "add_demand_site", "remove_demand_site", "add_sector", "remove_sector", "add_link", "remove_link"):
        ctx.equiv(M + m, f"c04:{m}", obs=Observe(ret=False, kept=False, raises="any"), what="indices and refusals of one operation")
    for m, r in (("get_successor_sites", "successors"), ("get_predecessor_sites", "predecessors"), ("get_link_by_site_ids", "by_site_ids"),
                 ("get_link_by_sector_ids", "by_sector_ids"), ("get_reverse_link", "reverse_link"), ("sector_connectivity", "sector_connectivity"),
                 ("sector_connectivity_reverse", "sector_connectivity_reverse"), ("get_site_ids", "site_ids"), ("get_link_site_id_pairs", "link_pairs"),
                 ("get_sectorless_links", "sectorless"), ("get_sector_ids", "sector_ids"), ("get_site_polarities", "polarities")):
        ctx.equiv(M + m, f"c04:{r}", obs=Observe(kept=False, raises="any"), what="query answers from the indices")
    add = [M + m for m in ("add_site", "add_demand_site", "add_sector", "add_link")]
    ctx.equiv(M + "__init__", "c04:topology_init", keep=add, what="an empty topology, then every element through the checked additions")
    ask = [M + m for m in ("get_successor_sites", "get_predecessor_sites", "get_link_by_site_ids")]
    ctx.equiv(M + "get_wireless_successor_sites", "c04:wireless_successors", keep=ask, obs=Observe(kept=False, raises="any"), what="neighbours over the link that leads to them")
    ctx.equiv(M + "get_wireless_predecessor_sites", "c04:wireless_predecessors", keep=ask, obs=Observe(kept=False, raises="any"), what="neighbours over the link that comes from them")
    ctx.equiv(M + "get_colocated_sites", "c04:colocated", obs=Observe(kept=False, raises="any"), what="every site in the group of its place")
    ctx.equiv(M + "sort", "c04:sorted_topology", what="the same elements in order")
    passes.index_writers(ctx, "index-writers", {"sites", "sectors", "links", "site_id_to_sector_ids", "site_connectivity", "site_connectivity_reverse"},
                         "common.topology_models.topology:Topology")
