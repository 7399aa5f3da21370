"""Reference semantics of topology_component_counter (only parsed, never imported)."""
from collections import Counter
from typing import Container, Dict, Optional
from terragraph_planner.common.configuration.enums import LinkType, SectorType, SiteType, StatusType
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.structs import ComponentCounts, TopologyCounts
from terragraph_planner.optimization.topology_component_counter import _component_counter, _redundant_sites_counter
from terragraph_planner.optimization.topology_operations import hops_from_pops

PRIVATE = {'_component_counter': 'components', '_redundant_sites_counter': 'redundant'}


def components(topology: Topology, active_components: bool):
    use = {StatusType.PROPOSED, StatusType.EXISTING} if active_components else set(StatusType)
    sites = [s for s in topology.sites.values() if s.status_type in use]
    sectors = [s for s in topology.sectors.values() if s.status_type in use]
    links = [l for l in topology.links.values() if l.status_type in use]
    channel = {}
    for l in links:
        if l.is_wireless:
            channel[l.sorted_site_ids] = l.link_channel
    return ComponentCounts(
        site_counts_by_type=Counter(s.site_type for s in sites),
        site_counts_by_sku=Counter(s.device.device_sku for s in sites),
        node_counts_by_type={t: len({(s.site.site_id, s.node_id) for s in sectors if s.sector_type == t}) for t in list(SectorType)},
        sector_counts_by_type=Counter(s.sector_type for s in sectors),
        link_counts_by_type={t: len({l.link_hash for l in links if l.link_type == t}) for t in list(LinkType)},
        link_counts_by_channel=Counter(channel.values()),
        demand_connected_sites_by_type={t: len({s.site_id for d in topology.demand_sites.values() for s in d.connected_sites if s.site_type == t and s.status_type in use}) for t in list(SiteType)},
        dn_sectors_on_pops=len([s for s in sectors if s.sector_type == SectorType.DN and s.site.site_type == SiteType.POP]),
    )


def redundant(topology: Topology, site_subset: Optional[Container[str]]):
    out: Dict[SiteType, int] = {t: 0 for t in set(SiteType)}
    for ids in topology.get_colocated_sites().values():
        n: Dict[SiteType, int] = {t: 0 for t in set(SiteType)}
        for i in ids:
            if i in topology.sites and (site_subset is None or i in site_subset):
                n[topology.sites[i].site_type] += 1
        for t in n:
            if n[t] > 1:
                out[t] += n[t] - 1
    return out


def counts(topology: Topology):
    a = _component_counter(topology, active_components=True)
    t = _component_counter(topology, active_components=False)
    double = _redundant_sites_counter(topology, None)
    hops = hops_from_pops(topology, status_filter={StatusType.PROPOSED, StatusType.EXISTING, StatusType.CANDIDATE})
    double_reached = _redundant_sites_counter(topology, hops)
    serving: Dict[str, int] = {}
    for l in topology.links.values():
        cn = l.rx_site
        if cn.site_type == SiteType.CN and cn.status_type in {StatusType.PROPOSED, StatusType.EXISTING} and l.tx_sector is not None and l.tx_sector.status_type in {StatusType.PROPOSED, StatusType.EXISTING}:
            serving[cn.site_id] = serving.get(cn.site_id, 0) + 1
    return (
        TopologyCounts(
            active_sites=a.site_counts_by_type[SiteType.POP] + a.site_counts_by_type[SiteType.DN] + a.site_counts_by_type[SiteType.CN],
            total_sites=t.site_counts_by_type[SiteType.POP] + t.site_counts_by_type[SiteType.DN] + t.site_counts_by_type[SiteType.CN] - (double[SiteType.POP] + double[SiteType.DN] + double[SiteType.CN]),
            active_pop_sites=a.site_counts_by_type[SiteType.POP],
            total_pop_sites=t.site_counts_by_type[SiteType.POP] - double[SiteType.POP],
            active_dn_sites=a.site_counts_by_type[SiteType.DN],
            total_dn_sites=t.site_counts_by_type[SiteType.DN] - double[SiteType.DN],
            active_cn_sites=a.site_counts_by_type[SiteType.CN],
            connectable_dn_sites=len([k for k, s in topology.sites.items() if s.site_type == SiteType.DN and k in hops]) - double_reached[SiteType.DN],
            connectable_cn_sites=len([k for k, s in topology.sites.items() if s.site_type == SiteType.CN and k in hops]) - double_reached[SiteType.CN],
            total_cn_sites=t.site_counts_by_type[SiteType.CN] - double[SiteType.CN],
            active_cns_with_backup_dns=len([n for n in serving.values() if n > 1]),
            active_demand_connected_pop_sites=a.demand_connected_sites_by_type[SiteType.POP],
            active_demand_connected_dn_sites=a.demand_connected_sites_by_type[SiteType.DN],
            active_demand_connected_cn_sites=a.demand_connected_sites_by_type[SiteType.CN],
            active_nodes=a.node_counts_by_type[SectorType.DN] + a.node_counts_by_type[SectorType.CN],
            total_nodes=t.node_counts_by_type[SectorType.DN] + t.node_counts_by_type[SectorType.CN],
            active_dn_nodes=a.node_counts_by_type[SectorType.DN],
            total_dn_nodes=t.node_counts_by_type[SectorType.DN],
            active_cn_nodes=a.node_counts_by_type[SectorType.CN],
            total_cn_nodes=t.node_counts_by_type[SectorType.CN],
            active_sectors=a.sector_counts_by_type[SectorType.DN] + a.sector_counts_by_type[SectorType.CN],
            total_sectors=t.sector_counts_by_type[SectorType.DN] + t.sector_counts_by_type[SectorType.CN],
            active_dn_sectors_on_pops=a.dn_sectors_on_pops,
            active_dn_sectors_on_dns=a.sector_counts_by_type[SectorType.DN] - a.dn_sectors_on_pops,
            active_cn_sectors=a.sector_counts_by_type[SectorType.CN],
            active_backhaul_links=a.link_counts_by_type[LinkType.WIRELESS_BACKHAUL],
            total_backhaul_links=t.link_counts_by_type[LinkType.WIRELESS_BACKHAUL],
            active_access_links=a.link_counts_by_type[LinkType.WIRELESS_ACCESS],
            total_access_links=t.link_counts_by_type[LinkType.WIRELESS_ACCESS],
            active_wired_links=a.link_counts_by_type[LinkType.ETHERNET],
            total_wired_links=t.link_counts_by_type[LinkType.ETHERNET],
        ),
        dict(a.site_counts_by_sku),
        dict(a.link_counts_by_channel),
    )
