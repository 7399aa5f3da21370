"""Reference semantics of topology_report (only parsed, never imported)."""
import math
from collections import defaultdict
from collections import Counter
from typing import Any, Dict, List, Optional, Set, Tuple

import numpy as np
import pandas as pd

from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import LinkType, SectorType, SiteType, StatusType
from terragraph_planner.common.data_io.data_key import LinkKey, SectorKey, SiteKey
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs, find_sector_limit_violations, get_violating_link_ids
from terragraph_planner.optimization.ilp_models.flow_optimization import MaxFlowNetwork
from terragraph_planner.optimization.structs import (
    AnalysisResult, AngleViolatingLinkPairs, AvailabilityMetrics, DemandMetrics, DisjointPath, FailureDisruption, FlowMetrics,
    LinkMetrics, MetricStatistics, RoutingSolution, TopologyMetrics)
from terragraph_planner.optimization.topology_availability import compute_availability
from terragraph_planner.optimization.topology_component_counter import count_topology_components
from terragraph_planner.optimization.topology_networkx import build_digraph, disjoint_paths, get_topology_routing_results, single_edge_failures, single_site_failures
from terragraph_planner.optimization.topology_operations import compute_capex, hops_from_pops, update_link_caps_with_sinr
from terragraph_planner.optimization.topology_report import (
    add_statistics_to_topology, build_links_df, build_sectors_df, build_sites_df, get_routing_flow_solution, get_routing_topology, get_topology_metrics, site_flow_statistics)


def analysis(topology: Topology, params: OptimizerParams):
    graph = build_digraph(topology, {StatusType.PROPOSED, StatusType.EXISTING})
    if params.topology_routing is not None:
        get_routing_topology(topology, get_topology_routing_results(topology, graph, params.topology_routing))
    flow = get_routing_flow_solution(topology, params)
    disjoint = disjoint_paths(topology, graph)
    edges = single_edge_failures(graph)
    pops, dns = single_site_failures(graph)
    uptime: Dict[str, float] = {}
    if params.availability_sim_time > 0:
        uptime = compute_availability(graph, params.link_availability_percentage, params.availability_sim_time, 60 * params.availability_max_time, params.availability_seed if params.availability_seed >= 0 else None)[0]
    angles = find_angle_violating_link_pairs(topology, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, active_components=True)
    loads = find_sector_limit_violations(topology, params.dn_dn_sector_limit, params.dn_total_sector_limit)
    m = get_topology_metrics(topology, params, flow, disjoint, edges, pops, dns, uptime, angles, loads)
    add_statistics_to_topology(topology, flow, edges, pops, dns)
    n = m.counts
    links = build_links_df(topology, angles, loads) if n.active_backhaul_links + n.active_access_links + n.active_wired_links > 0 else pd.DataFrame()
    cost = {SiteType.POP: params.pop_site_capex, SiteType.DN: params.dn_site_capex, SiteType.CN: params.cn_site_capex}
    sites = build_sites_df(topology, cost) if n.active_sites > 0 else pd.DataFrame()
    sectors = build_sectors_df(topology, loads) if n.active_sectors > 0 else pd.DataFrame()
    return AnalysisResult(topology=topology, link_df=links, site_df=sites, sector_df=sectors, metrics=m)


def flow(topology: Topology, params: OptimizerParams):
    update_link_caps_with_sinr(topology, params, 10)
    s = MaxFlowNetwork(topology, params).solve()
    if s is None:
        return None
    use = {}
    for l in topology.links.values():
        if l.status_type not in {StatusType.PROPOSED, StatusType.EXISTING}:
            continue
        there = (l.tx_site.site_id, l.rx_site.site_id)
        back = (l.rx_site.site_id, l.tx_site.site_id)
        f = s.flow_decisions.get(there, 0)
        u = 100 * (f / l.capacity) if l.capacity > 0 else 0
        use[there] = u
        if back not in use:
            continue
        w = use[back]
        if math.isclose(u, 0, abs_tol=1e-5) or math.isclose(w, 0, abs_tol=1e-5):
            if u > w:
                use.pop(back)
            else:
                use.pop(there)
    return RoutingSolution(flow_solution=s, active_link_utilization=use)


def redundant_links(topology: Topology, route_links: Set[str]):
    for k, l in topology.links.items():
        back = topology.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        if k in route_links or back is not None and back.link_id in route_links:
            continue
        l.is_redundant = True


def statistics(topology: Topology, routing_solution: Optional[RoutingSolution], edge_failure_disruptions: Dict[Tuple[str, str], Set[str]], pop_failure_disruptions: Dict[str, Set[str]], dn_failure_disruptions: Dict[str, Set[str]]):
    for l in topology.links.values():
        if l.status_type not in {StatusType.PROPOSED, StatusType.EXISTING}:
            continue
        there = (l.tx_site.site_id, l.rx_site.site_id)
        if routing_solution:
            l.proposed_flow = routing_solution.flow_solution.flow_decisions.get(there, 0.0)
            l.utilization = routing_solution.active_link_utilization.get(there, 0.0)
        else:
            l.proposed_flow = 0.0
            l.utilization = 0.0
        l.breakdowns = len(edge_failure_disruptions.get(l.sorted_site_ids, []))
    for s in topology.sites.values():
        if s.site_type == SiteType.POP:
            s.breakdowns = len(pop_failure_disruptions.get(s.site_id, []))
        elif s.site_type == SiteType.DN:
            s.breakdowns = len(dn_failure_disruptions.get(s.site_id, []))
        else:
            s.breakdowns = 0


def metrics(topology: Topology, params: OptimizerParams, routing_solution: Optional[RoutingSolution], disjoint_paths: DisjointPath,
            edge_failure_disruptions: Dict[Tuple[str, str], Set[str]], pop_failure_disruptions: Dict[str, Set[str]], dn_failure_disruptions: Dict[str, Set[str]],
            availability: Dict[str, float], violating_links: AngleViolatingLinkPairs, violating_sectors: Dict[str, List[str]]):
    use = {StatusType.PROPOSED, StatusType.EXISTING}
    counts, skus, channels = count_topology_components(topology)
    demands = len(topology.demand_sites)
    at_pop = len(disjoint_paths.demand_connected_to_pop)
    share = 0
    if demands != 0 and at_pop < demands:
        share = 100 * (len(disjoint_paths.demand_with_disjoint_paths) / (demands - at_pop))
    total = sum(d.demand * d.num_sites for d in topology.demand_sites.values() if d.demand is not None)
    flow = None
    if routing_solution is not None:
        sol = routing_solution.flow_solution
        util = routing_solution.active_link_utilization.values()
        n = len(util)
        flow = FlowMetrics(
            total_bandwidth=sol.buffer_decision * len(sol.connected_demand_sites),
            minimum_bandwdith_for_connected_demand=sol.buffer_decision,
            link_capacity_utilization=MetricStatistics(avg=sum(util) / n, max=max(util), min=min(util)) if n > 0 else MetricStatistics(avg=0, max=0, min=0))

    backhaul_length = [l.distance for l in topology.links.values() if l.link_type == LinkType.WIRELESS_BACKHAUL and l.status_type in use]
    access_length = [l.distance for l in topology.links.values() if l.link_type == LinkType.WIRELESS_ACCESS and l.status_type in use]
    backhaul: Dict[str, Set[int]] = {s.sector_id: set() for s in topology.sectors.values() if s.sector_type == SectorType.DN and s.status_type in use}
    access: Dict[str, Set[int]] = {s.sector_id: set() for s in topology.sectors.values() if s.sector_type == SectorType.DN and s.status_type in use}
    for l in topology.links.values():
        if l.status_type not in use:
            continue
        if l.link_type == LinkType.WIRELESS_BACKHAUL:
            backhaul[l.tx_sector.sector_id].add(l.link_hash)
            backhaul[l.rx_sector.sector_id].add(l.link_hash)
        elif l.link_type == LinkType.WIRELESS_ACCESS:
            access[l.tx_sector.sector_id].add(l.link_hash)
    per_backhaul = [len(v) for v in backhaul.values()]
    per_access = [len(v) for v in access.values()]
    dn_sectors = counts.active_dn_sectors_on_pops + counts.active_dn_sectors_on_dns

    mcs = {}
    for l in topology.links.values():
        if l.status_type in use and l.link_type == LinkType.WIRELESS_BACKHAUL:
            mcs[l.sorted_site_ids] = l.mcs_level
    access_mcs = {}
    for l in topology.links.values():
        if l.status_type in use and l.link_type == LinkType.WIRELESS_ACCESS:
            access_mcs[l.sorted_site_ids] = l.mcs_level

    edges = [len(v) for v in edge_failure_disruptions.values()]
    pops = [len(v) for v in pop_failure_disruptions.values()]
    dns = [len(v) for v in dn_failure_disruptions.values()]
    values = np.array(list(availability.values()), dtype=float)
    return TopologyMetrics(
        capex=compute_capex(topology, params),
        counts=counts,
        active_site_sku_counter=skus,
        channel_occupancy_counter=channels,
        demand_metrics=DemandMetrics(
            number_of_demands=demands,
            number_of_disconnected_demands=len(disjoint_paths.disconnected_demand_locations),
            number_of_demands_connected_to_pops=at_pop,
            number_of_demands_with_disjoint_path=len(disjoint_paths.demand_with_disjoint_paths),
            percentage_of_demand_with_disjoint_path=share,
            total_demand=total,
            total_demand_oversubscribed=total / params.oversubscription,
        ),
        flow_metrics=flow,
        backhaul_link=LinkMetrics(
            active_count=counts.active_backhaul_links,
            links_per_sector=MetricStatistics(
                avg=sum(per_backhaul) / dn_sectors if dn_sectors > 0 else 0,
                max=max(per_backhaul) if len(per_backhaul) > 0 else 0,
                min=min(per_backhaul) if len(per_backhaul) > 0 else 0),
            link_dist=MetricStatistics(
                avg=sum(backhaul_length) / len(backhaul_length) if len(backhaul_length) > 0 else 0,
                max=max(backhaul_length) if len(backhaul_length) > 0 else 0,
                min=min(backhaul_length) if len(backhaul_length) > 0 else 0)),
        access_link=LinkMetrics(
            active_count=counts.active_access_links,
            links_per_sector=MetricStatistics(
                avg=sum(per_access) / dn_sectors if dn_sectors > 0 else 0,
                max=max(per_access) if len(per_access) > 0 else 0,
                min=min(per_access) if len(per_access) > 0 else 0),
            link_dist=MetricStatistics(
                avg=sum(access_length) / len(access_length) if len(access_length) > 0 else 0,
                max=max(access_length) if len(access_length) > 0 else 0,
                min=min(access_length) if len(access_length) > 0 else 0)),
        backhaul_mcs=Counter(sorted(mcs.values())),
        access_mcs=Counter(sorted(access_mcs.values())),
        availability_metrics=AvailabilityMetrics(
            avg=100.0 * float(np.mean(values)) if len(values) > 0 else 0,
            percentiles={p: 100.0 * float(np.percentile(values, p)) if len(values) > 0 else 0 for p in [0, 25, 50, 75, 100]}),
        failure_disruption=FailureDisruption(
            edge_fail_effect=MetricStatistics(
                avg=sum(edges) / len(edges) if len(edges) > 0 else 0,
                max=max(edges) if len(edges) > 0 else 0,
                min=min(edges) if len(edges) > 0 else 0),
            pop_fail_effect=MetricStatistics(
                avg=sum(pops) / counts.active_pop_sites if counts.active_pop_sites > 0 else 0,
                max=max(pops) if len(pops) > 0 else 0,
                min=min(pops) if len(pops) > 0 and len(pops) == counts.active_pop_sites else 0),
            dn_fail_effect=MetricStatistics(
                avg=sum(dns) / counts.active_dn_sites if counts.active_dn_sites > 0 else 0,
                max=max(dns) if len(dns) > 0 else 0,
                min=min(dns) if len(dns) > 0 and len(dns) == counts.active_dn_sites else 0)),
        diff_sector_link_violations=len(violating_links.diff_sector_list),
        near_far_link_violations=len(violating_links.near_far_list),
        sector_link_limit_violations=len(violating_sectors),
    )


def site_flow(topology: Topology):
    out = defaultdict(lambda: {"incoming": 0.0, "outgoing": 0.0})
    for l in topology.links.values():
        if l.status_type not in {StatusType.PROPOSED, StatusType.EXISTING} or l.tx_site.site_id == "SUPERSOURCE" or l.rx_site.site_id in topology.demand_sites:
            continue
        out[l.tx_site.site_id]["outgoing"] += l.proposed_flow
        out[l.rx_site.site_id]["incoming"] += l.proposed_flow
    return out


def links_table(topology: Topology, violating_links: AngleViolatingLinkPairs, violating_sectors: Dict[str, List[str]]):
    angle = get_violating_link_ids(topology, violating_links.diff_sector_list)
    near = get_violating_link_ids(topology, violating_links.near_far_list)
    rows = {}
    for k, l in topology.links.items():
        row = {}
        for col in LinkKey.csv_output_keys():
            name, value = col.get_output_name_and_value(l, digits_for_float=2, xml_output=False)
            if col == LinkKey.SECTORS:
                if l.link_type == LinkType.ETHERNET:
                    value = "WIRED CONNECTION"
                elif l.tx_sector is not None and l.rx_sector is not None:
                    value = f"{l.tx_sector.sector_id} --> {l.rx_sector.sector_id}"
                else:
                    value = "UNKNOWN"
            if col == LinkKey.CHANNEL:
                value = str(l.link_channel) if l.link_channel > -1 else "UNASSIGNED"
            if col == LinkKey.VIOLATES_DIFF_SECTOR_ANGLE:
                value = l.link_id in angle
            if col == LinkKey.VIOLATES_NEAR_FAR:
                value = k in near
            if col == LinkKey.VIOLATES_SECTOR_LIMIT:
                value = l.tx_sector is not None and l.tx_sector.sector_id in violating_sectors
            row[name] = value
        rows[k] = row
    return pd.DataFrame([pd.Series(rows[k]) for k in rows]).set_index(LinkKey.LINK_GEOHASH.value.output_name)


def sectors_table(topology: Topology, violating_sectors: Dict[str, List[str]]):
    use = {StatusType.PROPOSED, StatusType.EXISTING}
    backhaul: Dict[str, Set[int]] = {s.sector_id: set() for s in topology.sectors.values()}
    access: Dict[str, Set[int]] = {s.sector_id: set() for s in topology.sectors.values()}
    for l in topology.links.values():
        if l.status_type not in use:
            continue
        if l.link_type == LinkType.WIRELESS_BACKHAUL:
            backhaul[l.tx_sector.sector_id].add(l.link_hash)
            backhaul[l.rx_sector.sector_id].add(l.link_hash)
        if l.link_type == LinkType.WIRELESS_ACCESS:
            access[l.tx_sector.sector_id].add(l.link_hash)
            access[l.rx_sector.sector_id].add(l.link_hash)
    rows = {}
    for k, s in topology.sectors.items():
        if s.status_type not in use:
            continue
        row = {}
        for col in SectorKey.csv_output_keys():
            name, value = col.get_output_name_and_value(s, digits_for_float=1, xml_output=False)
            if col == SectorKey.CHANNEL:
                value = str(s.channel) if s.channel > -1 else "UNASSIGNED"
            if col == SectorKey.ACTIVE_BACKHAUL_LINKS:
                value = len(backhaul[k])
            if col == SectorKey.ACTIVE_ACCESS_LINKS:
                value = len(access[k])
            if col == SectorKey.VIOLATES_LINK_LOAD:
                value = k in violating_sectors
            row[name] = value
        rows[k] = row
    out = pd.DataFrame([pd.Series(rows[k]) for k in rows]).set_index(SectorKey.SECTOR_ID.value.output_name)
    cols = [SectorKey.AZIMUTH_ORIENTATION.value.output_name]
    out[cols] = out[cols].astype(np.float32)
    return out


def sites_table(topology: Topology, site_type_to_cost: Dict[SiteType, float]):
    use = {StatusType.PROPOSED, StatusType.EXISTING}
    nodes: Dict[str, Set[int]] = {s.site_id: set() for s in topology.sites.values()}
    sectors: Dict[str, Set[str]] = {s.site_id: set() for s in topology.sites.values()}
    links: Dict[str, Set[int]] = {s.site_id: set() for s in topology.sites.values()}
    for x in topology.sectors.values():
        if x.status_type in use:
            nodes[x.site.site_id].add(x.node_id)
            sectors[x.site.site_id].add(x.sector_id)
    for l in topology.links.values():
        if l.status_type in use and l.link_type != LinkType.ETHERNET:
            links[l.tx_site.site_id].add(l.link_hash)
            links[l.rx_site.site_id].add(l.link_hash)
    hops = hops_from_pops(topology, status_filter=use)
    flow = site_flow_statistics(topology)
    rows = {}
    for k, s in topology.sites.items():
        row = {}
        for col in SiteKey.csv_output_keys():
            digits = 6 if col in {SiteKey.LATITUDE, SiteKey.LONGITUDE, SiteKey.ALTITUDE} else 1
            name, value = col.get_output_name_and_value(s, digits_for_float=digits, xml_output=False)
            if col == SiteKey.SITE_CAPEX:
                value = site_type_to_cost[s.site_type]
            if col == SiteKey.ACTIVE_NODES:
                value = len(nodes[k])
            if col == SiteKey.ACTIVE_SECTORS:
                value = len(sectors[k])
            if col == SiteKey.ACTIVE_LINKS:
                value = len(links[k])
            if col == SiteKey.HOPS_TO_NEAREST_POP:
                value = hops.get(k, "disconnected")
            if col == SiteKey.OUTGOING_FLOW:
                value = flow.get(s.site_id, {}).get("outgoing", 0)
            if col == SiteKey.INCOMING_FLOW:
                value = flow.get(s.site_id, {}).get("incoming", 0)
            row[name] = value
        rows[k] = row
    if len([s.site_id for s in topology.sites.values() if s.name]) > 0:
        for s in topology.sites.values():
            rows[s.site_id][SiteKey.NAME.value.output_name] = s.name
    out = pd.DataFrame([pd.Series(rows[k]) for k in rows])
    out.fillna(0, inplace=True)
    cols = [SiteKey.LATITUDE.value.output_name, SiteKey.LONGITUDE.value.output_name]
    out[cols] = out[cols].astype(np.float32)
    return out
