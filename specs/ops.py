import math
from itertools import product
from typing import Dict, List, Optional, Set, Tuple

from pyre_extensions import none_throws

from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException, TopologyException
from terragraph_planner.common.rf.link_budget_calculator import (
    adjust_tx_power_with_backoff, fspl_based_estimation, get_fspl_based_rsl, get_link_capacity_from_mcs, get_max_tx_power, get_mcs_from_snr, get_noise_power, get_snr)
from terragraph_planner.common.structs import LinkBudgetMeasurements
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.constants import BACKHAUL_LINK_TYPE_WEIGHT, EPSILON
from terragraph_planner.optimization.structs import Capex
from terragraph_planner.optimization.topology_demand import add_demand_to_topology
from terragraph_planner.optimization.topology_interference import analyze_interference, compute_link_net_gain_map
from terragraph_planner.optimization.topology_networkx import build_digraph, find_most_disruptive_links
from terragraph_planner.optimization.topology_operations import hops_from_pops, _find_colocated_sites_to_remove
from terragraph_planner.optimization.topology_preparation import add_link_capacities, add_sectors_to_links, find_best_sectors, setup_node_structure

PRIVATE = {'_find_colocated_sites_to_remove': 'colocated_to_remove'}


def hops(topology: Topology, status_filter: Optional[Set[StatusType]], ignore_sites: Optional[Set[str]] = None, ignore_links: Optional[Set[Tuple[str, str]]] = None):
    allowed = set(StatusType) if status_filter is None else status_filter
    no_sites = ignore_sites or set()
    no_links = ignore_links or set()
    reached = {k for k in topology.get_site_ids(status_filter=allowed, site_type_filter={SiteType.POP}) if k not in no_sites}
    count = {}
    if len(reached) == 0:
        return count
    n = 0
    for k in reached:
        count[k] = n
    while True:
        n += 1
        ends = [[l.tx_site.site_id, l.rx_site.site_id] for l in topology.links.values() if l.tx_site.site_id in reached and l.status_type in allowed and (l.tx_site.site_id, l.rx_site.site_id) not in no_links]
        found = {k for pair in ends for k in pair if topology.sites[k].status_type in allowed and k not in reached and k not in no_sites}
        if len(found) > 0:
            for k in found:
                count[k] = n
        else:
            break
        reached |= found
    return count


def reachable_demand(topology: Topology, status_filter: Set[StatusType], ignore_sites: Optional[Set[str]] = None, ignore_links: Optional[Set[Tuple[str, str]]] = None):
    near = hops_from_pops(topology, status_filter=status_filter, ignore_sites=ignore_sites, ignore_links=ignore_links)
    return {d.demand_id for d in topology.demand_sites.values() if any(s.site_id in near for s in d.connected_sites)}


def unreachable(topology: Topology, maximum_hops: Optional[int]):
    near = hops_from_pops(topology, status_filter=StatusType.reachable_status())
    for k, site in topology.sites.items():
        if site.status_type != StatusType.CANDIDATE:
            continue
        if k in near and not (maximum_hops and near[k] > maximum_hops):
            continue
        site.status_type = StatusType.UNREACHABLE
        for other in topology.get_successor_sites(site):
            topology.get_link_by_site_ids(k, other.site_id).status_type = StatusType.UNREACHABLE
        for other in topology.get_predecessor_sites(site):
            topology.get_link_by_site_ids(other.site_id, k).status_type = StatusType.UNREACHABLE
    for sector in topology.sectors.values():
        if sector.site.status_type == StatusType.UNREACHABLE:
            sector.status_type = StatusType.UNREACHABLE


def pop_capacity(topology: Topology, pop_capacity: float, status_filter: Set[StatusType]):
    radio = {}
    wired = {}
    for l in topology.links.values():
        if l.status_type not in status_filter or l.tx_site.site_type != SiteType.POP:
            continue
        if l.tx_site.status_type not in status_filter or l.rx_site.status_type not in status_filter:
            continue
        k = l.tx_site.site_id
        if l.link_type == LinkType.ETHERNET:
            wired.setdefault(k, []).append(l.capacity)
        elif not l.is_out_of_sector():
            radio.setdefault(k, {}).setdefault(l.tx_sector.sector_id, []).append(l.capacity)
    total = 0.0
    for k in topology.get_site_ids(site_type_filter={SiteType.POP}):
        out = 0
        if k in radio:
            for caps in radio[k].values():
                out += max(caps) if len(caps) > 0 else 0.0
        if k in wired:
            out += sum(wired[k])
        total += min(out, pop_capacity)
    return total


def colocated_to_remove(topology: Topology):
    drop = set()
    active = topology.get_site_ids(status_filter=StatusType.active_status())
    for group in topology.get_colocated_sites().values():
        chosen = active.intersection(set(group))
        if len(chosen) == 0:
            continue
        best = SiteType.CN
        for k in chosen:
            if topology.sites[k].site_type == SiteType.DN and best != SiteType.POP:
                best = SiteType.DN
            elif topology.sites[k].site_type == SiteType.POP:
                best = SiteType.POP
        ok = set()
        if best == SiteType.CN:
            ok = {SiteType.CN, SiteType.DN, SiteType.POP}
        elif best == SiteType.DN:
            ok = {SiteType.DN}
        elif best == SiteType.POP:
            ok = {SiteType.POP}
        for k in group:
            t = topology.sites[k].site_type
            if t not in ok or (t == best and k not in active):
                drop.add(k)
    return drop


def adversarial(topology: Topology, adversarial_links_ratio: float):
    n = len([l for l in topology.links.values() if l.status_type in StatusType.active_status() and l.link_type == LinkType.WIRELESS_BACKHAUL])
    if n == 0 or adversarial_links_ratio == 0:
        return set()
    active = build_digraph(topology, StatusType.active_status())
    graph = build_digraph(topology, StatusType.reachable_status())
    for l in topology.links.values():
        a = l.tx_site.site_id
        b = l.rx_site.site_id
        if l.capacity <= 0 and graph.has_edge(a, b):
            graph.remove_edge(a, b)
    for k in _find_colocated_sites_to_remove(topology):
        if k in graph:
            graph.remove_node(k)
    return find_most_disruptive_links(proposed_graph=active, candidate_graph=graph, count=math.ceil(n * adversarial_links_ratio))


def capex(topology: Topology, params: OptimizerParams):
    existing = {(s.site.site_id, s.node_id) for s in topology.sectors.values() if s.status_type == StatusType.EXISTING}
    proposed = 0
    built = 0
    done = set()
    for s in topology.sectors.values():
        node = (s.site.site_id, s.node_id)
        if s.status_type not in StatusType.active_status() or node in done:
            continue
        done.add(node)
        if node in existing:
            built += s.site.device.node_capex
        else:
            proposed += s.site.device.node_capex
    cost = {SiteType.POP: params.pop_site_capex, SiteType.DN: params.dn_site_capex, SiteType.CN: params.cn_site_capex}
    for site in topology.sites.values():
        if site.status_type == StatusType.PROPOSED:
            proposed += cost[site.site_type]
        elif site.status_type == StatusType.EXISTING:
            built += cost[site.site_type]
    return Capex(total_capex=proposed + built, proposed_capex=proposed)


def same_node(topology: Topology):
    nodes = {(s.site.site_id, s.node_id) for s in topology.sectors.values() if s.status_type == StatusType.PROPOSED}
    for s in topology.sectors.values():
        if (s.site.site_id, s.node_id) in nodes:
            s.status_type = StatusType.PROPOSED


def capacities(topology: Topology, params: OptimizerParams, with_deviation: bool):
    power = {}
    for d in params.device_list:
        power[d.device_sku] = get_max_tx_power(tx_sector_params=d.sector_params, max_eirp_dbm=params.maximum_eirp)
    for l in topology.links.values():
        if l.link_type == LinkType.ETHERNET:
            l.link_budget = LinkBudgetMeasurements(mcs_level=0, rsl_dbm=-math.inf, snr_dbm=-math.inf, capacity=params.pop_capacity, tx_power=-math.inf)
        elif l.is_out_of_sector():
            l.link_budget = LinkBudgetMeasurements(mcs_level=0, rsl_dbm=-math.inf, snr_dbm=-math.inf, capacity=0, tx_power=-math.inf)
        else:
            tx = topology.sites[l.tx_site.site_id].device.sector_params
            rx = topology.sites[l.rx_site.site_id].device.sector_params
            if with_deviation:
                l.link_budget = fspl_based_estimation(
                    distance=l.distance, max_tx_power=power[l.tx_site.device.device_sku], tx_sector_params=tx, rx_sector_params=rx, mcs_snr_mbps_map=rx.mcs_map,
                    tx_deviation=none_throws(l.tx_dev), rx_deviation=none_throws(l.rx_dev), tx_el_deviation=l.el_dev,
                    rx_el_deviation=0.0 if l.link_type == LinkType.WIRELESS_ACCESS else -l.el_dev,
                    tx_scan_pattern_data=tx.scan_pattern_data, rx_scan_pattern_data=rx.scan_pattern_data)
            else:
                l.link_budget = fspl_based_estimation(
                    distance=l.distance, max_tx_power=power[l.tx_site.device.device_sku], tx_sector_params=tx, rx_sector_params=rx, mcs_snr_mbps_map=rx.mcs_map,
                    tx_deviation=0.0, rx_deviation=0.0, tx_el_deviation=0.0, rx_el_deviation=0.0, tx_scan_pattern_data=None, rx_scan_pattern_data=None)


def prepare(topology: Topology, params: OptimizerParams):
    setup_node_structure(topology)
    add_link_capacities(topology, params, with_deviation=False)
    add_demand_to_topology(topology, params)


def status_ok(topology: Topology):
    active = StatusType.active_status()
    dead = StatusType.inactive_status()
    for l in topology.links.values():
        back = topology.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        if back is None:
            if l.link_type != LinkType.WIRELESS_ACCESS:
                raise TopologyException
            continue
        if l.status_type != back.status_type:
            raise TopologyException
        wired = l.link_type == LinkType.ETHERNET
        a, b, s, t = l.tx_site.status_type, l.rx_site.status_type, l.tx_sector, l.rx_sector
        if l.status_type == StatusType.EXISTING:
            if not (a == StatusType.EXISTING and b == StatusType.EXISTING):
                raise TopologyException
            if not wired and not (s is not None and s.status_type == StatusType.EXISTING and t is not None and t.status_type == StatusType.EXISTING):
                raise TopologyException
        elif l.status_type == StatusType.PROPOSED:
            if a not in active or b not in active:
                raise TopologyException
            if not wired and not (s is not None and s.status_type in active and t is not None and t.status_type in active):
                raise TopologyException
        elif l.status_type == StatusType.CANDIDATE:
            if a in dead or b in dead:
                raise TopologyException
            if s is not None and s.status_type in dead or t is not None and t.status_type in dead:
                raise TopologyException


def readjust(topology: Topology, params: OptimizerParams):
    of_site: Dict[str, List[Sector]] = {}
    channel: Dict[str, int] = {}
    for s in topology.sectors.values():
        of_site.setdefault(s.site.site_id, []).append(s)
    near: Dict[str, List[Site]] = {k: [] for k in topology.sites}
    seen: Dict[str, Set[str]] = {k: set() for k in topology.sites}
    for k, l in topology.links.items():
        if l.status_type in StatusType.active_status() and l.is_wireless:
            a = l.tx_site.site_id
            b = l.rx_site.site_id
            if b not in seen[a]:
                seen[a].add(b)
                near[a].append(l.rx_site)
            if a not in seen[b]:
                seen[b].add(a)
                near[b].append(l.tx_site)
            channel[k] = l.link_channel
    old = []
    new = []
    for k, site in topology.sites.items():
        rp = site.device.sector_params
        pairs: List[Tuple[str, int]] = []
        for other in near[k]:
            l = topology.get_link_by_site_ids(site.site_id, other.site_id)
            if l is not None:
                pairs.append((none_throws(l.tx_sector).sector_id, channel[l.link_id]))
        several = len({c[1] for c in pairs}) > 1
        angles = find_best_sectors(
            site=site, neighbor_site_list=near[k], number_of_nodes=site.device.number_of_nodes_per_site, number_of_sectors_per_node=rp.number_sectors_per_node,
            horizontal_scan_range=rp.horizontal_scan_range, dn_dn_sector_limit=params.dn_dn_sector_limit, dn_total_sector_limit=params.dn_total_sector_limit,
            diff_sector_angle_limit=params.diff_sector_angle_limit, near_far_angle_limit=params.near_far_angle_limit, near_far_length_ratio=params.near_far_length_ratio,
            backhaul_link_type_weight=BACKHAUL_LINK_TYPE_WEIGHT, sector_channel_list=pairs if several else None)
        if len(angles) == 0:
            continue
        for s in of_site.get(k, []):
            old.append(s.sector_id)
        for i, node in enumerate(angles):
            for j, azimuth in enumerate(node):
                new.append(Sector(site=site, node_id=i, position_in_node=j, ant_azimuth=azimuth, status_type=StatusType.CANDIDATE))
    for k in old:
        topology.remove_sector(k)
    for s in new:
        topology.add_sector(s)
    for l in topology.links.values():
        if l.rx_site.site_type == SiteType.CN and l.rx_site.status_type not in StatusType.active_status():
            if l.status_type in StatusType.active_status():
                raise OptimizerException
            l.clear_sectors()
    add_sectors_to_links(topology, force_full_cn_scan_range=False, link_channel_map=channel)
    same_node(topology)


def sinr_caps(topology: Topology, params: OptimizerParams, max_iterations: int):
    if max_iterations < 1:
        raise OptimizerException
    add_link_capacities(topology, params, with_deviation=True)
    gain = {}
    for l in topology.links.values():
        gain[l.link_id] = l.rsl_dbm - l.tx_power
    active = [l for l in topology.links.values() if l.status_type in StatusType.active_status() and l.link_type != LinkType.ETHERNET]
    power = {}
    for d in params.device_list:
        power[d.device_sku] = get_max_tx_power(tx_sector_params=d.sector_params, max_eirp_dbm=params.maximum_eirp)
    net = compute_link_net_gain_map(topology)
    if len(active) > 0:
        for _ in range(max_iterations):
            analyze_interference(topology, net)
            stable = 0
            for l in active:
                tx = topology.sites[l.tx_site.site_id].device.sector_params
                rx = topology.sites[l.rx_site.site_id].device.sector_params
                noise = get_noise_power(rx)
                l.mcs_level = get_mcs_from_snr(l.sinr_dbm, rx.mcs_map)
                l.capacity = get_link_capacity_from_mcs(l.mcs_level, rx.mcs_map)
                before = l.tx_power
                l.mcs_level, l.tx_power = adjust_tx_power_with_backoff(
                    mcs_level=l.mcs_level, mcs_snr_mbps_map=rx.mcs_map, min_tx_power=tx.minimum_tx_power, max_tx_power=power[l.tx_site.device.device_sku],
                    net_gain_dbi=gain[l.link_id], np_dbm=l.rsl_dbm - l.sinr_dbm)
                l.rsl_dbm = get_fspl_based_rsl(l.tx_power, gain[l.link_id])
                l.snr_dbm = get_snr(l.rsl_dbm, noise)
                if math.isclose(l.tx_power, before, abs_tol=EPSILON):
                    stable += 1
            if stable == len(active):
                break
    analyze_interference(topology, net)
    for l in topology.links.values():
        if l.link_type != LinkType.ETHERNET:
            table = topology.sites[l.rx_site.site_id].device.sector_params.mcs_map
            l.mcs_level = get_mcs_from_snr(l.sinr_dbm, table)
            l.capacity = get_link_capacity_from_mcs(l.mcs_level, table)
