"""Reference semantics of topology_demand (only parsed, never imported)."""
from typing import Dict, Set
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import LocationType, SiteType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.geos import GeoLocation, grid_deltas, haversine_distance
from terragraph_planner.common.structs import GeoPoint
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.topology_demand import _add_cn_demand_sites, _add_dn_sites_to_cn_connected_demand, _add_uniform_demand_sites

PRIVATE = {'_add_cn_demand_sites': 'cn_demand', '_add_dn_sites_to_cn_connected_demand': 'near_cns', '_add_uniform_demand_sites': 'uniform'}


def add_demand(topology: Topology, params: OptimizerParams):
    if not params.enable_manual_demand:
        topology.demand_sites = {}
    else:
        for d in topology.demand_sites.values():
            d.connected_sites = []
            d.demand = params.demand
    manual = set(topology.demand_sites)
    if params.enable_uniform_demand:
        _add_uniform_demand_sites(topology, params.demand_spacing, params.demand)
    for k in list(topology.demand_sites):
        d = topology.demand_sites[k]
        near = [s for s in topology.sites.values() if haversine_distance(s.longitude, s.latitude, d.longitude, d.latitude) <= params.demand_connection_radius]
        if near or k in manual:
            d.connected_sites = near
        else:
            topology.remove_demand_site(k)
    if params.enable_cn_demand:
        _add_cn_demand_sites(topology, params.demand)
    _add_dn_sites_to_cn_connected_demand(topology)
    if not len(topology.demand_sites) > 0:
        raise OptimizerException


def cn_demand(topology: Topology, demand: float):
    at: Dict[GeoPoint, str] = {}
    for cn in topology.sites.values():
        if cn.site_type != SiteType.CN:
            continue
        p = GeoPoint(latitude=cn.latitude, longitude=cn.longitude)
        if p in at:
            topology.demand_sites[at[p]].connected_sites.append(cn)
        else:
            d = DemandSite(location=cn.location.copy(altitude=None), num_sites=cn.number_of_subscribers, demand=demand, connected_sites=[cn])
            topology.add_demand_site(d)
            at[p] = d.demand_id


def uniform(topology: Topology, grid_spacing: float, demand: float):
    sites = topology.sites.values()
    wraps = any(s.longitude >= 175 for s in sites) and any(s.longitude <= -175 for s in sites)
    left = min(s.longitude for s in sites if not wraps or s.longitude >= 175)
    right = max(s.longitude for s in sites if not wraps or s.longitude <= -175)
    low = min(s.latitude for s in sites)
    high = max(s.latitude for s in sites)
    dx, dy = grid_deltas(left, low, grid_spacing)
    left = left - dx
    right = right + dx
    low = low - dy
    high = high + dy
    if left < -180:
        left = left + 360
        wraps = True
    if right > 180:
        right = right - 360
        wraps = True
    x = left
    while x <= right or (wraps and x >= left):
        y = low
        while y <= high:
            topology.add_demand_site(DemandSite(location=GeoLocation(latitude=y, longitude=x), demand=demand))
            y += dy
        x += dx
        if x > 180:
            x -= 360


def near_cns(topology: Topology):
    served: Dict[str, Set[str]] = {}
    for ids in topology.get_colocated_sites().values():
        if len(ids) > 1:
            for c in ids:
                for d in ids:
                    if topology.sites[c].site_type == SiteType.CN and topology.sites[d].site_type in {SiteType.DN, SiteType.POP}:
                        served.setdefault(c, set()).add(d)
    cns: Dict[int, Set[str]] = {}
    dns: Dict[int, Set[str]] = {}
    for k, s in topology.sites.items():
        if s.location_type == LocationType.ROOFTOP and s.building_id > -1:
            if s.site_type == SiteType.CN:
                cns.setdefault(s.building_id, set()).add(k)
            elif s.site_type == SiteType.DN or s.site_type == SiteType.POP:
                dns.setdefault(s.building_id, set()).add(k)
    for b in cns.keys() & dns.keys():
        for c in cns[b]:
            for d in dns[b]:
                served.setdefault(c, set()).add(d)
    for demand in topology.demand_sites.values():
        have = {s.site_id for s in demand.connected_sites}
        for s in demand.connected_sites:
            for d in served.get(s.site_id, set()):
                if d not in have:
                    demand.connected_sites.append(topology.sites[d])
                    have.add(d)
