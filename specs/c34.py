import math
from collections import defaultdict
from copy import deepcopy
from typing import Dict, List, Tuple

import networkx as nx
import numpy as np
from scipy.spatial import Delaunay

from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.constants import EPSILON, SUPERSOURCE
from terragraph_planner.optimization.structs import OptimizationSolution
from terragraph_planner.optimization.topology_demand import connect_demand_to_colocated_sites


def duplicate(topology: Topology, solution: OptimizationSolution):
    hung = defaultdict(list)
    for sector in topology.sectors.values():
        hung[sector.site.site_id].append(sector)
    sites: Dict[str, Site] = {}
    sectors: Dict[str, Sector] = {}
    for k in list(topology.sites.keys()):
        dn = topology.sites[k]
        if dn.site_type == SiteType.DN and solution.site_decisions.get(k, 0) == 1:
            pop = Site(
                site_type=SiteType.POP, location=dn.location, device=dn.device, status_type=StatusType.CANDIDATE, location_type=dn.location_type,
                building_id=dn.building_id, name=dn.name + "_POP", number_of_subscribers=None,
            )
            topology.add_site(pop)
            sites[k] = pop
            for s in hung[k]:
                t = Sector(site=pop, node_id=s.node_id, position_in_node=s.position_in_node, ant_azimuth=s.ant_azimuth, status_type=StatusType.CANDIDATE, channel=s.channel)
                topology.add_sector(t)
                sectors[s.sector_id] = t
    for k, pop in sites.items():
        dn = topology.sites[k]
        for other in topology.get_successor_sites(dn):
            if other.site_type == SiteType.POP:
                continue
            link = topology.get_link_by_site_ids(k, other.site_id)
            if link.tx_sector is not None and link.rx_sector is not None:
                new = Link(
                    tx_site=pop, rx_site=other, tx_sector=sectors[link.tx_sector.sector_id], rx_sector=link.rx_sector, status_type=StatusType.CANDIDATE,
                    is_wireless=link.is_wireless, confidence_level=link.confidence_level,
                )
                new.link_budget = deepcopy(link.link_budget)
                topology.add_link(new)
        for other in topology.get_predecessor_sites(dn):
            if other.site_type == SiteType.POP:
                continue
            link = topology.get_link_by_site_ids(other.site_id, k)
            if link.tx_sector is not None and link.rx_sector is not None:
                new = Link(
                    tx_site=other, rx_site=pop, tx_sector=link.tx_sector, rx_sector=sectors[link.rx_sector.sector_id], status_type=StatusType.CANDIDATE,
                    is_wireless=link.is_wireless, confidence_level=link.confidence_level,
                )
                new.link_budget = deepcopy(link.link_budget)
                topology.add_link(new)
    connect_demand_to_colocated_sites(topology, {k: {pop.site_id} for k, pop in sites.items()})


def usable(topology: Topology, pop_source_capacity: float, dn_source_capacity: float):
    G = nx.DiGraph()
    G.add_node(SUPERSOURCE)
    for k, site in topology.sites.items():
        if site.status_type not in StatusType.inactive_status() and site.site_type in SiteType.dist_site_types():
            G.add_edge(("_in", k), ("_out", k), capacity=pop_source_capacity if site.site_type == SiteType.POP else 1.0)
            if site.site_type == SiteType.POP and site.status_type in StatusType.active_status():
                G.add_edge(SUPERSOURCE, ("_in", k), capacity=pop_source_capacity)
    for link in topology.links.values():
        if link.status_type in StatusType.inactive_status() or link.capacity <= 0:
            continue
        a = link.tx_site
        b = link.rx_site
        if (
            a.status_type not in StatusType.inactive_status() and b.status_type not in StatusType.inactive_status()
            and a.site_type in SiteType.dist_site_types() and b.site_type in SiteType.dist_site_types()
        ):
            G.add_edge(("_out", a.site_id), ("_in", b.site_id), capacity=1.0)
    pops = [k for k, site in topology.sites.items() if site.site_type == SiteType.POP and site.status_type in StatusType.active_status()]
    dns = [k for k, site in topology.sites.items() if site.site_type == SiteType.DN and site.status_type in StatusType.active_status()]
    edges = set()
    if pop_source_capacity > 0:
        for dn in dns:
            for pop in pops:
                for other in pops:
                    G[SUPERSOURCE][("_in", other)]["capacity"] = pop_source_capacity if pop == other else 0.0
                f, D = nx.maximum_flow(G, SUPERSOURCE, ("_in", dn))
                if not f <= pop_source_capacity:
                    raise OptimizerException("")
                for u in D:
                    for v, f in D[u].items():
                        if f > EPSILON and u[1] != v[1] and SUPERSOURCE not in {u, v}:
                            if topology.get_link_by_site_ids(u[1], v[1]) is None:
                                raise OptimizerException("")
                            edges.add((u[1], v[1]))
        for pop in pops:
            G[SUPERSOURCE][("_in", pop)]["capacity"] = pop_source_capacity
    if dn_source_capacity > 0:
        B = G.copy()
        B.remove_node(SUPERSOURCE)
        both = all(B.has_edge(("_out", v[1]), ("_in", u[1])) for u, v in B.edges() if u[1] != v[1])
        pairs = set()
        if len(dns) > 2:
            tri = Delaunay(np.array([[topology.sites[dn].latitude, topology.sites[dn].longitude] for dn in dns]))
            near = nx.Graph()
            for T in tri.simplices:
                nx.add_cycle(near, T)
            for u in near.nodes():
                for v in nx.ego_graph(near, u, center=False, radius=2):
                    if not both or u < v:
                        pairs.add((dns[u], dns[v]))
        elif len(dns) == 2:
            pairs = {(dns[0], dns[1])}
            if not both:
                pairs.add((dns[1], dns[0]))
        for dn, other in pairs:
            before = {}
            for u, v, data in B.in_edges(("_in", dn), data=True):
                before[(u, v)] = data["capacity"]
                data["capacity"] = 0
            before[("_in", dn), ("_out", dn)] = B.edges[("_in", dn), ("_out", dn)]["capacity"]
            B.edges[("_in", dn), ("_out", dn)]["capacity"] = dn_source_capacity
            B.add_edge(SUPERSOURCE, ("_in", dn), capacity=dn_source_capacity)
            f, D = nx.maximum_flow(B, SUPERSOURCE, ("_in", other))
            if not f <= dn_source_capacity:
                raise OptimizerException("")
            for u in D:
                for v, f in D[u].items():
                    if f > EPSILON and u[1] != v[1] and SUPERSOURCE not in {u, v}:
                        if topology.get_link_by_site_ids(u[1], v[1]) is None:
                            raise OptimizerException("")
                        edges.add((u[1], v[1]))
                        if both:
                            if topology.get_link_by_site_ids(v[1], u[1]) is None:
                                raise OptimizerException("")
                            edges.add((v[1], u[1]))
            B.remove_node(SUPERSOURCE)
            for (u, v), capacity in before.items():
                B.edges[u, v]["capacity"] = capacity
    return edges
