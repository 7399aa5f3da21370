"""Reference semantics of topology_networkx and topology_availability."""
import math
from copy import deepcopy
from typing import Dict, List, Set, Tuple

import networkx as nx

from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType, TopologyRouting
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.constants import DEMAND, SUPERSOURCE
from terragraph_planner.optimization.structs import DisjointPath
from terragraph_planner.optimization.topology_networkx import _get_dpa_routing_paths, find_connected_demands, single_edge_failures

PRIVATE = {'_get_dpa_routing_paths': 'dpa'}


def digraph(topology: Topology, status_filter: Set[StatusType]):
    g = nx.DiGraph()
    for k, s in topology.sites.items():
        if s.site_type == SiteType.POP and s.status_type in status_filter:
            g.add_edge(SUPERSOURCE, k, link_type=SUPERSOURCE, link_cost=1)
    nx.set_node_attributes(g, {SUPERSOURCE: SUPERSOURCE}, name="site_type")
    for l in topology.links.values():
        if l.status_type not in status_filter or l.tx_site.status_type not in status_filter or l.rx_site.status_type not in status_filter:
            continue
        cost = {2: 15, 3: 15, 4: 3, 5: 3, 6: 3, 7: 3, 8: 3, 9: 1, 10: 1, 11: 1, 12: 1}
        g.add_edge(l.tx_site.site_id, l.rx_site.site_id, link_type=l.link_type, link_cost=1 if l.mcs_level > 12 else cost.get(l.mcs_level, math.inf))
    nx.set_node_attributes(g, {s.site_id: s.site_type for s in topology.sites.values()}, name="site_type")
    for k, d in topology.demand_sites.items():
        for s in d.connected_sites:
            if s.status_type in status_filter:
                g.add_edge(s.site_id, k, link_type=DEMAND, link_cost=1)
    nx.set_node_attributes(g, {d.demand_id: DEMAND for d in topology.demand_sites.values()}, name="site_type")
    return g


def connected(graph: nx.Graph):
    below = nx.descendants(graph, source=SUPERSOURCE)
    return {n for n, t in graph.nodes(data="site_type") if t == DEMAND and n in below}


def edge_failures(graph: nx.Graph):
    g = deepcopy(graph)
    served = find_connected_demands(graph)
    out = {}
    for u, v, t in graph.edges(data="link_type"):
        if t in (SUPERSOURCE, DEMAND, LinkType.WIRELESS_ACCESS, LinkType.ETHERNET):
            continue
        pair = (u, v) if u < v else (v, u)
        if pair in out:
            continue
        both = graph.has_edge(v, u)
        g.remove_edge(u, v)
        if both:
            g.remove_edge(v, u)
        left = nx.descendants(g, source=SUPERSOURCE)
        g.add_edge(u, v)
        if both:
            g.add_edge(v, u)
        out[pair] = served - left
    return out


def site_failures(graph: nx.Graph):
    served = find_connected_demands(graph)
    pops: Dict[str, Set[str]] = {}
    dns: Dict[str, Set[str]] = {}
    g = deepcopy(graph)
    for n, t in graph.nodes(data="site_type"):
        if t == SiteType.CN or t == DEMAND or n == SUPERSOURCE:
            continue
        gone = [(n, m, g[n][m]) for m in g[n]]
        g.remove_edges_from(gone)
        left = nx.descendants(g, source=SUPERSOURCE)
        g.add_edges_from(gone)
        lost = served - left
        if len(lost) > 0:
            if t == SiteType.POP:
                pops[n] = lost
            elif t == SiteType.DN:
                dns[n] = lost
    return pops, dns


def disruptive(proposed_graph: nx.DiGraph, candidate_graph: nx.DiGraph, count: int):
    if count <= 0:
        return set()
    lost = single_edge_failures(proposed_graph)
    order = sorted(lost, key=lambda e: len(lost[e]), reverse=True)
    served = find_connected_demands(candidate_graph)
    g = deepcopy(candidate_graph)
    out = set()
    for u, v in order:
        if len(out) >= count:
            break
        if len(lost[(u, v)]) == 0:
            break
        if proposed_graph[u][v]["link_type"] == LinkType.WIRELESS_ACCESS:
            continue
        if (u, v) in out:
            continue
        a = candidate_graph.has_edge(u, v)
        b = candidate_graph.has_edge(v, u)
        if not a and not b:
            continue
        if a:
            g.remove_edge(u, v)
        if b:
            g.remove_edge(v, u)
        left = nx.descendants(g, source=SUPERSOURCE)
        if len(served - left) == 0:
            if a:
                out.add((u, v))
            if b:
                out.add((v, u))
        else:
            if a:
                g.add_edge(u, v)
            if b:
                g.add_edge(v, u)
    return out


def dpa(graph: nx.Graph, paths: Dict[str, List[str]]):
    zones: Dict[str, Set[str]] = {}
    for p in paths.values():
        if len(p) > 1:
            zones.setdefault(p[1], set()).update(p)
    out: Dict[str, List[str]] = {}
    for z in zones.values():
        out.update(nx.shortest_path(graph.subgraph(list(z)), source=SUPERSOURCE, weight="link_cost"))
    return out


def routing(topology: Topology, graph: nx.Graph, type: TopologyRouting):
    if type == TopologyRouting.MCS_COST_PATH:
        paths = nx.shortest_path(graph, source=SUPERSOURCE, weight="link_cost")
    else:
        paths = nx.single_source_shortest_path(graph, source=SUPERSOURCE)
        if type == TopologyRouting.DPA_PATH:
            paths = _get_dpa_routing_paths(graph, paths)
    used = set()
    for d in topology.demand_sites.keys():
        if d in paths:
            p = paths[d]
            for i in range(2, len(p) - 1):
                k = "-".join((p[i - 1], p[i]))
                if k not in topology.links:
                    raise OptimizerException
                used.add(k)
    return used


def disjoint(topology: Topology, graph: nx.Graph):
    paths = nx.single_source_shortest_path(graph, source=SUPERSOURCE)
    two = set()
    off = set()
    direct = set()
    for d in topology.demand_sites:
        if d not in paths:
            off.add(d)
            continue
        p = paths[d]
        if len(p) <= 3:
            if len(p) != 3:
                raise OptimizerException
            if topology.sites[p[1]].site_type != SiteType.POP:
                raise OptimizerException
            direct.add(d)
            continue
        gone = []
        for i in range(1, len(p) - 2):
            if topology.sites[p[i + 1]].site_type == SiteType.CN:
                break
            e = (p[i], p[i + 1])
            gone.append((*e, graph.edges[e]))
            graph.remove_edge(*e)
        if nx.has_path(graph, source=SUPERSOURCE, target=d):
            two.add(d)
        graph.add_edges_from(gone)
    return DisjointPath(demand_with_disjoint_paths=two, disconnected_demand_locations=off, demand_connected_to_pop=direct)
