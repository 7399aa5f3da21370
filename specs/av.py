"""Reference semantics of compute_availability (only parsed, never imported)."""
import heapq
import time
from copy import deepcopy
from typing import Optional
import networkx as nx
import numpy as np
from terragraph_planner.common.configuration.enums import LinkType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.constants import SUPERSOURCE
from terragraph_planner.optimization.topology_networkx import find_connected_demands


def availability(graph: nx.Graph, link_availability: float, sim_length: float, time_limit_sec: Optional[float] = None, seed=None):
    if link_availability < 0 or link_availability > 100:
        raise OptimizerException
    if sim_length <= 0:
        raise OptimizerException
    rng = np.random.default_rng(seed)
    served = find_connected_demands(graph)
    up = {d: 0.0 for d in served}
    pair = lambda a, b: (a, b) if a < b else (b, a)
    link_up = {pair(u, v): 0.0 for u, v, t in graph.edges(data="link_type") if t == LinkType.WIRELESS_BACKHAUL}
    live = link_availability / 100
    events = [(sim_length, 0, ("", ""), 2)]
    done = set()
    for u, v, t in graph.edges(data="link_type"):
        if t != LinkType.WIRELESS_BACKHAUL:
            continue
        key = pair(u, v)
        if key in done:
            continue
        if not graph.has_edge(v, u):
            raise OptimizerException
        now = 0
        while now < sim_length:
            now += rng.exponential(live)
            heapq.heappush(events, (now, len(events), key, 0))
            now += rng.exponential(1.0 - live)
            heapq.heappush(events, (now, len(events), key, 1))
        done.add(key)
    g = deepcopy(graph)
    last = 0
    missing = set()
    n = 0
    start = time.time()
    while len(events) > 0:
        n += 1
        when, _, (u, v), what = heapq.heappop(events)
        if when > sim_length:
            raise OptimizerException
        dt = (when - last) / sim_length
        for d in served.intersection(nx.descendants(g, source=SUPERSOURCE)):
            up[d] += dt
        for e in link_up:
            if e not in missing:
                link_up[e] += dt
        last = when
        if what == 1:
            g.add_edge(u, v)
            g.add_edge(v, u)
            if (u, v) not in missing:
                raise OptimizerException
            missing.remove((u, v))
        elif what == 0:
            g.remove_edge(u, v)
            g.remove_edge(v, u)
            if (u, v) in missing:
                raise OptimizerException
            missing.add((u, v))
        else:
            if what != 2:
                raise OptimizerException
            break
        if time_limit_sec is not None and time.time() - start > time_limit_sec:
            for d in up:
                up[d] = up[d] * sim_length / when
            break
    return up, link_up
