from itertools import combinations
from typing import Dict, List, Set, Tuple

from terragraph_planner.common.configuration.enums import SectorType, StatusType
from terragraph_planner.common.geos import law_of_cosines_spherical
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.structs import AngleViolatingLinkPairs


def pairs(topology: Topology, diff_sector_angle_limit: float, near_far_angle_limit: float, near_far_length_ratio: float, active_components: bool):
    by_site: Dict[Site, List[Link]] = {}
    for s in topology.sites.values():
        by_site[s] = []
    for l in topology.links.values():
        if l.is_wireless and (not active_components or l.status_type in StatusType.active_status()):
            by_site[l.tx_site].append(l)
    diff = []
    near = []
    for site, links in by_site.items():
        for a, b in combinations(links, 2):
            if a.tx_sector is b.tx_sector:
                continue
            if active_components and a.tx_sector.channel != b.tx_sector.channel:
                continue
            angle, ratio = law_of_cosines_spherical(site.latitude, site.longitude, a.rx_site.latitude, a.rx_site.longitude, b.rx_site.latitude, b.rx_site.longitude)
            triple = (site.site_id, min(a.rx_site.site_id, b.rx_site.site_id), max(a.rx_site.site_id, b.rx_site.site_id))
            if angle <= diff_sector_angle_limit:
                diff.append(triple)
            elif angle <= near_far_angle_limit and ratio >= near_far_length_ratio:
                near.append(triple)
    return AngleViolatingLinkPairs(diff, near)


def violating_ids(topology: Topology, site_triplets: List[Tuple[str, str, str]]):
    out = set()
    for i, j, k in site_triplets:
        a = topology.get_link_by_site_ids(i, j)
        b = topology.get_link_by_site_ids(i, k)
        c = topology.get_link_by_site_ids(j, i)
        d = topology.get_link_by_site_ids(k, i)
        for l in [a, b, c, d]:
            if l is not None:
                out.add(l.link_id)
    return out


def load(topology: Topology, dn_dn_sector_limit: int, dn_total_sector_limit: int):
    out = {}
    for sid, sector in topology.sectors.items():
        if sector.sector_type != SectorType.DN or sector.status_type not in StatusType.active_status():
            continue
        peers = topology.sector_connectivity.get(sid, {})
        dns = 0
        cns = 0
        for peer, link in peers.items():
            if topology.links[link].status_type in StatusType.active_status():
                if topology.sectors[peer].sector_type == SectorType.DN:
                    dns += 1
                if topology.sectors[peer].sector_type == SectorType.CN:
                    cns += 1
        if dns > dn_dn_sector_limit or dns + cns > dn_total_sector_limit:
            out[sid] = [p for p in peers if topology.sectors[p].status_type in StatusType.active_status()]
    return out
