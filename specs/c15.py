import math
from itertools import combinations, product
from typing import Dict, Iterable, List, Optional, Tuple

import numpy as np
from pyre_extensions import none_throws

from terragraph_planner.common.configuration.enums import LinkType, SectorType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.geos import angle_delta, bearing_in_degrees, haversine_distance, law_of_cosines_spherical
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.common.constants import DEFAULT_POINTING_PRECISION, SECTOR_LINK_ANGLE_TOLERANCE
from terragraph_planner.optimization.topology_preparation import add_sectors_to_links, create_cn_sectors, create_dn_sectors, find_best_equidistant_sectors, find_best_sectors, get_sector_azimuths_from_node_center, validate_link_sectors, validate_site_sectors


def attach(topology: Topology, force_full_cn_scan_range: bool, link_channel_map: Optional[Dict[str, int]]):
    on_site: Dict[str, List[str]] = {}
    for k, s in topology.sectors.items():
        on_site.setdefault(s.site.site_id, []).append(k)
    for link in topology.links.values():
        if link.link_type == LinkType.ETHERNET:
            continue
        if link.tx_sector is not None or link.rx_sector is not None:
            validate_link_sectors(link, force_full_cn_scan_range)
            continue
        a = topology.sites[link.tx_site.site_id]
        b = topology.sites[link.rx_site.site_id]
        limit_a = a.device.sector_params.horizontal_scan_range / 2 + SECTOR_LINK_ANGLE_TOLERANCE
        if force_full_cn_scan_range and b.site_type == SiteType.CN:
            limit_b = 360.0 / 2 + SECTOR_LINK_ANGLE_TOLERANCE
        else:
            limit_b = b.device.sector_params.horizontal_scan_range / 2 + SECTOR_LINK_ANGLE_TOLERANCE
        tx = None
        for k in on_site.get(a.site_id, []):
            s = topology.sectors[k]
            dev = abs(angle_delta(s.ant_azimuth, link.tx_beam_azimuth))
            if dev < limit_a:
                limit_a = dev
                tx = s
        rx = None
        for k in on_site.get(b.site_id, []):
            s = topology.sectors[k]
            dev = abs(angle_delta(s.ant_azimuth, link.rx_beam_azimuth))
            if dev < limit_b:
                limit_b = dev
                rx = s
        if tx is None or rx is None:
            if link.status_type in StatusType.active_status():
                raise OptimizerException
            link.clear_sectors()
            continue
        link.tx_sector = tx
        link.rx_sector = rx
        back = topology.get_link_by_site_ids(link.rx_site.site_id, link.tx_site.site_id)
        if back is not None:
            back.tx_sector = rx
            back.rx_sector = tx
        if link_channel_map is not None and link.status_type in StatusType.active_status():
            channel = link_channel_map[link.link_id]
            tx.channel = channel
            rx.channel = channel
            tx.status_type = StatusType.PROPOSED
            rx.status_type = StatusType.PROPOSED


def validate_link(link: Link, force_full_cn_scan_range: bool = False):
    if link.tx_sector is None and link.rx_sector is None:
        return
    if abs(none_throws(link.tx_dev)) >= link.tx_site.device.sector_params.horizontal_scan_range / 2 + SECTOR_LINK_ANGLE_TOLERANCE:
        raise OptimizerException
    if force_full_cn_scan_range and none_throws(link.rx_sector).site.site_type == SiteType.CN:
        return
    if abs(none_throws(link.rx_dev)) >= link.rx_site.device.sector_params.horizontal_scan_range / 2 + SECTOR_LINK_ANGLE_TOLERANCE:
        raise OptimizerException


def setup(topology: Topology):
    create_dn_sectors(topology)
    create_cn_sectors(topology)
    add_sectors_to_links(topology, force_full_cn_scan_range=True, link_channel_map=None)


def make_dn(topology: Topology):
    have = {}
    for k, s in topology.sectors.items():
        if s.sector_type == SectorType.DN:
            have.setdefault(s.site.site_id, []).append(k)
    for sid, site in topology.sites.items():
        mine = have.get(sid, [])
        if len(mine) > 0 or site.site_type not in {SiteType.DN, SiteType.POP}:
            validate_site_sectors([topology.sectors[k] for k in mine])
            continue
        p = site.device.sector_params
        nodes = find_best_sectors(
            site=site, neighbor_site_list=topology.get_wireless_successor_sites(site), number_of_nodes=site.device.number_of_nodes_per_site,
            number_of_sectors_per_node=p.number_sectors_per_node, horizontal_scan_range=p.horizontal_scan_range, dn_dn_sector_limit=None,
            dn_total_sector_limit=None, diff_sector_angle_limit=None, near_far_angle_limit=None, near_far_length_ratio=None, backhaul_link_type_weight=None, sector_channel_list=None)
        for i, node in enumerate(nodes):
            for j, az in enumerate(node):
                topology.add_sector(Sector(site=site, node_id=i, position_in_node=j, ant_azimuth=az, status_type=site.status_type if site.status_type in StatusType.inactive_status() else StatusType.CANDIDATE))


def make_cn(topology: Topology):
    have = {}
    for k, s in topology.sectors.items():
        if s.sector_type == SectorType.CN:
            have.setdefault(s.site.site_id, []).append(k)
    near = {}
    for l in topology.links.values():
        if l.is_wireless and l.rx_site.site_type == SiteType.CN:
            near.setdefault(l.rx_site.site_id, []).append(topology.sites[l.tx_site.site_id])
    for sid, site in topology.sites.items():
        mine = have.get(sid, [])
        if len(mine) > 0 or site.site_type != SiteType.CN:
            validate_site_sectors([topology.sectors[k] for k in mine])
            continue
        p = site.device.sector_params
        nodes = find_best_equidistant_sectors(site=site, neighbor_site_list=near.get(sid, []), number_of_nodes=site.device.number_of_nodes_per_site,
                                              number_of_sectors_per_node=p.number_sectors_per_node, horizontal_scan_range=p.horizontal_scan_range)
        for i, node in enumerate(nodes):
            for j, az in enumerate(node):
                topology.add_sector(Sector(site=site, node_id=i, position_in_node=j, ant_azimuth=az, status_type=site.status_type if site.status_type in StatusType.inactive_status() else StatusType.CANDIDATE))


def azimuths(center_bearing: float, number_of_sectors: int, horizontal_scan_range: float):
    if number_of_sectors == 0:
        return np.array([])
    if number_of_sectors % 2 == 0:
        half = number_of_sectors / 2 - 0.5
    else:
        half = math.floor(number_of_sectors / 2)
    out = np.arange(center_bearing - horizontal_scan_range * half, center_bearing + horizontal_scan_range * half + horizontal_scan_range / 2, horizontal_scan_range) % 360.0
    if len(out) != number_of_sectors:
        raise OptimizerException
    return out


def check_site(sectors: List[Sector]):
    if not sectors:
        return
    site = sectors[0].site
    width = site.device.sector_params.horizontal_scan_range
    per_node = site.device.sector_params.number_sectors_per_node
    az = {}
    pos = {}
    for s in sectors:
        if s.site is not site:
            raise OptimizerException
        az.setdefault(s.node_id, []).append(s.ant_azimuth)
        if s.position_in_node in pos.get(s.node_id, set()):
            raise OptimizerException
        pos.setdefault(s.node_id, set()).add(s.position_in_node)
    if len(az) > site.device.number_of_nodes_per_site:
        raise OptimizerException
    for n, xs in az.items():
        if len(xs) != per_node:
            raise OptimizerException
        m = math.degrees(math.atan2(sum([math.sin(math.radians(x)) for x in xs]), sum([math.cos(math.radians(x)) for x in xs]))) % 360
        before = [x for x in xs if (m - 180 < x and x <= m) or x > m + 180]
        before.sort()
        after = [x for x in xs if (m < x and x <= m + 180) or x <= m - 180]
        after.sort()
        az[n] = before + after
    if per_node > 1:
        for xs in az.values():
            for i in range(len(xs) - 1):
                if abs(abs(angle_delta(xs[i], xs[(i + 1) % len(xs)])) - width) >= SECTOR_LINK_ANGLE_TOLERANCE:
                    raise OptimizerException

    def within(p, a, b):
        return (a <= p <= b) if a <= b else (p >= a or p <= b)

    for n, xs in az.items():
        for o, ys in az.items():
            if n == o:
                continue
            if min(abs(angle_delta(xs[0], ys[0])), abs(angle_delta(xs[-1], ys[0])), abs(angle_delta(xs[0], ys[-1])), abs(angle_delta(xs[-1], ys[-1]))) < width:
                raise OptimizerException
            if within(ys[0], xs[0], xs[-1]) or within(ys[-1], xs[0], xs[-1]) or within(xs[0], ys[0], ys[-1]) or within(xs[-1], ys[0], ys[-1]):
                raise OptimizerException


def equidistant(site: Site, neighbor_site_list: Iterable[Site], number_of_nodes: int, number_of_sectors_per_node: int, horizontal_scan_range: float):
    node_width = horizontal_scan_range * number_of_sectors_per_node
    n = min(int(360.0 / node_width), number_of_nodes)
    arc = 360.0 / n
    if sum(1 for _ in neighbor_site_list) == 0:
        return []
    locs = np.vectorize(lambda s: (s.longitude, s.latitude))(neighbor_site_list)
    links = bearing_in_degrees(site.longitude, site.latitude, locs[0], locs[1])
    k = round(arc / DEFAULT_POINTING_PRECISION)
    rot = (np.arange(k) * arc / k).reshape(-1, 1)
    which = np.round((links - rot) / arc) % n
    delta = links - which * arc - rot
    delta[abs(delta) > node_width / 2] = 360.0
    best = rot[np.sum(delta**2, axis=1).argmin(), 0]
    return [get_sector_azimuths_from_node_center(a, number_of_sectors_per_node, horizontal_scan_range) for a in best + np.arange(n) * arc]


def best_sectors(
    site: Site, neighbor_site_list: Iterable[Site], number_of_nodes: int, number_of_sectors_per_node: int, horizontal_scan_range: float,
    dn_dn_sector_limit: Optional[int], dn_total_sector_limit: Optional[int], diff_sector_angle_limit: Optional[float], near_far_angle_limit: Optional[float],
    near_far_length_ratio: Optional[float], backhaul_link_type_weight: Optional[float], sector_channel_list: Optional[List[Tuple[str, int]]]
):
    N = sum(1 for _ in neighbor_site_list)
    if N == 0:
        return []
    width = horizontal_scan_range * number_of_sectors_per_node
    nodes = min(int(360.0 / width), number_of_nodes)
    locs = np.vectorize(lambda s: (s.longitude, s.latitude))(neighbor_site_list)
    angle = bearing_in_degrees(site.longitude, site.latitude, locs[0], locs[1])
    dist = haversine_distance(site.longitude, site.latitude, locs[0], locs[1])

    together = []          # links which may not be served by different sectors
    apart = []             # links which may not be served by the same sector
    if diff_sector_angle_limit is not None or (near_far_angle_limit is not None and near_far_length_ratio is not None):
        rule = []
        for a, b in combinations(range(N), 2):
            diff, ratio = law_of_cosines_spherical(site.latitude, site.longitude, locs[1][a], locs[0][a], locs[1][b], locs[0][b])
            if diff_sector_angle_limit is not None and diff <= diff_sector_angle_limit:
                rule.append((a, b))
            elif near_far_angle_limit is not None and near_far_length_ratio is not None and diff <= near_far_angle_limit and ratio >= near_far_length_ratio:
                rule.append((a, b))
    else:
        rule = []
    if sector_channel_list is None:
        together = rule
    else:
        for a, b in combinations(range(N), 2):
            if sector_channel_list[a][0] == sector_channel_list[b][0]:
                together.append((a, b))
            if sector_channel_list[a][1] != sector_channel_list[b][1]:
                apart.append((a, b))

    big = 1e6 * N
    n_cand = int(360.0 / DEFAULT_POINTING_PRECISION)
    centre = np.arange(n_cand).reshape(-1, 1) * DEFAULT_POINTING_PRECISION
    azimuth = np.array([get_sector_azimuths_from_node_center(c, number_of_sectors_per_node, horizontal_scan_range).reshape(-1, 1) for c in centre])
    node_off = 180.0 - abs(180.0 - abs(centre - angle))
    sector_off = 180.0 - abs(180.0 - abs(azimuth - angle))
    sector_covers = np.zeros((n_cand, number_of_sectors_per_node, N))
    sector_covers[np.logical_and(sector_off >= -horizontal_scan_range / 2, sector_off < horizontal_scan_range / 2)] = 1
    node_covers = np.zeros((n_cand, N))
    node_covers[np.logical_and(node_off >= -width / 2, node_off < width / 2)] = 1
    every = list(product(list(range(n_cand)), list(range(number_of_sectors_per_node))))

    for a, b in apart:
        for (k, i) in every:
            if sector_covers[k][i][a] == 1 and sector_covers[k][i][b] == 1:
                sector_covers[k][i][a] = 0
                sector_covers[k][i][b] = 0
        for k in range(n_cand):
            if node_covers[k][a] == 1 and node_covers[k][b] == 1:
                node_covers[k][a] = 0
                node_covers[k][b] = 0
    for a, b in together:
        for (k1, i1), (k2, i2) in combinations(every, 2):
            if sector_covers[k1][i1][a] == 1 and sector_covers[k1][i1][b] == 0 and sector_covers[k2][i2][a] == 0 and sector_covers[k2][i2][b] == 1:
                sector_covers[k1][i1][a] = 0
                sector_covers[k2][i2][b] = 0
            if sector_covers[k2][i2][a] == 1 and sector_covers[k2][i2][b] == 0 and sector_covers[k1][i1][a] == 0 and sector_covers[k1][i1][b] == 1:
                sector_covers[k2][i2][a] = 0
                sector_covers[k1][i1][b] = 0
        for k1, k2 in combinations(list(range(n_cand)), 2):
            if node_covers[k1][a] == 1 and node_covers[k1][b] == 0 and node_covers[k2][a] == 0 and node_covers[k2][b] == 1:
                node_covers[k1][a] = 0
                node_covers[k2][b] = 0
            if node_covers[k2][a] == 1 and node_covers[k2][b] == 0 and node_covers[k1][a] == 0 and node_covers[k1][b] == 1:
                node_covers[k2][a] = 0
                node_covers[k1][b] = 0

    dn = np.vectorize(lambda s: 1 if s.site_type in {SiteType.DN, SiteType.POP} else 0)(neighbor_site_list)
    w = backhaul_link_type_weight or 1
    weight = np.vectorize(lambda s: w if s.site_type in {SiteType.DN, SiteType.POP} else 1)(neighbor_site_list)
    if dn_dn_sector_limit is None:
        dn_dn_sector_limit = N
    if dn_total_sector_limit is None:
        dn_total_sector_limit = N
    ok = np.logical_and(
        np.all(sector_covers.sum(axis=2) <= dn_total_sector_limit, axis=1),
        np.all((sector_covers * dn).sum(axis=2) <= dn_dn_sector_limit, axis=1))
    if not any(ok):
        return []
    sector_off = sector_off[ok]
    cand = centre.reshape(-1)[ok]
    node_covers = node_covers[ok]
    sector_covers = sector_covers[ok]
    cost = sector_off**2 * dist / max(dist) * weight
    cost[sector_covers == 0] = big
    met = cost.sum(axis=(1, 2))
    n_cand = cand.shape[0]

    best = (nodes * number_of_sectors_per_node * N + 1) * big**2
    where = None
    for first in range(n_cand):
        if cand[first] >= 360.0 - (nodes - 1) * width:
            break
        mets = [[math.inf] * n_cand for _ in range(nodes)]
        prev = [[-1] * n_cand for _ in range(nodes)]
        mets[0][first] = met[first]
        for m in range(0, nodes - 1):
            for c in range(n_cand):
                if mets[m][c] < math.inf:
                    for d in range(c + 1, n_cand):
                        if cand[d] - cand[c] < width:
                            continue
                        if cand[first] + 360.0 - cand[d] < width:
                            break
                        if mets[m][c] + met[d] < mets[m + 1][d]:
                            mets[m + 1][d] = mets[m][c] + met[d]
                            prev[m + 1][d] = c
        this = min(mets[-1])
        if this < best:
            best = this
            at = mets[-1].index(best)
            where = [at]
            for m in range(nodes - 1, 0, -1):
                at = prev[m][at]
                where.append(at)
    if where is None:
        raise OptimizerException
    return [get_sector_azimuths_from_node_center(cand[i], number_of_sectors_per_node, horizontal_scan_range) for i in reversed(where) if sum(node_covers[i]) > 0]
