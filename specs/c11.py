import math
from collections import defaultdict, deque
from copy import deepcopy
from functools import partial
from itertools import chain
from typing import Dict, List, Optional, Set, Tuple

from osgeo import osr
from pyre_extensions import none_throws
from shapely import wkt
from shapely.prepared import prep

from terragraph_planner.common.configuration.configs import DeviceData, GISDataParams, LOSParams, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
from terragraph_planner.common.data_io.kml_library import extract_polygons
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import ConfigException, DataException, LOSException
from terragraph_planner.common.rf.link_budget_calculator import fspl_based_estimation, get_max_tx_power
from terragraph_planner.common.structs import CandidateLOS, MCSMap, UTMBoundingBox, ValidLOS
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.site import DetectedSite, GeoLocation, LOSSite, Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
from terragraph_planner.los.helper import (
    add_links_to_topology,
    add_sites_to_topology,
    construct_topology_from_los_result,
    get_exclusion_zones,
    infer_input_site_location,
    pick_best_sites_per_building,
    search_max_los_dist_based_on_capacity,
    select_additional_dns,
)


def candidates(gis_data_params: GISDataParams, los_params: LOSParams, ll_boundary, detected_sites: List[Site], surface_elevation: Optional[Elevation], terrain_elevation: Optional[Elevation]):
    infer = partial(
        infer_input_site_location,
        surface_elevation=surface_elevation,
        terrain_elevation=terrain_elevation,
        mounting_height_above_rooftop=los_params.mounting_height_above_rooftop,
        default_pop_height_on_pole=los_params.default_pop_height_on_pole,
        default_dn_height_on_pole=los_params.default_dn_height_on_pole,
        default_cn_height_on_pole=los_params.default_cn_height_on_pole,
    )
    user = InputSitesLoader(los_params.device_list).read_user_input(gis_data_params.site_file_path, ll_boundary, infer)
    path = gis_data_params.base_topology_file_path
    if path is not None and len(path) > 0:
        base = extract_topology_from_file(path, los_params.device_list, infer)
    else:
        base = Topology()
    sites = user.site_list + detected_sites + list(base.sites.values())
    links: List[CandidateLOS] = []
    # at least one of the two sites is new
    for i in range(len(user) + len(detected_sites)):
        for j in range(i + 1, len(sites)):
            a = sites[i].site_type
            b = sites[j].site_type
            if (a == SiteType.DN and b in {SiteType.POP, SiteType.DN}) or (a == SiteType.POP and b == SiteType.DN):
                links.append(CandidateLOS(i, j, True))
            elif a in {SiteType.POP, SiteType.DN} and b == SiteType.CN:
                links.append(CandidateLOS(i, j, False))
            elif a == SiteType.CN and b in {SiteType.POP, SiteType.DN}:
                links.append(CandidateLOS(j, i, False))
    return sites, links, get_exclusion_zones(gis_data_params.site_file_path, ll_boundary), base


def batch(
    candidate_links: List[CandidateLOS], los_sites: List[LOSSite], exclusion_zones_wkts: List[str], elevation_data_matrix, utm_bounding_box: Optional[UTMBoundingBox], x_resolution: Optional[float],
    y_resolution: Optional[float], crs_epsg_code: Optional[int], left_top_x: Optional[float], left_top_y: Optional[float], max_los_distance: int, min_los_distance: int, max_el_scan_angle: float,
    los_confidence_threshold: float, use_ellipsoidal_los_model: bool, fresnel_radius: float, carrier_frequency: float,
):
    surface = None
    if elevation_data_matrix is not None and utm_bounding_box is not None and x_resolution is not None and y_resolution is not None and crs_epsg_code is not None and left_top_x is not None and left_top_y is not None:
        ref = osr.SpatialReference()
        ref.ImportFromEPSG(crs_epsg_code)
        surface = Elevation(elevation_data_matrix, utm_bounding_box, x_resolution, y_resolution, left_top_x, left_top_y, ref, None)
    zones = [wkt.loads(z) for z in exclusion_zones_wkts]
    longest = max_los_distance * 1.02
    shortest = min_los_distance * 0.98
    steepest = min(max_el_scan_angle + 2, 90)
    if use_ellipsoidal_los_model:
        model = EllipsoidalLOSValidator(surface, longest, shortest, steepest, carrier_frequency, zones, los_confidence_threshold)
    else:
        model = CylindricalLOSValidator(surface, longest, shortest, steepest, fresnel_radius, zones, los_confidence_threshold)
    known = {}
    out = []
    for i, j, both in candidate_links:
        a = los_sites[i]
        b = los_sites[j]
        if (a, b) in known:
            c = known[(a, b)]
        elif (b, a) in known:
            c = known[(b, a)]
        else:
            c = model.compute_confidence(a, b)
            known[(a, b)] = c
        if c > 0:
            out.append(ValidLOS(i, j, c))
            if both:
                out.append(ValidLOS(j, i, c))
    return out


def add_links(topology: Topology, rx_neighbors: List[List[int]], picked_sites_set: Set[int], site_map: Dict[int, List[Site]], confidence_dict: Dict[Tuple[int, int], float], device_pair_to_max_los_dist: Dict[Tuple[str, str], int], min_los_dist: int, max_el_scan_angle: float):
    for i, rxs in enumerate(rx_neighbors):
        if i in picked_sites_set:
            for j in rxs:
                if j in picked_sites_set:
                    for a in site_map[i]:
                        for b in site_map[j]:
                            link = Link(a, b, None, None, StatusType.CANDIDATE, True, confidence_dict[(i, j)])
                            longest = device_pair_to_max_los_dist[(a.device.device_sku, b.device.device_sku)]
                            if min_los_dist <= link.distance and link.distance <= longest and abs(link.el_dev) <= max_el_scan_angle:
                                topology.add_link(link)


def add_sites(topology: Topology, sites: List[Site], picked_sites_set: Set[int], device_list: List[DeviceData]):
    devices: Dict[DeviceType, List[DeviceData]] = defaultdict(list)
    for d in device_list:
        devices[d.device_type].append(d)
    out: Dict[int, List[Site]] = defaultdict(list)
    for i, site in enumerate(sites):
        if i in picked_sites_set:
            if isinstance(site, DetectedSite):
                for d in devices[DeviceType.CN if site.site_type == SiteType.CN else DeviceType.DN]:
                    s = site.to_site(d)
                    if s.site_id not in topology.sites:
                        topology.add_site(s)
                        out[i].append(s)
            elif site.site_id not in topology.sites:
                topology.add_site(site)
                out[i] = [site]
            elif topology.sites[site.site_id] is site:
                out[i] = [site]
    return out


def construct(topology: Topology, sites: List[Site], rx_neighbors: List[List[int]], picked_sites: List[int], confidence_dict: Dict[Tuple[int, int], float], device_list: List[DeviceData], device_pair_to_max_los_dist: Dict[Tuple[str, str], int], min_los_dist: int, max_el_scan_angle: float):
    picked = set(picked_sites)
    m = add_sites_to_topology(topology, sites, picked, device_list)
    add_links_to_topology(topology, rx_neighbors, picked, m, confidence_dict, device_pair_to_max_los_dist, min_los_dist, max_el_scan_angle)


def build(los_params: LOSParams, topology: Topology, sites: List[Site], links: List[ValidLOS], device_pair_to_max_los_dist: Dict[Tuple[str, str], int], site_detection_enabled: bool):
    into = [[] for _ in range(len(sites))]
    out = [[] for _ in range(len(sites))]
    confidence = {}
    for l in links:
        out[l.tx_site_idx].append(l.rx_site_idx)
        into[l.rx_site_idx].append(l.tx_site_idx)
        confidence[(l.tx_site_idx, l.rx_site_idx)] = l.confidence
    if site_detection_enabled:
        picked = pick_best_sites_per_building(sites, out, into, los_params.site_detection.dn_deployment, confidence)
        more = select_additional_dns(sites, out, into, picked)
    else:
        picked = list(range(len(sites)))
        more = []
    construct_topology_from_los_result(topology, sites, out, picked + more, confidence, los_params.device_list, device_pair_to_max_los_dist, los_params.minimum_los_distance, los_params.maximum_elevation_scan_angle)
    return topology


def max_dist(device_list: List[DeviceData], max_eirp_dbm: Optional[float], min_dn_dn_mcs: Optional[int], min_dn_cn_mcs: Optional[int], los_upper_bound: Optional[int]):
    power: Dict[str, float] = {}
    for d in device_list:
        power[d.device_sku] = get_max_tx_power(d.sector_params, max_eirp_dbm)
    out: Dict[Tuple[str, str], int] = {}
    for tx in device_list:
        if tx.device_type == DeviceType.CN:
            continue
        for rx in device_list:
            table = rx.sector_params.mcs_map
            if rx.device_type == DeviceType.DN and min_dn_dn_mcs is not None:
                table = [m for m in table if m.mcs >= min_dn_dn_mcs]
                if len(table) == 0:
                    raise ConfigException("")
            elif rx.device_type == DeviceType.CN and min_dn_cn_mcs is not None:
                table = [m for m in table if m.mcs >= min_dn_cn_mcs]
                if len(table) == 0:
                    raise ConfigException("")
            dist = search_max_los_dist_based_on_capacity(0, 10000, power[tx.device_sku], tx.sector_params, rx.sector_params, table)
            if dist is None:
                raise LOSException("")
            if (rx.device_sku, tx.device_sku) in out:
                dist = max(out[(rx.device_sku, tx.device_sku)], none_throws(dist))
                out[(rx.device_sku, tx.device_sku)] = dist
            out[(tx.device_sku, rx.device_sku)] = none_throws(dist)
        if los_upper_bound is not None:
            for pair, dist in out.items():
                if dist > los_upper_bound:
                    out[pair] = los_upper_bound
    return out


def search(lower_bound: int, upper_bound: int, max_tx_power: float, tx_sector_params: SectorParams, rx_sector_params: SectorParams, mcs_snr_mbps_map: List[MCSMap]):
    mid = 0
    while lower_bound < upper_bound:
        mid = (lower_bound + upper_bound) // 2
        m = fspl_based_estimation(distance=mid, max_tx_power=max_tx_power, tx_sector_params=tx_sector_params, rx_sector_params=rx_sector_params, mcs_snr_mbps_map=mcs_snr_mbps_map, tx_deviation=0.0, rx_deviation=0.0, tx_el_deviation=0.0, rx_el_deviation=0.0, tx_scan_pattern_data=None, rx_scan_pattern_data=None)
        if m.capacity > 0:
            lower_bound = mid + 1
        else:
            upper_bound = mid
    m = fspl_based_estimation(distance=lower_bound, max_tx_power=max_tx_power, tx_sector_params=tx_sector_params, rx_sector_params=rx_sector_params, mcs_snr_mbps_map=mcs_snr_mbps_map, tx_deviation=0.0, rx_deviation=0.0, tx_el_deviation=0.0, rx_el_deviation=0.0, tx_scan_pattern_data=None, rx_scan_pattern_data=None)
    return None if m.capacity > 0 else lower_bound


def pick(sites: List[Site], rx_neighbors: List[List[int]], tx_neighbors: List[List[int]], dn_deployment: bool, confidence_dict: Dict[Tuple[int, int], float]):
    out = []
    groups = defaultdict(list)
    for i, site in enumerate(sites):
        if site.building_id is None or site.building_id <= -1:
            out.append(i)
        else:
            groups[site.building_id].append(i)
    for group in groups.values():
        group.sort(reverse=True, key=lambda s: len(rx_neighbors[s]))
        best = group[0]
        if dn_deployment:
            out.append(best)
        dn = sites[best]
        cn = len(sites)
        sites.append(DetectedSite(site_type=SiteType.CN, location=GeoLocation(latitude=dn.latitude, longitude=dn.longitude, altitude=dn.altitude), building_id=none_throws(dn.building_id)))
        rx_neighbors.append([])
        tx_neighbors.append(deepcopy(tx_neighbors[best]))
        for n in tx_neighbors[cn]:
            rx_neighbors[n].append(cn)
            confidence_dict[(n, cn)] = confidence_dict[(best, n)]
        out.append(cn)
    return out


def pre_check(los_params: LOSParams, gis_data_params: GISDataParams):
    if gis_data_params.building_outline_file_path is None:
        return
    d = los_params.site_detection
    if d.detect_centers or d.detect_corners or d.detect_highest:
        if not any(x.device_type == DeviceType.CN for x in los_params.device_list):
            raise LOSException("")
        if d.dn_deployment and not any(x.device_type == DeviceType.DN for x in los_params.device_list):
            raise LOSException("")


def infer(latitude: float, longitude: float, altitude: Optional[float], height: Optional[float], location_type: LocationType, site_type: SiteType, surface_elevation: Optional[Elevation], terrain_elevation: Optional[Elevation], mounting_height_above_rooftop: float, default_pop_height_on_pole: float, default_dn_height_on_pole: float, default_cn_height_on_pole: float):
    given = GeoLocation(latitude=latitude, longitude=longitude, altitude=altitude)
    if surface_elevation is None:
        return given, location_type
    ground = float(none_throws(surface_elevation).get_value(given.utm_x, given.utm_y))
    if location_type == LocationType.UNKNOWN and terrain_elevation is not None:
        if ground - terrain_elevation.get_value(given.utm_x, given.utm_y) >= 2:
            location_type = LocationType.ROOFTOP
        else:
            location_type = LocationType.STREET_LEVEL
    if altitude is not None:
        return given, location_type
    if height is not None:
        above = height
    elif location_type == LocationType.ROOFTOP:
        above = mounting_height_above_rooftop
    elif site_type == SiteType.POP:
        above = default_pop_height_on_pole
    elif site_type == SiteType.DN:
        above = default_dn_height_on_pole
    else:
        above = default_cn_height_on_pole
    return given.copy(altitude=ground + above), location_type


def zones(user_input_file_path: Optional[str], ll_boundary):
    if user_input_file_path is not None and len(user_input_file_path) > 0:
        if user_input_file_path.split(".")[-1].casefold() in ("kmz", "kml"):
            polygons = extract_polygons(user_input_file_path)
            inside = prep(ll_boundary)
            return [p for p in polygons if inside.contains(p)]
    return []
