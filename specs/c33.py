import math
import os
from collections import deque
from functools import partial
from itertools import chain
from multiprocessing import Pool, cpu_count
from time import time
from typing import Dict, List, Optional, Tuple, Union

from pyre_extensions import assert_is_instance, none_throws
from shapely.geometry import Polygon
from shapely.prepared import prep
from terragraph_planner.common.configuration.configs import GISDataParams, LOSParams, OptimizerParams
from terragraph_planner.common.configuration.constants import DATA, LINE_OF_SIGHT
from terragraph_planner.common.configuration.enums import DebugFile, LocationType, OutputFile, SiteType
from terragraph_planner.common.configuration.utils import struct_objects_from_file
from terragraph_planner.common.utils import set_system_control_with_config_file
from terragraph_planner.common.data_io.topology_serializer import dump_topology_to_kml
from terragraph_planner.common.exceptions import LOSException
from terragraph_planner.common.structs import CandidateLOS, ValidLOS
from terragraph_planner.common.topology_models.site import LOSSite, Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.los.base_los_validator import BaseLOSValidator
from terragraph_planner.los.constants import BATCH_SIZE
from terragraph_planner.los.core import build_candidate_topology, compute_los, generate_candidate_topology, load_gis_data
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.helper import compute_los_batch, get_los_topology, get_max_los_dist_for_device_pairs, get_site_connectable_status, pre_los_check


def from_file(config_file_path: str):
    set_system_control_with_config_file(config_file_path)
    data = assert_is_instance(struct_objects_from_file(DATA, config_file_path), GISDataParams)
    los = assert_is_instance(struct_objects_from_file(LINE_OF_SIGHT, config_file_path), LOSParams)
    return generate_candidate_topology(los, data)


def generate(los_params: LOSParams, gis_data_params: GISDataParams):
    pre_los_check(los_params, gis_data_params)
    boundary, surface, terrain, buildings = load_gis_data(gis_data_params)
    detected = []
    if buildings is not None:
        how = los_params.site_detection
        detected = buildings.detect_site_candidates(surface, los_params.mounting_height_above_rooftop, how.max_corner_angle, how.detect_corners, how.detect_centers, how.detect_highest)
    sites, pairs, zones, base = get_los_topology(gis_data_params, los_params, boundary, detected, surface, terrain)
    reach = get_max_los_dist_for_device_pairs(
        los_params.device_list, los_params.maximum_eirp, los_params.minimum_mcs_of_backhaul_links, los_params.minimum_mcs_of_access_links, los_params.maximum_los_distance
    )
    valid = compute_los(
        sites,
        pairs,
        surface,
        zones,
        max(reach.values()),
        los_params.minimum_los_distance,
        los_params.maximum_elevation_scan_angle,
        los_params.los_confidence_threshold,
        los_params.use_ellipsoidal_los_model,
        los_params.fresnel_radius,
        los_params.carrier_frequency,
        los_params.num_processors,
    )
    topology = build_candidate_topology(los_params, base, sites, valid, reach, gis_data_params.building_outline_file_path is not None)
    dump_topology_to_kml(topology, OutputFile.CANDIDATE_TOPOLOGY)
    return topology


def all_los(
    sites: List[Site],
    candidate_links: List[CandidateLOS],
    surface_elevation: Optional[Elevation],
    exclusion_zones: List[Polygon],
    max_los_distance: int,
    min_los_distance: int,
    max_el_scan_angle: float,
    los_confidence_threshold: float,
    use_ellipsoidal_los_model: bool,
    fresnel_radius: float,
    carrier_frequency: float,
    num_processors: Optional[int],
):
    if num_processors is None or num_processors > cpu_count():
        num_processors = cpu_count()
    places = [LOSSite(utm_x=s.utm_x, utm_y=s.utm_y, altitude=s.altitude, location_type=s.location_type.value, building_id=s.building_id) for s in sites]
    zones = [z.wkt for z in exclusion_zones]
    grid = surface_elevation
    with Pool(num_processors) as pool:
        found = pool.map(
            partial(
                compute_los_batch,
                los_sites=places,
                exclusion_zones_wkts=zones,
                elevation_data_matrix=None if grid is None else grid.data_matrix,
                utm_bounding_box=None if grid is None else grid.utm_bounding_box,
                x_resolution=None if grid is None else grid.x_resolution,
                y_resolution=None if grid is None else grid.y_resolution,
                crs_epsg_code=None if grid is None else grid.crs_epsg_code,
                left_top_x=None if grid is None else grid.left_top_x,
                left_top_y=None if grid is None else grid.left_top_y,
                max_los_distance=max_los_distance,
                min_los_distance=min_los_distance,
                max_el_scan_angle=max_el_scan_angle,
                los_confidence_threshold=los_confidence_threshold,
                use_ellipsoidal_los_model=use_ellipsoidal_los_model,
                fresnel_radius=fresnel_radius,
                carrier_frequency=carrier_frequency,
            ),
            [candidate_links[i * BATCH_SIZE : min((i + 1) * BATCH_SIZE, len(candidate_links))] for i in range(math.ceil(len(candidate_links) / BATCH_SIZE))],
        )
    return list(chain(*found))


def base_validator(self, surface_elevation: Optional[Elevation], max_los_distance: float, min_los_distance: float, max_el_dev: float, exclusion_zones: List[Polygon], los_confidence_threshold: float):
    if min_los_distance <= 0 or max_los_distance <= min_los_distance:
        raise LOSException("")
    if not (max_el_dev >= 0 and max_el_dev <= 90):
        raise LOSException("")
    if not (los_confidence_threshold >= 0 and los_confidence_threshold <= 1.0):
        raise LOSException("")
    self._surface_elevation = surface_elevation
    self._max_los_distance = max_los_distance
    self._min_los_distance = min_los_distance
    self._max_el_dev = max_el_dev
    self._exclusion_zones = [prep(z) for z in exclusion_zones]
    self._los_confidence_threshold = los_confidence_threshold


def connectable(sites: List[Site], rx_neighbors: List[List[int]], picked_sites: List[int]):
    waiting = set(picked_sites)
    others = set(range(len(sites))) - waiting
    reached = set()
    reachable = set()
    todo = deque()
    for i, s in enumerate(sites):
        if s.site_type == SiteType.POP and i in waiting:
            todo.append(i)
            waiting.remove(i)
            reached.add(i)
    while len(todo) > 0:
        i = todo.popleft()
        for j in rx_neighbors[i]:
            if j in waiting:
                todo.append(j)
                waiting.remove(j)
                reached.add(j)
            elif j in others:
                others.remove(j)
                reachable.add(j)
    return reached, waiting, reachable, others


def additional(sites: List[Site], rx_neighbors: List[List[int]], tx_neighbors: List[List[int]], picked_sites: List[int]):
    reached, waiting, reachable, others = get_site_connectable_status(sites, rx_neighbors, picked_sites)
    cns = set(filter(lambda i: sites[i].site_type == SiteType.CN, waiting))
    todo = deque(map(lambda i: (i, 1), cns))
    chosen = []
    while len(todo) > 0:
        cn, times = todo.popleft()
        if cn not in cns:
            continue
        best = None
        most = []
        for dn in filter(lambda n: n in reachable, tx_neighbors[cn]):
            covered = list(filter(lambda n: n in cns, rx_neighbors[dn]))
            if len(covered) > len(most):
                best = dn
                most = covered
        if best is not None:
            chosen.append(best)
            cns -= set(most)
            reached.add(best)
            reachable.remove(best)
            for n in rx_neighbors[best]:
                if n in others:
                    others.remove(n)
                    reachable.add(n)
                elif n in waiting:
                    waiting.remove(n)
                    reached.add(n)
        elif times < 3:
            todo.append((cn, times + 1))
    return chosen


def cylinder(self, surface_elevation, max_los_distance, min_los_distance, max_el_dev, fresnel_radius, exclusion_zones, los_confidence_threshold):
    BaseLOSValidator.__init__(self, surface_elevation, max_los_distance, min_los_distance, max_el_dev, exclusion_zones, los_confidence_threshold)
    self._fresnel_radius = fresnel_radius
    self._fresnel_radius_sq = fresnel_radius ** 2


def ellipsoid(self, surface_elevation, max_los_distance, min_los_distance, max_el_dev, frequency_mhz, exclusion_zones, los_confidence_threshold):
    BaseLOSValidator.__init__(self, surface_elevation, max_los_distance, min_los_distance, max_el_dev, exclusion_zones, los_confidence_threshold)
    self._frequency_mhz = frequency_mhz
