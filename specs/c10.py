import math
from typing import List, Optional

from pyre_extensions import none_throws
from shapely.geometry import LineString, Polygon
from shapely.prepared import prep

from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common.exceptions import LOSException, planner_assert
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.base_los_validator import BaseLOSValidator
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
from terragraph_planner.los.elevation import Elevation


def base_init(self, surface_elevation, max_los_distance: float, min_los_distance: float, max_el_dev: float, exclusion_zones: List[Polygon], los_confidence_threshold: float):
    if not (min_los_distance > 0 and max_los_distance > min_los_distance):
        raise LOSException("")
    if not (max_el_dev >= 0 and max_el_dev <= 90):
        raise LOSException("")
    if not (los_confidence_threshold >= 0 and los_confidence_threshold <= 1):
        raise LOSException("")
    self._surface_elevation = surface_elevation
    self._max_los_distance = max_los_distance
    self._min_los_distance = min_los_distance
    self._max_el_dev = max_el_dev
    self._exclusion_zones = [prep(z) for z in exclusion_zones]
    self._los_confidence_threshold = los_confidence_threshold


def basic_rules(self, site1: LOSSite, site2: LOSSite):
    # 1. different horizontal position
    if site1.utm_x == site2.utm_x and site1.utm_y == site2.utm_y:
        return False
    # 2. not on the roof of the same known building
    both_roof = site1.location_type == 2 and site2.location_type == 2
    if both_roof and site1.building_id is not None and site1.building_id > -1 and site1.building_id == site2.building_id:
        return False
    # 3. length within the limits, limits included
    dx = site2.utm_x - site1.utm_x
    dy = site2.utm_y - site1.utm_y
    dz = 0
    if site1.altitude is not None and site2.altitude is not None:
        dz = site2.altitude - site1.altitude
    length = math.sqrt(dx * dx + dy * dy + dz * dz)
    if length < self._min_los_distance or length > self._max_los_distance:
        return False
    # 4. not steeper than the limit
    if site1.altitude is not None and site2.altitude is not None:
        if math.degrees(math.asin(abs(site1.altitude - site2.altitude) / length)) > self._max_el_dev:
            return False
    # 5. outside every exclusion zone
    line = LineString(((site1.utm_x, site1.utm_y), (site2.utm_x, site2.utm_y)))
    for zone in self._exclusion_zones:
        if zone.intersects(line):
            return False
    return True


def cylindrical(self, site1: LOSSite, site2: LOSSite):
    if not self._passes_simple_checks(site1, site2):
        return 0.0
    if self._surface_elevation is None:
        return 1.0
    return self._compute_confidence_by_radius(site1, site2)
