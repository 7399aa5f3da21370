from typing import List, Optional, Tuple

import numpy as np
from osgeo import osr
from PIL import Image, ImageDraw
from pyre_extensions import none_throws
from shapely import ops, prepared
from shapely.geometry import MultiPolygon, Point, Polygon
from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.constants import LAT_LON_EPSG
from terragraph_planner.common.geos import GeoLocation, TransformerLib, law_of_cosines_utm
from terragraph_planner.common.structs import Point3D
from terragraph_planner.common.topology_models.site import DetectedSite, Site
from terragraph_planner.los.building import Building, detect_corners_from_polygon_vertices
from terragraph_planner.los.constants import BUILDING_HEIGHT_THRESHOLD, HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH, MIN_CORNER_ANGLE, MINIMUM_BUILDING_AREA, POLYGON_MINIMUM_VERTICES
from terragraph_planner.los.elevation import Elevation


def sharp_corners(polygon_exterior_coords: List[Tuple[float, float]], max_corner_angle: float):
    ring = polygon_exterior_coords[:]
    ring.append(ring[1])
    found = []
    for i in range(2, len(ring)):
        angle = round(law_of_cosines_utm(ring[i - 1][0], ring[i - 1][1], ring[i - 2][0], ring[i - 2][1], ring[i][0], ring[i][1]), 2)
        if angle >= MIN_CORNER_ANGLE and angle <= max_corner_angle:
            found.append(ring[i - 1])
    return found


def everything(self, surface_elevation: Optional[Elevation], max_corner_angle: Optional[int], detect_corners: bool, detect_center: bool, detect_highest: bool):
    found = []
    if detect_corners:
        found.extend(self.detect_corners(surface_elevation, max_corner_angle))
    if detect_center:
        found.append(self.detect_center(surface_elevation))
    if detect_highest:
        found.append(self.detect_highest(none_throws(surface_elevation)))
    return found


def corners(self, surface_elevation: Optional[Elevation], max_corner_angle: Optional[float]):
    vertices = list(self.polygon.exterior.coords)
    found = []
    if len(vertices) < POLYGON_MINIMUM_VERTICES:
        return found
    where = detect_corners_from_polygon_vertices(vertices, max_corner_angle) if max_corner_angle is not None else vertices[:-1]
    if len(where) == 0:
        where = vertices[0:1]
    for x, y in where:
        if surface_elevation is None:
            found.append(Point3D(x, y, 0))
        else:
            around = surface_elevation.get_value_matrix_within_bound(
                x - HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH, y - HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH, x + HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH, y + HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH
            )
            rows = len(around)
            columns = len(around[0])
            altitude = None
            for j in range(rows):
                if altitude is not None:
                    break
                for i in range(columns):
                    for o in [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 1), (1, -1), (1, 0), (1, 1)]:
                        v = j + o[0]
                        u = i + o[1]
                        if 0 <= v and v < rows and 0 <= u and u < columns and around[j, i] - around[v, u] > BUILDING_HEIGHT_THRESHOLD:
                            altitude = around[j, i]
                            break
            if altitude is None:
                altitude = surface_elevation.get_value(x, y)
            found.append(Point3D(x, y, altitude))
    return found


def center(self, surface_elevation: Optional[Elevation]):
    middle = self.polygon.centroid
    if not self.polygon.intersects(middle):
        middle = self.polygon.representative_point()
    x, y = list(middle.coords)[0]
    return Point3D(x, y, 0 if surface_elevation is None else surface_elevation.get_value(x, y))


def highest(self, surface_elevation: Elevation):
    west, south, east, north = self.polygon.bounds
    best = None
    for p in surface_elevation.get_value_list_within_bound(west, south, east, north):
        if best is None or p.z > best.z:
            if self.polygon.intersects(Point((p.x, p.y))):
                best = p
    if best is None:
        best = self.detect_center(surface_elevation)
    return best


def add(self, building: Optional[Building] = None, polygon: Optional[Polygon] = None):
    if building is not None:
        if building.polygon.is_valid and not building.polygon.is_empty:
            self.building_list.append(building)
    elif polygon is not None:
        if polygon.is_valid and not polygon.is_empty:
            self.building_list.append(Building(polygon))


def prepare(self, ll_boundary_polygon: Polygon, utm_epsg_code: int, selection_polygons: Optional[List[Polygon]]):
    if self.crs_epsg_code != LAT_LON_EPSG:
        to_ll = TransformerLib.get_tranformer(self.crs_epsg_code, LAT_LON_EPSG)
        for b in self.building_list:
            b.polygon = ops.transform(to_ll.transform, b.polygon)
    boundary = prepared.prep(ll_boundary_polygon)
    todo = self.building_list
    self.building_list = []
    for b in todo:
        shape = b.polygon
        if shape is None or not shape.is_valid:
            continue
        if boundary.contains(shape):
            self.add_building(building=b)
        elif boundary.intersects(shape):
            part = shape.intersection(ll_boundary_polygon)
            if isinstance(part, Polygon):
                self.add_building(polygon=part)
            elif isinstance(part, MultiPolygon):
                for piece in part:
                    self.add_building(polygon=piece)
    if selection_polygons is not None and len(selection_polygons) > 0:
        todo = self.building_list
        self.building_list = []
        selection = prepared.prep(ops.unary_union(selection_polygons))
        for b in todo:
            if selection.contains(b.polygon):
                self.add_building(b)
    to_utm = TransformerLib.get_tranformer(LAT_LON_EPSG, utm_epsg_code)
    todo = self.building_list
    self.building_list = []
    for b in todo:
        shape = ops.transform(to_utm.transform, b.polygon)
        if shape.area > MINIMUM_BUILDING_AREA:
            self.add_building(polygon=shape)
    self.spatial_reference = osr.SpatialReference()
    self.spatial_reference.ImportFromEPSG(utm_epsg_code)


def candidates(self, surface_elevation: Optional[Elevation], site_height_above_rooftop: float, max_corner_angle: Optional[float], detect_corners: bool, detect_center: bool, detect_highest: bool):
    def site(p: Point3D, building: int):
        lon, lat = to_ll.transform(p.x, p.y)
        altitude = None
        if surface_elevation is not None:
            altitude = p.z + site_height_above_rooftop
        return DetectedSite(site_type=SiteType.DN, location=GeoLocation(latitude=lat, longitude=lon, altitude=altitude), building_id=building)

    found = []
    to_ll = TransformerLib.get_tranformer(self.crs_epsg_code, LAT_LON_EPSG)
    for n, b in enumerate(self.building_list):
        if detect_center:
            found.append(site(b.detect_center(surface_elevation), n))
        if detect_highest and surface_elevation is not None:
            found.append(site(b.detect_highest(surface_elevation), n))
        if detect_corners:
            points = b.detect_corners(surface_elevation, max_corner_angle)
            if len(points) <= 3:
                for p in points:
                    found.append(site(p, n))
            else:
                step = len(points) // 3
                for k in range(3):
                    found.append(site(points[k * step], n))
    return found


def heights(self, dtm: Elevation, default_building_height: float):
    image = Image.new("F", (dtm.x_size, dtm.y_size), 0)
    draw = ImageDraw.Draw(image)
    for b in self.building_list:
        draw.polygon(
            xy=[((x - dtm.left_top_x) / dtm.x_resolution, (dtm.left_top_y - y) / dtm.y_resolution) for x, y in b.polygon.exterior.coords],
            fill=int(default_building_height * 1000),
            outline=int(default_building_height * 1000),
        )
    return Elevation(
        data_matrix=np.asarray(image) / 1000,
        utm_bounding_box=dtm.utm_bounding_box,
        x_resolution=dtm.x_resolution,
        y_resolution=dtm.y_resolution,
        left_top_x=dtm.left_top_x,
        left_top_y=dtm.left_top_y,
        spatial_reference=dtm.spatial_reference,
        collection_time=None,
    )


def detected(self, site_type: SiteType, location: GeoLocation, building_id: int):
    kind = DeviceType.DN
    if site_type == SiteType.CN:
        kind = DeviceType.CN
    Site.__init__(
        self, site_type, location, DeviceData(device_sku="FAKE", device_type=kind, sector_params=SectorParams()), StatusType.CANDIDATE, LocationType.ROOFTOP, building_id, "", None
    )


def with_device(self, device: DeviceData):
    return Site(self.site_type, self._location, device, self.status_type, self.location_type, self.building_id, self._name, self.number_of_subscribers)
