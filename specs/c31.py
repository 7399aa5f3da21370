import math
from itertools import product
from typing import List, Tuple

import numpy as np
from osgeo import gdal
from pyre_extensions import none_throws
from scipy.spatial import cKDTree
from terragraph_planner.common.data_io.constants import DEFAULT_ELEVATION_SEARCH_RADIUS, NO_DATA_VALUE
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.common.structs import Point3D, UTMBoundingBox
from terragraph_planner.los.elevation import Elevation, ElevationKDTree


def upsample(elevation1: Elevation, elevation2: Elevation):
    x = min(elevation1.x_resolution, elevation2.x_resolution)
    y = min(elevation1.y_resolution, elevation2.y_resolution)
    elevation1.set_resolution(x, y)
    elevation2.set_resolution(x, y)


def resample(self, x_resolution: float, y_resolution: float):
    if x_resolution == self.x_resolution and y_resolution == self.y_resolution:
        return
    columns = math.ceil((self.utm_bounding_box.max_utm_x + x_resolution / 2 - self.left_top_x) / x_resolution)
    rows = math.ceil((self.left_top_y - self.utm_bounding_box.min_utm_y + y_resolution / 2) / y_resolution)
    data = np.zeros((rows, columns), dtype=self.data_matrix.dtype)
    for j in range(rows):
        for i in range(columns):
            data[j][i] = self.get_value(self.left_top_x + x_resolution * i, self.left_top_y - y_resolution * j)
    self.data_matrix = data
    self.x_resolution = x_resolution
    self.y_resolution = y_resolution


def cells_within(self, min_utm_x: float, min_utm_y: float, max_utm_x: float, max_utm_y: float):
    first_x = math.ceil((min_utm_x - self.left_top_x) / self.x_resolution)
    last_x = math.floor((max_utm_x - self.left_top_x) / self.x_resolution)
    first_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
    last_y = math.floor((self.left_top_y - min_utm_y) / self.y_resolution)
    xs = [self.left_top_x + i * self.x_resolution for i in range(first_x, last_x + 1)]
    ys = [self.left_top_y - i * self.y_resolution for i in range(first_y, last_y + 1)]
    return [Point3D(x, y, self.get_value(x, y)) for x, y in product(xs, ys)]


def matrix_within(self, min_utm_x: float, min_utm_y: float, max_utm_x: float, max_utm_y: float):
    first_x = math.ceil((min_utm_x - self.left_top_x) / self.x_resolution)
    last_x = math.floor((max_utm_x - self.left_top_x) / self.x_resolution)
    first_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
    last_y = math.floor((self.left_top_y - min_utm_y) / self.y_resolution)
    found = self.data_matrix[max(first_y, 0) : max(last_y + 1, 0), max(first_x, 0) : max(last_x + 1, 0)]
    if found.size == 0:
        return np.array([[self.get_value(min_utm_x, min_utm_y)]])
    return found


def grid_add(self, other_geogrids):
    if not self._has_same_metadata(other_geogrids):
        raise DataException("")
    return Elevation(
        np.where((self.data_matrix == NO_DATA_VALUE) | (other_geogrids.data_matrix == NO_DATA_VALUE), np.float32(NO_DATA_VALUE), self.data_matrix + other_geogrids.data_matrix),
        self.utm_bounding_box,
        self.x_resolution,
        self.y_resolution,
        self.left_top_x,
        self.left_top_y,
        self.spatial_reference,
        None,
    )


def grid_sub(self, other_geogrids):
    if not self._has_same_metadata(other_geogrids):
        raise DataException("")
    return Elevation(
        np.where((self.data_matrix == NO_DATA_VALUE) | (other_geogrids.data_matrix == NO_DATA_VALUE), np.float32(NO_DATA_VALUE), self.data_matrix - other_geogrids.data_matrix),
        self.utm_bounding_box,
        self.x_resolution,
        self.y_resolution,
        self.left_top_x,
        self.left_top_y,
        self.spatial_reference,
        None,
    )


def raster_init(self, data_matrix, utm_bounding_box, x_resolution, y_resolution, left_top_x, left_top_y, spatial_reference, collection_time):
    self.spatial_reference = spatial_reference
    self.data_matrix = data_matrix
    self.utm_bounding_box = utm_bounding_box
    self.x_resolution = x_resolution
    self.y_resolution = y_resolution
    self.left_top_x = left_top_x
    self.left_top_y = left_top_y
    self.elevation_search_radius = DEFAULT_ELEVATION_SEARCH_RADIUS
    self.elevation_kd_tree = None
    self.collection_time = collection_time


def width(self):
    return self.data_matrix.shape[1]


def height(self):
    return self.data_matrix.shape[0]


def closest_valid(self, points: List[Tuple[float, float]]):
    if self.elevation_kd_tree is None:
        self.elevation_kd_tree = ElevationKDTree(self.get_data_as_list())
    return none_throws(self.elevation_kd_tree).find_closest_valid_elevation(points, self.elevation_search_radius)


def tree_init(self, elevation_data: List[Tuple[float, float, float]]):
    assert len(elevation_data) > 0
    where = []
    heights = []
    for x, y, z in elevation_data:
        where.append((x, y))
        heights.append(z)
    self.elevation_data = elevation_data
    self.kdtree = cKDTree(where)
    self.average_elevation = sum(heights) / len(heights)


def tree_closest(self, points: List[Tuple[float, float]], elevation_search_radius: int):
    _, nearest = self.kdtree.query(points, distance_upper_bound=elevation_search_radius)
    return [self.average_elevation if n == len(self.elevation_data) else self.elevation_data[n][2] for n, p in zip(nearest, points)]


def write_raster(self, dest_file_path: str, data: Elevation):
    try:
        driver = gdal.GetDriverByName("GTiff")
        driver.Register()
        out = driver.Create(dest_file_path, xsize=data.x_size, ysize=data.y_size, bands=1, eType=gdal.GDT_Float32)
        out.SetGeoTransform([data.left_top_x, data.x_resolution, 0, data.left_top_y, 0, -data.y_resolution])
        out.SetSpatialRef(data.spatial_reference)
        band = out.GetRasterBand(1)
        band.WriteArray(data.data_matrix)
        band.SetNoDataValue(NO_DATA_VALUE)
        band.FlushCache()
    except Exception:
        raise DataException("")
