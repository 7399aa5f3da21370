import csv
import glob
import math
import os
import zipfile
from datetime import datetime, timedelta
from itertools import combinations

import pandas as pd
from osgeo import gdal, ogr, osr
from pyre_extensions import none_throws
from shapely import geometry, ops, wkt

from terragraph_planner.common.constants import LAT_LON_EPSG
from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
from terragraph_planner.common.data_io.building_group_rules import MAC_RESOURCE_FORK_DIR, BuildingGroupRules, ZippedShpFileRules
from terragraph_planner.common.data_io.constants import MIN_RES_TO_OUTPUT_AS_LIST, NO_DATA_VALUE
from terragraph_planner.common.data_io.csv_library import cleaned_str_input
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.data_io.elevation_rules import DAYS_AGO, EXPECTED_DATETIME_FORMAT, YEARS_AGO, ElevationRules
from terragraph_planner.common.data_io.kml_library import extract_boundary_polygon, extract_polygons
from terragraph_planner.common.data_io.shared_rules import has_crs_rule, vertical_crs_is_valid_if_present_rule
from terragraph_planner.common.exceptions import DataException, TopologyException, planner_assert
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.geos import TransformerLib
from terragraph_planner.common.structs import MCSMap, UTMBoundingBox
from terragraph_planner.los.building import Building
from terragraph_planner.los.building_group import BuildingGroup
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.helper import upsample_to_same_resolution


def assert_that(condition, message, exception_type):
    if not condition:
        raise exception_type(message)


def extension(file_name, expected_ext, file_role):
    if file_name.split(".")[-1].casefold() not in expected_ext:
        raise DataException("")


def has_crs(spatial_reference, role_str):
    if spatial_reference.GetAttrValue("AUTHORITY") is None:
        return [DataException("")]
    return []


def vertical_crs(spatial_reference, valid_unit_names, role_str):
    errors = []
    if spatial_reference.GetAttrValue("VERT_CS") is not None:
        datum = spatial_reference.GetAttrValue("VERT_CS|VERT_DATUM")
        unit = spatial_reference.GetAttrValue("VERT_CS|UNIT")
        first = spatial_reference.GetAttrValue("VERT_CS|AXIS")
        second = spatial_reference.GetAttrValue("VERT_CS|AXIS", 1)
        if datum is None:
            errors.append(DataException(""))
        if unit is None or unit not in valid_unit_names:
            errors.append(DataException(""))
        if first != "up" and second != "up":
            errors.append(DataException(""))
    return errors


def building_crs(self):
    return has_crs_rule(self.building_group.spatial_reference, self.role)


def building_vertical(self, valid_unit_names):
    return vertical_crs_is_valid_if_present_rule(self.building_group.spatial_reference, valid_unit_names, self.role)


def geometries(self, expected_geometries):
    if any(building.polygon.geom_type not in expected_geometries for building in self.building_group.building_list):
        return [DataException("")]
    return []


def top_level(self):
    if any("/" in name and os.path.dirname(name) != MAC_RESOURCE_FORK_DIR for name in self.namelist):
        return [DataException("")]
    return []


def one_shp(self):
    n = 0
    for name in self.namelist:
        if not os.path.basename(name).startswith(".") and os.path.splitext(name)[1] == ".shp":
            n += 1
    if n != 1:
        return [DataException("")]
    return []


def geogcs(self):
    errors = []
    sr = self.elevation.spatial_reference
    if sr.GetAttrValue("GEOGCS") is None:
        return []
    if sr.GetAttrValue("GEOGCS|DATUM") is None:
        errors.append(DataException(""))
    if sr.GetAttrValue("GEOGCS|PRIMEM") is None:
        errors.append(DataException(""))
    if sr.GetAttrValue("GEOGCS|UNIT") is None or sr.GetAttrValue("GEOGCS|UNIT", 1) is None:
        errors.append(DataException(""))
    return errors


def elevation_crs(self):
    return has_crs_rule(self.elevation.spatial_reference, self.role)


def elevation_vertical(self, valid_unit_names):
    return vertical_crs_is_valid_if_present_rule(self.elevation.spatial_reference, valid_unit_names, self.role)


def collection_time(self):
    if self.elevation.collection_time is None:
        return []
    now = datetime.now()
    try:
        taken = datetime.strptime(self.elevation.collection_time, EXPECTED_DATETIME_FORMAT)
    except ValueError:
        return [DataException("")]
    if now - taken > timedelta(days=365 * YEARS_AGO + DAYS_AGO):
        return [DataException("")]
    if now < taken:
        return [DataException("")]
    return []


def linear_unit(self, linear_units, linear_units_names):
    errors = []
    sr = self.elevation.spatial_reference
    if sr.GetAttrValue("PROJCS") is None:
        return []
    if sr.GetLinearUnits() != linear_units:
        errors.append(DataException(""))
    if sr.GetLinearUnitsName() not in linear_units_names:
        errors.append(DataException(""))
    return errors


def pixel_size(self, min_pixel_size, max_pixel_size):
    sr = self.elevation.spatial_reference
    if sr.GetAttrValue("PROJCS") is None:
        return []
    w = self.elevation.x_resolution
    h = self.elevation.y_resolution
    if w < min_pixel_size or w > max_pixel_size or h < min_pixel_size or h > max_pixel_size:
        return [DataException("")]
    return []


def validate_elevation(self, gis_data):
    rules = ElevationRules(gis_data)
    self.errors += (
        rules.has_crs_rule()
        + rules.geogcs_has_enough_info_rule()
        + rules.has_recent_collection_time_rule()
        + rules.has_valid_linear_unit_rule(1.0, {"metre", "meter", "m"})
        + rules.has_valid_pixel_size_rule(0.15, 35.0)
        + rules.vertical_crs_is_valid_if_present_rule({"metre", "meter", "m"})
    )


def validate_buildings(self, gis_data, role):
    rules = BuildingGroupRules(gis_data, role)
    self.errors += (
        rules.has_crs_rule()
        + rules.vertical_crs_is_valid_if_present_rule({"metre", "meter", "m"})
        + rules.only_contains_certain_geometries_rule({"Polygon"})
    )


def validate_shp(self, namelist):
    rules = ZippedShpFileRules(namelist)
    self.errors += rules.all_files_at_top_level_in_zip_rule() + rules.zip_file_contains_exactly_one_shp_file()


def read_elevation(self, file_paths, utm_epsg_code, utm_bounding_box):
    try:
        sources = []
        for path in file_paths:
            sources.append(gdal.Open(path))
        ds = gdal.Warp("", sources, format="MEM", dstSRS=f"EPSG:{utm_epsg_code}", dstNodata=NO_DATA_VALUE, srcNodata=None)
        g = ds.GetGeoTransform()
        ds = gdal.Translate(
            "",
            ds,
            projWin=(utm_bounding_box.min_utm_x, utm_bounding_box.max_utm_y, utm_bounding_box.max_utm_x, utm_bounding_box.min_utm_y),
            xRes=round(math.sqrt(g[1] ** 2 + g[4] ** 2), 6),
            yRes=round(math.sqrt(g[2] ** 2 + g[5] ** 2), 6),
            format="MEM",
            noData=NO_DATA_VALUE,
        )
        g = ds.GetGeoTransform()
    except Exception:
        raise DataException("")
    elevation = Elevation(
        ds.ReadAsArray(),
        utm_bounding_box,
        g[1],
        -g[5],
        g[0],
        g[3],
        ds.GetSpatialRef(),
        ds.GetMetadata_Dict()["TIFFTAG_DATETIME"] if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict() else None,
    )
    self.validate(elevation)
    return elevation


def read_buildings(self, file_path):
    try:
        if file_path.casefold().endswith("zip"):
            copy = self.get_a_temp_file_path("zip")
            with open(copy, "wb") as f:
                with open(file_path, "rb") as fh:
                    f.write(fh.read())
            unzipped = self.get_a_temp_dir()
            with zipfile.ZipFile(copy, "r") as archive:
                self.validate_shp_file(archive.namelist())
                archive.extractall(unzipped)
                dirs = [ref.filename for ref in archive.infolist() if ref.is_dir() and os.path.dirname(ref.filename) != MAC_RESOURCE_FORK_DIR]
                if len(dirs) > 1:
                    raise DataException("")
            where = unzipped if len(dirs) == 0 else os.path.join(unzipped, dirs[0])
            shp = glob.glob(os.path.join(where, "*.shp"))[0]
            driver = ogr.GetDriverByName("ESRI Shapefile")
            ds = driver.Open(shp)
            layer = ds.GetLayer()
            reference = layer.GetSpatialRef()
            buildings = []
            feature = layer.GetNextFeature()
            while feature:
                polygon = wkt.loads(feature.GetGeometryRef().ExportToWkt())
                if polygon.has_z:
                    polygon = geometry.Polygon([coord[:2] for coord in polygon.exterior.coords])
                buildings.append(Building(polygon))
                feature = layer.GetNextFeature()
            group = BuildingGroup(buildings, reference)
            self.validate(group, "Building SHP")
            return group
        else:
            buildings = [Building(polygon) for polygon in extract_polygons(file_path)]
            reference = osr.SpatialReference()
            reference.ImportFromEPSG(LAT_LON_EPSG)
            group = BuildingGroup(buildings, reference)
            self.validate(group, "Building KML")
            return group
    except Exception:
        raise DataException("")


def gis_data(gis_data_params):
    boundary, zone = extract_boundary_polygon(gis_data_params.boundary_polygon_file_path)
    if not boundary.is_valid:
        raise DataException("")
    bounds = ops.transform(TransformerLib.get_tranformer(LAT_LON_EPSG, zone).transform, boundary).bounds
    box = UTMBoundingBox(min_utm_x=math.floor(bounds[0]), min_utm_y=math.floor(bounds[1]), max_utm_x=math.ceil(bounds[2]), max_utm_y=math.ceil(bounds[3]))
    buildings_loader = BuildingGroupLoader()
    if gis_data_params.building_outline_file_path is not None:
        buildings = buildings_loader.read(gis_data_params.building_outline_file_path)
        buildings.preprocess(boundary, zone, [])
    else:
        buildings = None
    loader = ElevationLoader()
    dsm = None
    dtm = None
    dhm = None
    if len(gis_data_params.dsm_file_paths) > 0:
        dsm = loader.read(gis_data_params.dsm_file_paths, zone, box)
    if gis_data_params.dtm_file_path is not None:
        dtm = loader.read([gis_data_params.dtm_file_path], zone, box)
    if gis_data_params.dhm_file_path is not None:
        dhm = loader.read([gis_data_params.dhm_file_path], zone, box)
    if dsm is None and dtm is not None and dhm is not None:
        upsample_to_same_resolution(dtm, dhm)
        dsm = dtm + dhm
    elif dsm is not None and dtm is None and dhm is not None:
        upsample_to_same_resolution(dsm, dhm)
        dtm = dsm - dhm
    if len(buildings_loader.errors) + len(loader.errors) > 0:
        raise DataException("")
    return boundary, dsm, dtm, buildings


def cleaned(name):
    return "" if name is None else name.casefold().strip()


def antenna_pattern(pattern_file_path):
    patterns = {}
    try:
        data = pd.read_csv(pattern_file_path, header=None, sep=None, skipinitialspace=True, engine="python")
        data = data.applymap(lambda x: x.strip().upper() if isinstance(x, str) else x)
        data = data.replace("", pd.NA)
        data = data.dropna(axis=1, how="all").dropna(axis=0, how="all")
        data = data.reset_index(drop=True)
    except Exception:
        raise DataException("")
    names = data[data[0] == "NAME"].index
    az_starts = data[data[0] == "HORIZONTAL"].index
    el_starts = data[data[0] == "VERTICAL"].index
    if len(names) == 0 or not len(names) == len(az_starts) == len(el_starts):
        raise DataException("")
    for i in range(len(names)):
        try:
            az = data.iloc[az_starts[i] + 1 : az_starts[i] + 361].astype("float")
            el = data.iloc[el_starts[i] + 1 : el_starts[i] + 361].astype("float")
        except ValueError:
            raise DataException("")
        if len(az) != 360 or len(el) != 360:
            raise DataException("")
        patterns[cleaned_str_input(str(data.iloc[names[i]][1]))] = [(-1 * az[1]).values.tolist(), (-1 * el[1]).values.tolist()]
    return patterns


def scan_pattern(pattern_file_path):
    try:
        table = pd.read_csv(pattern_file_path, index_col=0).to_dict("index")
        return {float(hor): {float(ver): float(v) for ver, v in row.items()} for hor, row in table.items()}
    except Exception:
        raise DataException("")


def mcs_map(map_file_path, sector_params):
    rows = []
    try:
        with open(map_file_path, mode="r") as f:
            for row in csv.reader(f):
                rows.append(row)
    except Exception:
        raise DataException("")
    if len(rows) <= 1:
        raise DataException("")
    names = [name.casefold().strip() for name in rows[0]]
    if "tx_backoff" not in names:
        names.append("tx_backoff")
        rows[0].append("tx_backoff")
        for i in range(1, len(rows)):
            rows[i].append("0")
    for row in rows:
        if len(row) != 4:
            raise DataException("")
    keys = ["mcs", "snr", "mbps", "tx_backoff"]
    cols = {}
    for key in keys:
        cols[key] = [i for i in range(len(names)) if key in names[i]]
    if any(len(cols[key]) != 1 for key in keys) or any(cols[a] == cols[b] for a, b in combinations(keys, 2)):
        raise DataException("")
    mapping = {k: [] for k in keys}
    for row in rows[1:]:
        for i in range(len(row)):
            try:
                mapping[keys[i]].append(float(row[cols[keys[i]][0]]))
            except ValueError:
                raise DataException("")
    orders = [[i[0] for i in sorted(enumerate(mapping[key]), key=lambda x: x[1])] for key in ["mcs", "snr", "mbps", "tx_backoff"]]
    if not (orders[0] == orders[1] and orders[0] == orders[2] and orders[0] == orders[3]):
        raise DataException("")
    if sector_params.minimum_mcs_level is not None and max(mapping["mcs"]) < sector_params.minimum_mcs_level:
        raise DataException("")
    return [
        MCSMap(mcs=int(mapping["mcs"][i]), snr=mapping["snr"][i], mbps=mapping["mbps"][i], tx_backoff=mapping["tx_backoff"][i])
        for i in range(len(rows) - 1)
        if (sector_params.minimum_tx_power is None or sector_params.maximum_tx_power - mapping["tx_backoff"][i] >= sector_params.minimum_tx_power)
        and (sector_params.minimum_mcs_level is None or mapping["mcs"][i] >= sector_params.minimum_mcs_level)
    ]


def grid_value(self, x, y):
    i, j = self.utm_to_idx(x, y)
    if not (0 <= i < self.x_size and 0 <= j < self.y_size):
        raise DataException("")
    if self.data_matrix[j, i] == NO_DATA_VALUE:
        self.data_matrix[j, i] = self.find_closest_valid_elevation([(x, y)])[0]
    return self.data_matrix[j, i]


def grid_list(self):
    dy = math.ceil(MIN_RES_TO_OUTPUT_AS_LIST / self.y_resolution)
    dx = math.ceil(MIN_RES_TO_OUTPUT_AS_LIST / self.x_resolution)
    found = []
    for j in range(0, self.y_size, dy):
        for i in range(0, self.x_size, dx):
            if self.data_matrix[j][i] != NO_DATA_VALUE:
                x, y = self.idx_to_utm(i, j)
                found.append((x, y, self.data_matrix[j, i]))
    if len(found) == 0:
        raise DataException("")
    return found


def same_grid(self, other_geogrids):
    a = self
    b = other_geogrids
    return (
        a.left_top_x == b.left_top_x
        and a.left_top_y == b.left_top_y
        and a.x_size == b.x_size
        and a.y_size == b.y_size
        and a.x_resolution == b.x_resolution
        and a.y_resolution == b.y_resolution
        and a.crs_epsg_code == b.crs_epsg_code
    )


def link_between(self, tx_site_id, rx_site_id, **kwarg):
    if tx_site_id not in self.sites:
        raise TopologyException("")
    if rx_site_id not in self.sites:
        raise TopologyException("")
    self.add_link(Link(tx_site=self.sites[tx_site_id], rx_site=self.sites[rx_site_id], **kwarg))
