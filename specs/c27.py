import json
import os
import re
import tempfile
import zipfile
from collections import defaultdict
from typing import Dict, List, Optional, Tuple, Union
from zipfile import BadZipFile, ZipFile

import pandas as pd
from osgeo import ogr
from pyproj import Transformer
from pyre_extensions import none_throws
from scipy.spatial import KDTree
from shapely.geometry import Point, Polygon
from shapely.prepared import prep

from terragraph_planner.common.configuration.configs import DeviceData
from terragraph_planner.common.configuration.constants import UNKNOWN_BUILDING_ID
from terragraph_planner.common.configuration.enums import DeviceType, LinkType, LocationType, SiteType, StatusType
from terragraph_planner.common.constants import LAT_LON_EPSG
from terragraph_planner.common.data_io.constants import SITE_LINK_DIST_THRESHOLD
from terragraph_planner.common.data_io.csv_library import _to_float, dms_to_decimal, load_csv_and_validate, load_input_sites_from_csv_file, load_topology_link_csv
from terragraph_planner.common.data_io.data_key import NUMERIC_KEYS, DataKey, LinkKey, SiteKey
from terragraph_planner.common.data_io.input_sites import InputSites
from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
from terragraph_planner.common.data_io.kml_library import extract_polygons, extract_demand_sites, extract_links, extract_raw_data_from_kml_file, extract_sites
from terragraph_planner.common.data_io.kml_library import _get_feature_field, _get_kml_file_path_from_kmz
from terragraph_planner.common.data_io.utils import extract_topology_from_csv_files, extract_topology_from_kml_file, map_input_sites_links_from_kml
from terragraph_planner.common.data_io.utils import _add_link_between_sites, _build_kd_tree, _find_nearest_sites_to_loc
from terragraph_planner.common.data_io.patterns import DataWorkSpace
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.common.geos import GeoLocation, TransformerLib, lat_lon_to_utm_epsg
from terragraph_planner.common.structs import RawLink, RawSite
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology



def field(feature: ogr.Feature, input: Union[SiteKey, LinkKey]):
    for i, key in enumerate(feature.keys()):
        if key.casefold() not in input.value.possible_input_names:
            continue
        value = feature.GetField(i)
        if value is None:
            continue
        return str(value)
    return ""


def sites(raw_sites: List[RawSite], layer: ogr.Layer, site_type: SiteType, status_type: StatusType):
    for feature in layer:
        sku = _get_feature_field(feature, SiteKey.DEVICE_SKU)
        name = _get_feature_field(feature, SiteKey.NAME)
        where = feature.GetGeometryRef()
        z = where.GetZ()
        mode = _get_feature_field(feature, SiteKey.ALTITUDE_MODE)
        kind = _get_feature_field(feature, SiteKey.LOCATION_TYPE).upper()
        building = _get_feature_field(feature, SiteKey.BUILDING_ID)
        subscribers = _get_feature_field(feature, SiteKey.NUMBER_OF_SUBSCRIBERS)
        location_type = LocationType[kind] if kind in LocationType.__members__ else LocationType.STREET_LEVEL
        raw_sites.append(
            RawSite(
                site_type=site_type,
                status_type=status_type,
                device_sku=None if len(sku) == 0 else sku,
                name=None if len(name) == 0 else name,
                latitude=where.GetY(),
                longitude=where.GetX(),
                altitude=z if mode == "absolute" else None,
                height=z if mode == "relativeToGround" else None,
                location_type=location_type,
                building_id=int(building) if location_type == LocationType.ROOFTOP and building.isdecimal() else None,
                number_of_subscribers=int(subscribers) if subscribers.isdecimal() else None,
            )
        )


def links(raw_links: List[RawLink], layer: ogr.Layer, link_type: LinkType, status_type: StatusType):
    for feature in layer:
        line = feature.GetGeometryRef()
        kind = _get_feature_field(feature, LinkKey.LINK_TYPE).upper()
        tx = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
        rx = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
        level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
        try:
            confidence = float(level)
        except ValueError:
            confidence = None
        raw_links.append(
            RawLink(
                link_type=LinkType.__members__.get(kind, link_type),
                status_type=status_type,
                confidence_level=confidence,
                tx_site_name=tx if len(tx) > 0 else None,
                tx_latitude=line.GetPoint(0)[1],
                tx_longitude=line.GetPoint(0)[0],
                rx_site_name=rx if len(rx) > 0 else None,
                rx_latitude=line.GetPoint(1)[1],
                rx_longitude=line.GetPoint(1)[0],
            )
        )


def demands(demand_sites: List[DemandSite], layer: ogr.Layer):
    for feature in layer:
        where = feature.GetGeometryRef()
        demand_sites.append(DemandSite(GeoLocation(latitude=where.GetY(), longitude=where.GetX(), altitude=None)))


def kml_in_kmz(kmz_file_path: str, unzipped_dir: str):
    with zipfile.ZipFile(kmz_file_path, "r") as z:
        z.extractall(unzipped_dir)
        found = [n for n in z.namelist() if n.casefold().endswith(".kml")]
        if len(found) == 0:
            raise DataException
        return os.path.join(unzipped_dir, found[0])


def kml_contents(kml_file_path: str):
    try:
        extension = os.path.splitext(kml_file_path)[-1].casefold()
        if extension == ".kmz":
            ds = DataWorkSpace()
            path = _get_kml_file_path_from_kmz(kml_file_path, ds.get_a_temp_dir())
        elif extension == ".kml":
            path = kml_file_path
        else:
            raise DataException
        folders = ogr.GetDriverByName("LIBKML").Open(path)
        status = StatusType.CANDIDATE
        raw_sites = []
        raw_links = []
        demand_sites = []
        for layer in folders:
            name = layer.GetName().casefold()
            if any(s.casefold() in name for s in StatusType.names()):
                status = StatusType[next(s for s in StatusType.names() if s.casefold() in name)]
            elif any(s.casefold() in name for s in SiteType.names()):
                extract_sites(raw_sites, layer, SiteType[next(s for s in SiteType.names() if s.casefold() in name)], status)
            elif any(s.casefold() in name for s in LinkType.names()):
                extract_links(raw_links, layer, LinkType[next(s for s in LinkType.names() if s.casefold() in name)], status)
            elif "demand site" in name:
                extract_demand_sites(demand_sites, layer)
        return raw_sites, raw_links, demand_sites
    except Exception:
        raise DataException


def polygons(kml_file_path: str):
    try:
        extension = os.path.splitext(kml_file_path)[-1].casefold()
        if extension == ".kmz":
            ds = DataWorkSpace()
            path = _get_kml_file_path_from_kmz(kml_file_path, ds.get_a_temp_dir())
        elif extension == ".kml":
            path = kml_file_path
        else:
            raise DataException
        found = []
        for layer in ogr.GetDriverByName("LIBKML").Open(path):
            for feature in layer:
                shape = feature.GetGeometryRef()
                for i in range(shape.GetGeometryCount()):
                    ring = json.loads(shape.GetGeometryRef(i).ExportToJson())["coordinates"]
                    if len(ring) > 0 and len(ring[0]) > 0 and type(ring[0][0]) is list:
                        ring = ring[0]
                    if len(ring) > 3:
                        found.append(Polygon([p[:2] for p in ring]))
        return found
    except Exception:
        raise DataException


def boundary(kml_file_path: str):
    found = extract_polygons(kml_file_path)
    if len(found) != 1:
        raise DataException
    return found[0], lat_lon_to_utm_epsg(found[0].centroid.y, found[0].centroid.x)


def decimal_degrees(dms: str):
    try:
        parts = re.split("[\\s°'\"]+", dms.strip())
        n = len(parts)
        towards = parts[n - 1]
        if not (n == 2 or n == 4) or towards not in ["N", "E", "S", "W"]:
            raise DataException
        degrees = float(parts[0])
        if n == 4:
            degrees = degrees + float(parts[1]) / 60 + float(parts[2]) / 3600
        return degrees if towards in ["N", "E"] else -degrees
    except ValueError:
        raise DataException


def csv_sites(csv_file_path: str, is_user_input: bool):
    table = load_csv_and_validate(
        csv_file_path, SiteKey.input_keys(), SiteKey.required_keys_for_user_input() if is_user_input else SiteKey.required_keys_for_topology()
    )
    rows = []
    for _, row in table.iterrows():
        kind = row.get(SiteKey.SITE_TYPE, SiteType.POP.to_string())
        try:
            site_type = SiteType[kind.upper().split(" ")[0]]
        except KeyError:
            raise DataException
        latitude = row[SiteKey.LATITUDE]
        longitude = row[SiteKey.LONGITUDE]
        if latitude is not None and longitude is not None:
            location_type = LocationType.__members__.get(row.get(SiteKey.LOCATION_TYPE, "").upper(), LocationType.UNKNOWN)
            building = row.get(SiteKey.BUILDING_ID, "")
            rows.append(
                RawSite(
                    site_type=site_type,
                    status_type=StatusType.CANDIDATE,
                    device_sku=row.get(SiteKey.DEVICE_SKU, None) or None,
                    name=row.get(SiteKey.NAME, None),
                    latitude=latitude,
                    longitude=longitude,
                    altitude=row.get(SiteKey.ALTITUDE, None),
                    height=row.get(SiteKey.HEIGHT, None),
                    location_type=location_type,
                    building_id=int(building) if location_type == LocationType.ROOFTOP and building.isdecimal() else None,
                    number_of_subscribers=row.get(SiteKey.NUMBER_OF_SUBSCRIBERS, None),
                )
            )
    return rows


def csv_links(csv_file_path: str):
    table = load_csv_and_validate(csv_file_path, LinkKey.input_keys(), LinkKey.required_keys())
    pairs = []
    seen = set()

    def add(tx: str, rx: str):
        pair = (tx.strip(), rx.strip())
        if pair in seen:
            raise DataException
        seen.add(pair)
        pairs.append(pair)

    if LinkKey.SITE_PAIR in table.columns:
        for _, row in table.iterrows():
            names = row[LinkKey.SITE_PAIR].split("-->")
            if len(names) != 2:
                raise DataException
            add(names[0], names[1])
    elif LinkKey.SITE1_NAME in table.columns and LinkKey.SITE2_NAME in table.columns:
        for _, row in table.iterrows():
            add(row[LinkKey.SITE1_NAME], row[LinkKey.SITE2_NAME])
            add(row[LinkKey.SITE2_NAME], row[LinkKey.SITE1_NAME])
    else:
        for _, row in table.iterrows():
            add(row[LinkKey.TX_SITE_NAME], row[LinkKey.RX_SITE_NAME])
    return pairs


def kd_tree(sites: InputSites):
    if len(sites) == 0:
        raise DataException
    transformer = TransformerLib.get_tranformer(LAT_LON_EPSG, sites.utm_epsg)
    return KDTree([transformer.transform(s.longitude, s.latitude) for s in sites])


def nearest(
    latitude: float,
    longitude: float,
    kdtree: KDTree,
    sites: InputSites,
    transformer: Transformer,
    geohash_to_site_ids: Dict[str, List[str]],
    site_id_to_utms: Dict[str, Tuple[float, float]],
):
    x, y = transformer.transform(longitude, latitude)
    _, i = kdtree.query([x, y], distance_upper_bound=SITE_LINK_DIST_THRESHOLD)
    if i == len(sites):
        raise DataException
    found = []
    for site_id in geohash_to_site_ids[sites[i].site_hash]:
        sx, sy = site_id_to_utms[site_id]
        if (sx - x) ** 2 + (sy - y) ** 2 <= SITE_LINK_DIST_THRESHOLD * SITE_LINK_DIST_THRESHOLD:
            found.append(sites.get_site_by_id(site_id))
    return found


def add_link(topology: Topology, tx_site: Site, rx_site: Site, raw_link: Optional[RawLink]):
    link = topology.get_link_by_site_ids(tx_site.site_id, rx_site.site_id)
    if link is None and tx_site.site_type != SiteType.CN:
        topology.add_link(
            Link(
                tx_site=tx_site,
                rx_site=rx_site,
                status_type=StatusType.CANDIDATE if raw_link is None else raw_link.status_type,
                is_wireless=True if raw_link is None else raw_link.link_type.is_wireless(),
                confidence_level=None if raw_link is None else raw_link.confidence_level,
            )
        )
    if link is not None and raw_link is not None and link.status_type != raw_link.status_type:
        raise DataException


def map_links(topology: Topology, input_sites: InputSites, raw_links: List[RawLink]):
    if len(raw_links) == 0:
        return
    at_hash = defaultdict(list)
    place = {}
    transformer = TransformerLib.get_tranformer(LAT_LON_EPSG, input_sites.utm_epsg)
    tree = _build_kd_tree(input_sites)
    for site in input_sites:
        at_hash[site.site_hash].append(site.site_id)
        place[site.site_id] = transformer.transform(site.longitude, site.latitude)
    for raw in raw_links:
        if raw.link_type == LinkType.ETHERNET:
            continue
        if raw.tx_site_name is not None and raw.rx_site_name is not None:
            tx = input_sites.get_site_by_name(raw.tx_site_name)
            rx = input_sites.get_site_by_name(raw.rx_site_name)
            if tx is None or rx is None:
                raise DataException
            _add_link_between_sites(topology, tx, rx, raw)
            _add_link_between_sites(topology, rx, tx, raw)
        else:
            first = _find_nearest_sites_to_loc(raw.tx_latitude, raw.tx_longitude, tree, input_sites, transformer, at_hash, place)
            second = _find_nearest_sites_to_loc(raw.rx_latitude, raw.rx_longitude, tree, input_sites, transformer, at_hash, place)
            for a in first:
                for b in second:
                    _add_link_between_sites(topology, a, b, raw)
                    _add_link_between_sites(topology, b, a, raw)


def from_kml(kml_file_path: str, device_list: List[DeviceData], infer_input_site_location):
    raw_sites, raw_links, demand_sites = extract_raw_data_from_kml_file(kml_file_path)
    input_sites = InputSitesLoader(device_list).get_input_sites(raw_sites, None, infer_input_site_location)
    topology = Topology(sites=input_sites, demand_sites=demand_sites)
    map_input_sites_links_from_kml(topology, input_sites, raw_links)
    return topology


def from_csv(sites_csv_file_path: str, links_csv_file_path: str, device_list: List[DeviceData], infer_input_site_location):
    raw_sites = load_input_sites_from_csv_file(sites_csv_file_path, False)
    input_sites = InputSitesLoader(device_list).get_input_sites(raw_sites, None, infer_input_site_location)
    topology = Topology(sites=input_sites)
    for a, b in load_topology_link_csv(links_csv_file_path):
        tx = input_sites.get_site_by_name(a)
        rx = input_sites.get_site_by_name(b)
        if tx is None or rx is None:
            raise DataException
        _add_link_between_sites(topology, tx, rx, None)
        _add_link_between_sites(topology, rx, tx, None)
    return topology


def from_file(topology_file_path: str, device_list: List[DeviceData], infer_input_site_location):
    if topology_file_path.casefold().endswith((".kml", ".kmz")):
        return extract_topology_from_kml_file(topology_file_path, device_list, infer_input_site_location)
    with tempfile.TemporaryDirectory() as folder:
        try:
            with ZipFile(topology_file_path, "r") as z:
                if "sites.csv" not in z.namelist() or "links.csv" not in z.namelist():
                    raise DataException
                z.extractall(folder)
        except (OSError, BadZipFile):
            raise DataException
        return extract_topology_from_csv_files(
            os.path.join(folder, "sites.csv"), os.path.join(folder, "links.csv"), device_list, infer_input_site_location
        )


def loader(self: InputSitesLoader, device_list: List[DeviceData]):
    self.device_list = device_list
    self.sku_to_device = {d.device_sku.casefold(): d for d in device_list}
    dns = [d for d in device_list if d.device_type == DeviceType.DN]
    cns = [d for d in device_list if d.device_type != DeviceType.DN]
    self.site_type_to_devices = {SiteType.POP: dns, SiteType.DN: dns, SiteType.CN: cns}


def user_input(self: InputSitesLoader, data_source: Optional[str], boundary_polygon: Optional[Polygon], infer_input_site_location):
    if data_source is None:
        return InputSites()
    if data_source.split(".")[-1].casefold() == "csv":
        raw_sites = load_input_sites_from_csv_file(data_source, True)
    else:
        raw_sites = extract_raw_data_from_kml_file(data_source)[0]
    return self.get_input_sites(raw_sites, boundary_polygon, infer_input_site_location)


def input_sites(self: InputSitesLoader, raw_sites: List[RawSite], boundary_polygon: Optional[Polygon], infer_input_site_location):
    res = InputSites()
    if boundary_polygon is not None:
        area = prep(boundary_polygon)
    for raw in raw_sites:
        if boundary_polygon is not None and not area.contains(Point(raw.longitude, raw.latitude)):
            continue
        if infer_input_site_location is None:
            location = GeoLocation(latitude=raw.latitude, longitude=raw.longitude, altitude=raw.altitude)
            location_type = raw.location_type
            building = UNKNOWN_BUILDING_ID if location_type == LocationType.ROOFTOP and raw.building_id is None else raw.building_id
        else:
            location, location_type = infer_input_site_location(
                latitude=raw.latitude,
                longitude=raw.longitude,
                altitude=raw.altitude,
                height=raw.height,
                location_type=raw.location_type,
                site_type=raw.site_type,
            )
            building = UNKNOWN_BUILDING_ID if location_type == LocationType.ROOFTOP else None
        if raw.device_sku is None:
            for device in self.site_type_to_devices[raw.site_type]:
                res.add_site(
                    Site(
                        site_type=raw.site_type,
                        location=location,
                        device=device,
                        status_type=raw.status_type,
                        location_type=location_type,
                        building_id=building,
                        name=raw.name or "",
                        number_of_subscribers=raw.number_of_subscribers,
                    )
                )
        else:
            if raw.device_sku.casefold() not in self.sku_to_device:
                raise DataException
            res.add_site(
                Site(
                    site_type=raw.site_type,
                    location=location,
                    device=self.sku_to_device[raw.device_sku.casefold()],
                    status_type=raw.status_type,
                    location_type=location_type,
                    building_id=building,
                    name=raw.name or "",
                    number_of_subscribers=raw.number_of_subscribers,
                )
            )
    return res


def duplicated(self: InputSites, site: Site):
    key = (site.latitude, site.longitude, site.altitude, site.site_type, site.location_type, site.name, site.device.device_sku.casefold())
    known = key in self._primary_key_set
    self._primary_key_set.add(key)
    return known


def add_site(self: InputSites, site: Site):
    if not self._is_duplicated_site(site):
        self._validate_site_name(site)
        self._site_list.append(site)
        self._site_id_to_site[site.site_id] = site


def name_site(self: InputSites, site: Site):
    sku = site.device.device_sku.casefold()
    if sku in self._site_name_to_device_skus[site.name]:
        raise DataException
    if len(self._site_name_to_device_skus[site.name]) == 1:
        self._append_device_sku_to_site_name(self._site_name_to_site[site.name])
    self._site_name_to_device_skus[site.name].add(sku)
    if len(self._site_name_to_device_skus[site.name]) > 1:
        self._append_device_sku_to_site_name(site)
    else:
        self._site_name_to_site[site.name] = site


def append_sku(self: InputSites, site: Site):
    if site.name in self._site_name_to_site:
        del self._site_name_to_site[site.name]
    site.name = f"{site.name}_{site.device.device_sku.casefold()}"
    self._site_name_to_site[site.name] = site


def zone(self: InputSites):
    return None if len(self) == 0 else lat_lon_to_utm_epsg(self._site_list[0].latitude, self._site_list[0].longitude)


def by_name(self: InputSites, site_name: str):
    return self._site_name_to_site.get(site_name, None)


def by_id(self: InputSites, site_id: str):
    return self._site_id_to_site.get(site_id, None)


def combined(self: InputSites, other_site_list: InputSites):
    for site in other_site_list:
        self.add_site(site)
    return self



def csv_number(value: str):
    try:
        return float(value) if len(value.strip()) > 0 else None
    except ValueError:
        raise DataException


def csv_table(csv_file_path: str, input_key_list: List[DataKey], required_key_lists: List[List[DataKey]]):
    df = pd.DataFrame()
    try:
        df = pd.read_csv(csv_file_path, header=0, keep_default_na=False, encoding="utf-8-sig")
    except Exception:
        raise DataException
    for title in df.columns:
        df.rename(columns={title: title.strip().casefold()}, inplace=True)
    twice = []
    matches = {}
    for key in input_key_list:
        titles = key.value.possible_input_names.intersection(set(df.columns))
        for title in titles:
            if key not in NUMERIC_KEYS:
                df[title] = df[title].apply(str)
            df.rename(columns={title: key}, inplace=True)
        matches[key] = len(titles)
        if matches[key] > 1:
            twice.append(key.value.output_name)
    for title in df.columns:
        if not isinstance(title, (SiteKey, LinkKey)):
            df.drop(title, axis=1, inplace=True)
    if len(twice) != 0:
        raise DataException
    if not any(all(key in matches and matches[key] != 0 for key in keys) for keys in required_key_lists):
        raise DataException
    for i, row in df.iterrows():
        if SiteKey.LATITUDE in row and isinstance(row[SiteKey.LATITUDE], str):
            df.loc[i, SiteKey.LATITUDE] = dms_to_decimal(row[SiteKey.LATITUDE])
        if SiteKey.LONGITUDE in row and isinstance(row[SiteKey.LONGITUDE], str):
            df.loc[i, SiteKey.LONGITUDE] = dms_to_decimal(row[SiteKey.LONGITUDE])
        if SiteKey.NUMBER_OF_SUBSCRIBERS in row:
            if df.loc[i, SiteKey.NUMBER_OF_SUBSCRIBERS] == "":
                df.loc[i, SiteKey.NUMBER_OF_SUBSCRIBERS] = None
            elif isinstance(row[SiteKey.NUMBER_OF_SUBSCRIBERS], str):
                try:
                    df.loc[i, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(row[SiteKey.NUMBER_OF_SUBSCRIBERS])
                except ValueError:
                    raise DataException
        if SiteKey.ALTITUDE in row and isinstance(row[SiteKey.ALTITUDE], str):
            df.loc[i, SiteKey.ALTITUDE] = _to_float(row[SiteKey.ALTITUDE])
        if SiteKey.HEIGHT in row and isinstance(row[SiteKey.HEIGHT], str):
            df.loc[i, SiteKey.HEIGHT] = _to_float(row[SiteKey.HEIGHT])
        for key in input_key_list:
            if key in row and key not in NUMERIC_KEYS:
                df.loc[i, key] = row[key].strip()
    return df
