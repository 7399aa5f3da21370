import math
from typing import Optional

import numpy as np
from pyproj import Transformer
from pyre_extensions import none_throws

from terragraph_planner.common.configuration.enums import LinkType, StatusType
from terragraph_planner.common.exceptions import GeoSystemException, TopologyException
from terragraph_planner.common.geos import GEOHASH_SEED, GeoLocation, TransformerLib, _get_length_ratio, _law_of_cosines, _longitude_to_utm_zone, angle_delta, bearing_in_degrees, haversine_distance, lat_lon_to_utm_epsg, translate_point
from terragraph_planner.common.topology_models.link import Link


# EARTH_RADIUS in meters, precision of a geohash: documented constants
R = 6371000.0

PRIVATE = {'_longitude_to_utm_zone': 'zone', '_law_of_cosines': 'cosines', '_get_length_ratio': 'ratio'}


def delta(angle1: float, angle2: float):
    d = angle1 - angle2
    if d > 180.0:
        return d - 360.0
    if d <= -180.0:
        return d + 360.0
    return d


def zone(longitude: float):
    return int(math.floor((longitude + 180) / 6) % 60) + 1


def epsg(lat: float, longitude: float):
    if lat >= 0:
        return 32600 + _longitude_to_utm_zone(longitude)
    return 32700 + _longitude_to_utm_zone(longitude)


def haversine(longitude_a: float, latitude_a: float, longitude_b: float, latitude_b: float):
    h = np.sin(np.radians(latitude_b - latitude_a) / 2.0) ** 2 + np.cos(np.radians(latitude_a)) * np.cos(np.radians(latitude_b)) * np.sin(np.radians(longitude_b - longitude_a) / 2.0) ** 2
    return R * 2 * np.arctan2(np.sqrt(h), np.sqrt(1 - h))


def translate(longitude: float, latitude: float, bearing: float, distance: float):
    d = distance / R
    phi = np.radians(latitude)
    lat = np.arcsin(np.sin(phi) * np.cos(d) + np.cos(phi) * np.sin(d) * np.cos(np.radians(bearing)))
    dl = np.arctan2(np.sin(np.radians(bearing)) * np.sin(d) * np.cos(phi), np.cos(d) - np.sin(phi) * np.sin(lat))
    return longitude + np.degrees(dl), np.degrees(lat)


def grid(starting_longitude: float, starting_latitude: float, grid_spacing: float):
    return (translate_point(starting_longitude, starting_latitude, 90, grid_spacing)[0] - starting_longitude, translate_point(starting_longitude, starting_latitude, 0, grid_spacing)[1] - starting_latitude)


def cosines(len1: float, len2: float, len3: float):
    assert len1 > 0 and len2 > 0
    if len3 == 0:
        return 0
    return np.degrees(np.arccos(min(1, max(-1, ((len1**2) + (len2**2) - (len3**2)) / (2 * len1 * len2)))))


def ratio(len1: float, len2: float):
    assert len1 > 0 and len2 > 0
    return max(len1, len2) / min(len1, len2)


def cosines_spherical(lat0: float, lon0: float, lat1: float, lon1: float, lat2: float, lon2: float):
    a = haversine_distance(lon0, lat0, lon1, lat1)
    b = haversine_distance(lon0, lat0, lon2, lat2)
    return _law_of_cosines(a, b, haversine_distance(lon1, lat1, lon2, lat2)), _get_length_ratio(a, b)


def cosines_utm(x0: float, y0: float, x1: float, y1: float, x2: float, y2: float):
    return _law_of_cosines(np.sqrt((x1 - x0) ** 2 + (y1 - y0) ** 2), np.sqrt((x2 - x0) ** 2 + (y2 - y0) ** 2), np.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2))


def bearing(longitude_a: float, latitude_a: float, longitude_b: float, latitude_b: float):
    d = np.radians(longitude_b - longitude_a)
    return np.degrees(np.arctan2(
        np.cos(np.radians(latitude_b)) * np.sin(d),
        np.cos(np.radians(latitude_a)) * np.sin(np.radians(latitude_b)) - np.sin(np.radians(latitude_a)) * np.cos(np.radians(latitude_b)) * np.cos(d))) % 360


def geohash(lat: float, longitude: float):
    if not (-90.0 <= lat <= 90.0):
        raise GeoSystemException
    if not (-180.0 <= longitude <= 180.0):
        raise GeoSystemException
    la = [-90.0, 90.0]
    lo = [-180.0, 180.0]
    text = ""
    odd = False
    bits = [16, 8, 4, 2, 1]
    for _ in range(10):
        ch = 0
        for bit in bits:
            if odd:
                mid = sum(la) / 2
                if lat < mid:
                    la = [la[0], mid]
                else:
                    la = [mid, la[1]]
                    ch |= bit
            else:
                mid = sum(lo) / 2
                if longitude < mid:
                    lo = [lo[0], mid]
                else:
                    lo = [mid, lo[1]]
                    ch |= bit
            odd = not odd
        text += GEOHASH_SEED[ch]
    return text


def location(self: GeoLocation, latitude: Optional[float] = None, longitude: Optional[float] = None, utm_x: Optional[float] = None, utm_y: Optional[float] = None, utm_epsg: Optional[int] = None,
             altitude: Optional[float] = None):
    if latitude is not None and longitude is not None:
        if latitude < -90 or latitude > 90 or longitude < -180 or longitude > 180:
            raise GeoSystemException
        self._latitude = latitude
        self._longitude = longitude
        self._utm_x = None
        self._utm_y = None
        self._utm_epsg = None
    elif utm_x is not None and utm_y is not None and utm_epsg is not None:
        if not (32600 < utm_epsg <= 32660) and not (32700 < utm_epsg <= 32760):
            raise GeoSystemException
        self._latitude = None
        self._longitude = None
        self._utm_x = utm_x
        self._utm_y = utm_y
        self._utm_epsg = utm_epsg
    else:
        raise GeoSystemException
    self._altitude = altitude


def copy_location(self: GeoLocation, **kwargs):
    return GeoLocation(
        latitude=kwargs.get("latitude", self._latitude), longitude=kwargs.get("longitude", self._longitude), utm_x=kwargs.get("utm_x", self._utm_x), utm_y=kwargs.get("utm_y", self._utm_y),
        utm_epsg=kwargs.get("utm_epsg", self._utm_epsg), altitude=kwargs.get("altitude", self._altitude))


def to_lat_lon(self: GeoLocation):
    t = TransformerLib.get_tranformer(self._utm_epsg, 4326)
    xy = t.transform(self._utm_x, self._utm_y)
    self._longitude = xy[0]
    self._latitude = xy[1]


def to_utm(self: GeoLocation):
    self._utm_epsg = lat_lon_to_utm_epsg(self.latitude, self.longitude)
    t = TransformerLib.get_tranformer(4326, self._utm_epsg)
    xy = t.transform(self.longitude, self.latitude)
    self._utm_x = xy[0]
    self._utm_y = xy[1]


def transformer(crs_from: int, crs_to: int):
    if (crs_from, crs_to) not in TransformerLib._transformer_dict:
        TransformerLib._transformer_dict[(crs_from, crs_to)] = Transformer.from_crs(crs_from=crs_from, crs_to=crs_to, always_xy=True)
    return TransformerLib._transformer_dict[(crs_from, crs_to)]


def azimuths(self: Link):
    b = bearing_in_degrees(self.tx_site.longitude, self.tx_site.latitude, self.rx_site.longitude, self.rx_site.latitude)
    self._tx_beam_azimuth = b
    self._rx_beam_azimuth = (b + 180.0) % 360.0


def tx_dev(self: Link):
    if self.link_type == LinkType.ETHERNET or self.tx_sector is None:
        return None
    return angle_delta(self.tx_beam_azimuth, self.tx_sector.ant_azimuth)


def rx_dev(self: Link):
    if self.link_type == LinkType.ETHERNET or self.rx_sector is None:
        return None
    return angle_delta(self.rx_beam_azimuth, self.rx_sector.ant_azimuth)


def el_dev(self: Link):
    if self.distance > 0 and self.tx_site.altitude is not None and self.rx_site.altitude is not None:
        return math.degrees(math.asin((self.rx_site.altitude - self.tx_site.altitude) / self.distance))
    return 0


def channel(self: Link):
    if self.status_type in {StatusType.PROPOSED, StatusType.EXISTING}:
        if self.tx_sector and self.rx_sector:
            if self.tx_sector.channel != self.rx_sector.channel:
                raise TopologyException
            return self.tx_sector.channel
    return -1


def distance(self: Link):
    if self._distance is None:
        flat = float(haversine_distance(self.tx_site.longitude, self.tx_site.latitude, self.rx_site.longitude, self.rx_site.latitude))
        if self.tx_site.altitude is None or self.rx_site.altitude is None:
            self._distance = flat
        else:
            self._distance = math.sqrt(flat * flat + (self.tx_site.altitude - self.rx_site.altitude) ** 2)
    return self._distance


def lazy_lat(self: GeoLocation):
    if self._latitude is None:
        self._update_lat_lon()
    return self._latitude


def lazy_lon(self: GeoLocation):
    if self._longitude is None:
        self._update_lat_lon()
    return self._longitude


def lazy_x(self: GeoLocation):
    if self._utm_x is None:
        self._update_utm()
    return self._utm_x


def lazy_y(self: GeoLocation):
    if self._utm_y is None:
        self._update_utm()
    return self._utm_y


def lazy_epsg(self: GeoLocation):
    if self._utm_epsg is None:
        self._update_utm()
    return self._utm_epsg


def lazy_tx(self: Link):
    if self._tx_beam_azimuth is None:
        self._update_azimuth()
    return self._tx_beam_azimuth


def lazy_rx(self: Link):
    if self._rx_beam_azimuth is None:
        self._update_azimuth()
    return self._rx_beam_azimuth
