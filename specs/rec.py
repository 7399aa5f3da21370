"""What an element says about itself is what it was made from."""
from typing import Iterable, List, Optional, Tuple

from terragraph_planner.common.configuration.configs import DeviceData, GISDataParams, SectorParams
from terragraph_planner.common.configuration.enums import LocationType, SectorType, SiteType, StatusType
from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
from terragraph_planner.common.data_io.csv_library import read_antenna_pattern_data, read_mcs_snr_mbps_map_data, read_scan_pattern_data
from terragraph_planner.common.data_io.input_sites import InputSites
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import LOSSite, Site
from terragraph_planner.common.utils import deterministic_hash
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.fresnel_zone import FresnelZone


def made_site(site_type: SiteType, location: GeoLocation, device: DeviceData, status_type: StatusType, location_type: LocationType, building_id: Optional[int], name: str, number_of_subscribers: Optional[int]):
    s = Site(site_type, location, device, status_type, location_type, building_id, name, number_of_subscribers)
    return (s.site_type, s.location, s.device, s.status_type, s.location_type, s.building_id, s.name, s.number_of_subscribers, s.site_id,
            s.latitude, s.longitude, s.altitude, s.utm_x, s.utm_y, s.utm_epsg)


def given_site(site_type: SiteType, location: GeoLocation, device: DeviceData, status_type: StatusType, location_type: LocationType, building_id: Optional[int], name: str, number_of_subscribers: Optional[int]):
    identity = deterministic_hash(site_type.value, location.latitude, location.longitude, location.altitude, device.device_sku)
    if name:
        shown = name
    else:
        shown = identity
    n = 0
    if site_type == SiteType.CN:
        n = number_of_subscribers if number_of_subscribers else 1
    return (site_type, location, device, status_type, location_type, building_id, shown, n, identity,
            location.latitude, location.longitude, location.altitude, location.utm_x, location.utm_y, location.utm_epsg)


def restated_site(site: Site, status_type: StatusType):
    site.status_type = status_type
    return site.status_type


def restated_sector(sector: Sector, status_type: StatusType):
    sector.status_type = status_type
    return sector.status_type


def restated_link(link: Link, status_type: StatusType):
    link.status_type = status_type
    return link.status_type


def stated_site(site: Site, status_type: StatusType):
    return status_type


def stated_sector(sector: Sector, status_type: StatusType):
    return status_type


def stated_link(link: Link, status_type: StatusType):
    return status_type


def made_sector(site: Site, node_id: int, position_in_node: int, ant_azimuth: float, status_type: StatusType, channel: int):
    s = Sector(site, node_id, position_in_node, ant_azimuth, status_type, channel)
    return (s.site, s.node_id, s.position_in_node, s.ant_azimuth, s.status_type, s.channel, s.sector_type, s.node_capex, s.sector_id)


def given_sector(site: Site, node_id: int, position_in_node: int, ant_azimuth: float, status_type: StatusType, channel: int):
    kind = SectorType.CN if site.site_type == SiteType.CN else SectorType.DN
    return (site, node_id, position_in_node, ant_azimuth, status_type, channel, kind, site.device.node_capex, f"{site.site_id}-{node_id}-{position_in_node}-{kind.name}")


def made_link(tx_site: Site, rx_site: Site, status_type: StatusType, is_wireless: bool, confidence_level: Optional[float]):
    k = Link(tx_site, rx_site, None, None, status_type, is_wireless, confidence_level)
    return (k.tx_site, k.rx_site, k.tx_sector, k.rx_sector, k.status_type, k.is_wireless, k.confidence_level, k.link_id, k.sorted_site_ids)


def given_link(tx_site: Site, rx_site: Site, status_type: StatusType, is_wireless: bool, confidence_level: Optional[float]):
    a = tx_site.site_id
    b = rx_site.site_id
    return (tx_site, rx_site, None, None, status_type, is_wireless, confidence_level, f"{a}-{b}", (a, b) if a < b else (b, a))


def made_link_of_sectors(tx_sector: Sector, rx_sector: Sector):
    k = Link(None, None, tx_sector, rx_sector)
    return (k.tx_site, k.rx_site, k.tx_sector, k.rx_sector, k.status_type)


def given_link_of_sectors(tx_sector: Sector, rx_sector: Sector):
    return (tx_sector.site, rx_sector.site, tx_sector, rx_sector, StatusType.CANDIDATE)


def made_demand(location: GeoLocation, num_sites: int, demand: Optional[float], connected_sites: Iterable[Site]):
    d = DemandSite(location, num_sites, demand, connected_sites)
    return (d.demand_id, d.num_sites, d.demand, d.connected_sites, d.latitude, d.longitude, d.altitude, d.utm_x, d.utm_y, d.utm_epsg)


def given_demand(location: GeoLocation, num_sites: int, demand: Optional[float], connected_sites: Iterable[Site]):
    return (deterministic_hash(location.latitude, location.longitude, location.altitude), num_sites, demand, [s for s in connected_sites], location.latitude, location.longitude, location.altitude, location.utm_x, location.utm_y, location.utm_epsg)


def asked_rectangle(v: CylindricalLOSValidator, p: Tuple[float, float], pq: Tuple[float, float], pr: Tuple[float, float], pq_squared: float, pr_squared: float, x: float, y: float):
    return v._filter_points_outside_of_rectangle(p, pq, pr, pq_squared, pr_squared)(x, y)


def inside_rectangle(v: CylindricalLOSValidator, p: Tuple[float, float], pq: Tuple[float, float], pr: Tuple[float, float], pq_squared: float, pr_squared: float, x: float, y: float):
    along = (x - p[0]) * pq[0] + (y - p[1]) * pq[1]
    across = (x - p[0]) * pr[0] + (y - p[1]) * pr[1]
    return along >= 0 and along <= pq_squared and across >= 0 and across <= pr_squared


def empty_inputs(name: str):
    s = InputSites()
    return (s.__len__(), s.get_site_by_name(name), s.get_site_by_id(name), s.site_list)


def nothing(name: str):
    return (0, None, None, [])


def one_input(site: Site, other: Site):
    s = InputSites()
    s.add_site(site)
    return (s.__len__(), s.__getitem__(0), s.get_site_by_name(site.name), s.get_site_by_id(site.site_id), s.site_list, [x for x in s.__iter__()])


def just_it(site: Site, other: Site):
    return (1, site, site, site, [site], [site])


def asked_zone(site1: LOSSite, site2: LOSSite, frequency_mhz: float, los_confidence_threshold: float):
    z = FresnelZone(site1, site2, frequency_mhz, los_confidence_threshold)
    return (z.site1, z.site2, z.frequency_mhz, z.los_confidence_threshold)


def given_zone(site1: LOSSite, site2: LOSSite, frequency_mhz: float, los_confidence_threshold: float):
    return (site1, site2, frequency_mhz, los_confidence_threshold)


def asked_surfaces(boundary_polygon_file_path: str, dsm_file_paths: Optional[List[Optional[str]]]):
    return GISDataParams(boundary_polygon_file_path, dsm_file_paths=dsm_file_paths).dsm_file_paths


def given_surfaces(boundary_polygon_file_path: str, dsm_file_paths: Optional[List[Optional[str]]]):
    if dsm_file_paths is None:
        return []
    return [x for x in dsm_file_paths if x is not None]


def tables(self: SectorParams, antenna_pattern_file_path: Optional[str], scan_pattern_file_path: Optional[str], mcs_map_file_path: Optional[str]):
    self.antenna_pattern_data = None if antenna_pattern_file_path is None else read_antenna_pattern_data(antenna_pattern_file_path)
    self.scan_pattern_data = None if scan_pattern_file_path is None else read_scan_pattern_data(scan_pattern_file_path)
    self.mcs_map = DEFAULT_MCS_SNR_MBPS_MAP if mcs_map_file_path is None else read_mcs_snr_mbps_map_data(mcs_map_file_path, self)
