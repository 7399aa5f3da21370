from typing import Optional

from terragraph_planner.common.configuration.configs import DeviceData
from terragraph_planner.common.configuration.enums import DeviceType, LinkType, LocationType, SectorType, SiteType, StatusType
from terragraph_planner.common.exceptions import TopologyException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site


def site_init(self: Site, site_type: SiteType, location: GeoLocation, device: DeviceData, status_type: StatusType,
              location_type: LocationType, building_id: Optional[int], name: str, number_of_subscribers: Optional[int]):
    rooftop = location_type == LocationType.ROOFTOP
    if rooftop != (building_id is not None):
        raise TopologyException
    want = DeviceType.CN if site_type == SiteType.CN else DeviceType.DN
    if device.device_type != want:
        raise TopologyException
    self._site_type = site_type
    self._location = location
    self._device = device
    self._location_type = location_type
    self._building_id = building_id
    self._name = name
    self._number_of_subscribers = number_of_subscribers


def compatible(tx_site: Site, rx_site: Site, tx_sector: Sector, rx_sector: Sector, status_type: StatusType):
    """The status rules (C02) are met."""
    return status_type == StatusType.CANDIDATE and (
        tx_site is None or tx_site._status_type == StatusType.CANDIDATE) and (
        rx_site is None or rx_site._status_type == StatusType.CANDIDATE) and (
        tx_sector is None or tx_sector._site._status_type == StatusType.CANDIDATE) and (
        rx_sector is None or rx_sector._site._status_type == StatusType.CANDIDATE)


def link_init(self: Link, tx_site: Optional[Site], rx_site: Optional[Site], tx_sector: Optional[Sector], rx_sector: Optional[Sector],
              status_type: StatusType, is_wireless: bool, confidence_level: Optional[float]):
    if tx_site is None and tx_sector is None or rx_site is None and rx_sector is None:
        raise TopologyException
    a = tx_site if tx_site is not None else tx_sector._site
    b = rx_site if rx_site is not None else rx_sector._site
    if a._site_type == SiteType.CN:
        raise TopologyException
    if (tx_sector is None) != (rx_sector is None):
        raise TopologyException
    if tx_sector is not None:
        if tx_sector._site is not a:
            raise TopologyException
        if rx_sector._site is not b:
            raise TopologyException
    self._tx_site = a
    self._rx_site = b
    self._tx_sector = tx_sector
    self._rx_sector = rx_sector
    self.is_wireless = is_wireless
    self.confidence_level = confidence_level


def set_tx_sector(self: Link, tx_sector: Sector):
    if tx_sector._site is not self._tx_site:
        raise TopologyException
    self._tx_sector = tx_sector


def set_rx_sector(self: Link, rx_sector: Sector):
    if rx_sector._site is not self._rx_site:
        raise TopologyException
    self._rx_sector = rx_sector


def clear_sectors(self: Link):
    self._tx_sector = None
    self._rx_sector = None


def out_of_sector(self: Link):
    return self._tx_sector is None or self._rx_sector is None


def link_type(self: Link):
    if self.is_wireless:
        return LinkType.WIRELESS_ACCESS if self._rx_site._site_type == SiteType.CN else LinkType.WIRELESS_BACKHAUL
    return LinkType.ETHERNET


def is_wireless_type(self: LinkType):
    return self == LinkType.WIRELESS_ACCESS or self == LinkType.WIRELESS_BACKHAUL


def sector_ok(site: Site, status_type: StatusType):
    return site._status_type == StatusType.CANDIDATE and status_type == StatusType.CANDIDATE


def sector_init(self: Sector, site: Site, node_id: int, position_in_node: int, ant_azimuth: float, status_type: StatusType, channel: int):
    self._site = site
    self._sector_type = SectorType.CN if site._site_type == SiteType.CN else SectorType.DN
    self._node_id = node_id
    self._position_in_node = position_in_node
    self.ant_azimuth = ant_azimuth
    self.channel = channel


def subscribers(self: Site):
    if self._site_type != SiteType.CN:
        return 0
    return self._number_of_subscribers or 1


def site_name(self: Site):
    return self._name if len(self._name) > 0 else self._site_id
