"""C01/C02: reference predicates for status changes."""
from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.exceptions import TopologyException
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site


def frozen_site(self: Site, status_type: StatusType):
    return (self._status_type == StatusType.EXISTING or self._status_type == StatusType.UNAVAILABLE
            or status_type == StatusType.EXISTING or status_type == StatusType.UNAVAILABLE)


def frozen_sector(self: Sector, status_type: StatusType):
    return (self._status_type == StatusType.EXISTING or self._status_type == StatusType.UNAVAILABLE
            or status_type == StatusType.EXISTING or status_type == StatusType.UNAVAILABLE)


def frozen_link(self: Link, status_type: StatusType):
    return (self._status_type == StatusType.EXISTING or self._status_type == StatusType.UNAVAILABLE
            or status_type == StatusType.EXISTING or status_type == StatusType.UNAVAILABLE)


def sector_ok(site: Site, s: StatusType):
    t = site._status_type
    if t == StatusType.PROPOSED or t == StatusType.EXISTING:
        return s in (StatusType.CANDIDATE, StatusType.PROPOSED, StatusType.EXISTING)
    return s == t


def link_ok(a: StatusType, b: StatusType, s: StatusType):
    if s == StatusType.EXISTING and not (a == StatusType.EXISTING and b == StatusType.EXISTING):
        return False
    if (a == StatusType.UNAVAILABLE or b == StatusType.UNAVAILABLE) and s != StatusType.UNAVAILABLE:
        return False
    if (a == StatusType.UNREACHABLE or b == StatusType.UNREACHABLE) and s != StatusType.UNREACHABLE:
        return False
    if (a == StatusType.CANDIDATE or b == StatusType.CANDIDATE) and s in (StatusType.PROPOSED, StatusType.EXISTING):
        return False
    return True


def set_site(self: Site, status_type: StatusType):
    if frozen_site(self, status_type):
        raise TopologyException
    self._status_type = status_type


def set_sector(self: Sector, status_type: StatusType):
    if frozen_sector(self, status_type):
        raise TopologyException
    if not sector_ok(self._site, status_type):
        raise TopologyException
    self._status_type = status_type


def set_link(self: Link, status_type: StatusType):
    if frozen_link(self, status_type):
        raise TopologyException
    if not link_ok(self._tx_site._status_type, self._rx_site._status_type, status_type):
        raise TopologyException
    self._status_type = status_type


def status_rules_sector(site: Site, status_type: StatusType):
    if not sector_ok(site, status_type):
        raise TopologyException


def link_structure(tx_site: Site, rx_site: Site, tx_sector: Sector, rx_sector: Sector):
    """Both ends known, sites given, sectors absent: the status rules alone decide."""
    return tx_site is not None and rx_site is not None and tx_sector is None and rx_sector is None and tx_site._site_type != SiteType.CN


def status_rules_link(tx_site: Site, rx_site: Site, tx_sector: Sector, rx_sector: Sector, status_type: StatusType):
    if not link_ok(tx_site._status_type, rx_site._status_type, status_type):
        raise TopologyException


def sectors_given(tx_site: Site, rx_site: Site, tx_sector: Sector, rx_sector: Sector):
    return (tx_site is not None and rx_site is not None and tx_sector is not None and rx_sector is not None and tx_site._site_type != SiteType.CN
            and tx_sector._site is tx_site and rx_sector._site is rx_site)


def sites_from_sectors(tx_site: Site, rx_site: Site, tx_sector: Sector, rx_sector: Sector):
    return (tx_site is None and rx_site is None and tx_sector is not None and rx_sector is not None and tx_sector._site._site_type != SiteType.CN)


def status_rules_link_sectors(tx_site: Site, rx_site: Site, tx_sector: Sector, rx_sector: Sector, status_type: StatusType):
    if not link_ok(tx_sector._site._status_type, rx_sector._site._status_type, status_type):
        raise TopologyException
