from collections import defaultdict
from typing import Iterable

from terragraph_planner.common.configuration.enums import LinkType, PolarityType, SiteType, StatusType
from terragraph_planner.common.exceptions import PlannerException, TopologyException
from terragraph_planner.common.structs import GeoPoint
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import DetectedSite, Site
from terragraph_planner.common.topology_models.topology import Topology


def add_site(self: Topology, site: Site):
    if isinstance(site, DetectedSite) or site._site_id in self.sites:
        raise TopologyException
    self.sites[site._site_id] = site


def remove_site(self: Topology, site_id: str):
    if site_id not in self.sites:
        raise TopologyException
    for sector_id in self.site_id_to_sector_ids[site_id]:
        del self.sectors[sector_id]
    del self.site_id_to_sector_ids[site_id]
    doomed = set()
    if site_id in self.site_connectivity:
        doomed |= set(self.site_connectivity[site_id].values())
    if site_id in self.site_connectivity_reverse:
        doomed |= set(self.site_connectivity_reverse[site_id].values())
    for link_id in doomed:
        drop_link(self, link_id)
    del self.sites[site_id]


def drop_link(self: Topology, link_id: str):
    tx = self.links[link_id]._tx_site._site_id
    rx = self.links[link_id]._rx_site._site_id
    del self.site_connectivity[tx][rx]
    del self.site_connectivity_reverse[rx][tx]
    del self.links[link_id]


def add_demand_site(self: Topology, demand_site: DemandSite):
    self.demand_sites[demand_site._demand_id] = demand_site


def remove_demand_site(self: Topology, demand_site_id: str):
    if demand_site_id not in self.demand_sites:
        raise TopologyException
    del self.demand_sites[demand_site_id]


def add_sector(self: Topology, sector: Sector):
    if sector._sector_id in self.sectors or sector._site._site_id not in self.sites:
        raise TopologyException
    self.sectors[sector._sector_id] = sector
    self.site_id_to_sector_ids[sector._site._site_id].add(sector._sector_id)


def remove_sector(self: Topology, sector_id: str):
    if sector_id not in self.sectors:
        raise TopologyException
    site_id = self.sectors[sector_id]._site._site_id
    if site_id not in self.sites:
        raise TopologyException
    if site_id in self.site_connectivity:
        for link_id in self.site_connectivity[site_id].values():
            link = self.links[link_id]
            if link._tx_sector is not None and link._tx_sector._sector_id == sector_id:
                link._tx_sector = None
                link._rx_sector = None
    if site_id in self.site_connectivity_reverse:
        for link_id in self.site_connectivity_reverse[site_id].values():
            link = self.links[link_id]
            if link._rx_sector is not None and link._rx_sector._sector_id == sector_id:
                link._tx_sector = None
                link._rx_sector = None
    self.site_id_to_sector_ids[site_id].remove(sector_id)
    del self.sectors[sector_id]


def add_link(self: Topology, link: Link):
    tx = link._tx_site._site_id
    rx = link._rx_site._site_id
    if tx not in self.sites or rx not in self.sites:
        raise PlannerException
    self.links[link._link_id] = link
    if tx not in self.site_connectivity:
        self.site_connectivity[tx] = {}
    self.site_connectivity[tx][rx] = link._link_id
    if rx not in self.site_connectivity_reverse:
        self.site_connectivity_reverse[rx] = {}
    self.site_connectivity_reverse[rx][tx] = link._link_id


def remove_link(self: Topology, link_id: str):
    if link_id not in self.links:
        raise PlannerException
    drop_link(self, link_id)


def successors(self: Topology, site: Site):
    if site._site_id not in self.sites:
        raise TopologyException
    if site._site_id not in self.site_connectivity:
        return []
    return [self.sites[k] for k in self.site_connectivity[site._site_id]]


def predecessors(self: Topology, site: Site):
    if site._site_id not in self.sites:
        raise TopologyException
    if site._site_id not in self.site_connectivity_reverse:
        return []
    return [self.sites[k] for k in self.site_connectivity_reverse[site._site_id]]


def by_site_ids(self: Topology, tx_site_id: str, rx_site_id: str):
    if tx_site_id not in self.sites or rx_site_id not in self.sites:
        raise TopologyException
    k = Link.get_link_id_by_site_ids(tx_site_id, rx_site_id)
    return self.links[k] if k in self.links else None


def by_sector_ids(self: Topology, tx_sector_id: str, rx_sector_id: str):
    if tx_sector_id not in self.sectors or rx_sector_id not in self.sectors:
        raise TopologyException
    return by_site_ids(self, self.sectors[tx_sector_id]._site._site_id, self.sectors[rx_sector_id]._site._site_id)


def reverse_link(self: Topology, link: Link):
    return by_site_ids(self, link._rx_site._site_id, link._tx_site._site_id)


def sector_connectivity(self: Topology):
    out = {}
    for link in self.links.values():
        if link._tx_sector is not None and link._rx_sector is not None:
            a = link._tx_sector._sector_id
            b = link._rx_sector._sector_id
            if a not in out:
                out[a] = {}
            out[a][b] = link._link_id
    return out


def sector_connectivity_reverse(self: Topology):
    out = {}
    for link in self.links.values():
        if link._tx_sector is not None and link._rx_sector is not None:
            a = link._tx_sector._sector_id
            b = link._rx_sector._sector_id
            if b not in out:
                out[b] = {}
            out[b][a] = link._link_id
    return out


def site_ids(self: Topology, status_filter, site_type_filter):
    return {k for k, s in self.sites.items()
            if (status_filter is None or s._status_type in status_filter) and (site_type_filter is None or s._site_type in site_type_filter)}


def link_pairs(self: Topology, status_filter, link_type_filter):
    return {(l._tx_site._site_id, l._rx_site._site_id) for l in self.links.values()
            if (status_filter is None or l._status_type in status_filter) and (link_type_filter is None or l.link_type in link_type_filter)}


def sectorless(self: Topology):
    return {(l._tx_site._site_id, l._rx_site._site_id) for l in self.links.values()
            if l.link_type != LinkType.ETHERNET and (l._tx_sector is None or l._rx_sector is None)}


def sector_ids(self: Topology, status_filter):
    out = {}
    for k, s in self.sectors.items():
        if s._status_type in status_filter:
            out.setdefault(s._site._site_id, set()).add(k)
    return out


def polarities(self: Topology):
    out = {PolarityType.ODD: set(), PolarityType.EVEN: set()}
    for k, s in self.sites.items():
        if s._status_type in (StatusType.PROPOSED, StatusType.EXISTING) and s._site_type in (SiteType.POP, SiteType.DN):
            if s.polarity != PolarityType.UNASSIGNED:
                out[s.polarity].add(k)
    return out


def topology_init(self: Topology, sites: Iterable[Site] = (), demand_sites: Iterable[DemandSite] = (), sectors: Iterable[Sector] = (), links: Iterable[Link] = ()):
    self.sites = {}
    self.demand_sites = {}
    self.sectors = {}
    self.links = {}
    self.site_id_to_sector_ids = defaultdict(set)
    self.site_connectivity = {}
    self.site_connectivity_reverse = {}
    self.name = ""
    for s in sites:
        self.add_site(s)
    for d in demand_sites:
        self.add_demand_site(d)
    for s in sectors:
        self.add_sector(s)
    for l in links:
        self.add_link(l)


def wireless_successors(self: Topology, site: Site):
    found = []
    for other in self.get_successor_sites(site):
        link = self.get_link_by_site_ids(site._site_id, other._site_id)
        if link is not None and link.is_wireless:
            found.append(other)
    return found


def wireless_predecessors(self: Topology, site: Site):
    found = []
    for other in self.get_predecessor_sites(site):
        link = self.get_link_by_site_ids(other._site_id, site._site_id)
        if link is not None and link.is_wireless:
            found.append(other)
    return found


def sorted_topology(self: Topology):
    self.sites = dict(sorted(self.sites.items()))
    self.demand_sites = dict(sorted(self.demand_sites.items()))
    self.sectors = dict(sorted(self.sectors.items()))
    self.links = dict(sorted(self.links.items()))
    for d in self.demand_sites.values():
        d.connected_sites.sort(key=lambda s: s.site_id)


def colocated(self: Topology):
    groups = {}
    for k, s in self.sites.items():
        p = GeoPoint(s.longitude, s.latitude, s.altitude)
        if p not in groups:
            groups[p] = []
        groups[p].append(k)
    return groups
