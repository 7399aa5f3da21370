PROPERTY="C04"
NEEDS="removing a sector of a site that has only incoming links (no reverse link), e.g. a CN: the links into it keep a reference to the removed sector"
BREAKS="remove_sector finds the incoming links through the outgoing ones, so links without a reverse keep both sectors"
T="terragraph_planner/common/topology_models/topology.py"
EDITS=[(T,"""        for link_id in self.site_connectivity_reverse.get(site_id, {}).values():
            link = self.links[link_id]
            if (
                link.rx_sector is not None""","""        for peer_site_id in self.site_connectivity.get(site_id, {}):
            link = self.get_link_by_site_ids(peer_site_id, site_id)
            if link is None:
                continue
            if (
                link.rx_sector is not None""")]
DEMO='''
from terragraph_planner.common.configuration.enums import *
from terragraph_planner.common.topology_models.test.helper import *
from terragraph_planner.common.topology_models.test import helper as h
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.link import Link
dn = h.SampleSite if False else None
from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.site import Site
def site(t, lon):
    dev = DeviceData("D" if t != SiteType.CN else "C", SectorParams(), device_type=DeviceType.DN if t != SiteType.CN else DeviceType.CN)
    return Site(t, GeoLocation(longitude=lon, latitude=10.0, altitude=5.0), dev, StatusType.CANDIDATE, LocationType.STREET_LEVEL, None, "", None)
d, c = site(SiteType.DN, 20.0), site(SiteType.CN, 20.001)
sd = Sector(d, 0, 0, 0.0, StatusType.CANDIDATE)
sc = Sector(c, 0, 0, 0.0, StatusType.CANDIDATE)
t = Topology([d, c], (), [sd, sc], [Link(d, c, sd, sc)])
t.remove_sector(sc.sector_id)
l = list(t.links.values())[0]
assert l.rx_sector is None and l.tx_sector is None, "link keeps the removed sector"
'''
