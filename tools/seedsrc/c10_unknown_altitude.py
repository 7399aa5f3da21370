PROPERTY="C10"
NEEDS="one end of the link at a known high altitude, the altitude of the other end unknown"
BREAKS="an unknown altitude counts as sea level in the distance of a link, so a valid link is out of range (or a link that is too short is accepted)"
T="terragraph_planner/los/base_los_validator.py"
EDITS=[(T,"""        if site1.altitude is not None and site2.altitude is not None:
            z_diff = site1.altitude - site2.altitude
        else:
            z_diff = 0
""","""        z_diff = (site1.altitude or 0) - (site2.altitude or 0)
""")]
DEMO='''
from terragraph_planner.common.configuration.enums import *
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.site import DetectedSite, LOSSite
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
def los(lon,alt):
    return LOSSite(utm_x=lon,utm_y=0.0,altitude=alt,location_type=LocationType.STREET_LEVEL.value,building_id=None)
v=CylindricalLOSValidator(None,200,1,90,1.0,[],0.8)
if v.compute_confidence(los(0.0,1500.0),los(100.0,None))!=1.0:
    raise SystemExit("a link of 100 m was refused")
'''
