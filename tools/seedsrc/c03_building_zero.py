PROPERTY="C03"
NEEDS="a street-level site given the building id 0"
BREAKS="a building id of 0 on a site that is not on a rooftop is accepted"
T="terragraph_planner/common/topology_models/site.py"
EDITS=[(T,"""                location_type != LocationType.ROOFTOP
                and building_id is not None
""","""                location_type != LocationType.ROOFTOP
                and building_id
""")]
DEMO=PRE+'''
from terragraph_planner.common.exceptions import TopologyException
try:
    site(SiteType.DN,20.0,b=0)
except TopologyException:
    raise SystemExit(0)
raise SystemExit("street level site with a building id was accepted")
'''
