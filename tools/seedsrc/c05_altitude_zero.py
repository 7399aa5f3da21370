PROPERTY="C05"
NEEDS="two sites that differ only in having no altitude and altitude 0"
BREAKS="a missing altitude is hashed as 0, so the two sites get the same id"
T="terragraph_planner/common/topology_models/site.py"
EDITS=[(T,"""            location.longitude,
            location.altitude,
            device""","""            location.longitude,
            location.altitude or None,
            device""")]
DEMO=PRE+'''
assert site(SiteType.DN,20.0,alt=None).site_id!=site(SiteType.DN,20.0,alt=0.0).site_id
'''
