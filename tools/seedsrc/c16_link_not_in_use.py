PROPERTY="C16"
NEEDS="a candidate (unused) link between two sectors that are both active because of other links"
BREAKS="links that are not in use count towards a sector's connection limit as long as both of its sectors are active"
T="terragraph_planner/optimization/deployment_rules.py"
EDITS=[(T,"""            if (
                topology.links[link_id].status_type
                in StatusType.active_status()
            ):
""","""            if (
                topology.sectors[rx_sector_id].status_type
                in StatusType.active_status()
            ):
""")]
DEMO=PRE+'''
from terragraph_planner.optimization.deployment_rules import find_sector_limit_violations
a=site(SiteType.DN,20.0,StatusType.PROPOSED); b=site(SiteType.DN,20.001,StatusType.PROPOSED); c=site(SiteType.DN,20.001,StatusType.PROPOSED,lat=10.0005)
sec=[Sector(s,0,0,0.0,StatusType.PROPOSED) for s in (a,b,c)]
def link(i,j,st):
    return Link([a,b,c][i],[a,b,c][j],sec[i],sec[j],st)
P,C=StatusType.PROPOSED,StatusType.CANDIDATE
links=[link(0,1,P),link(1,0,P),link(1,2,P),link(2,1,P),link(0,2,C),link(2,0,C)]
t=Topology(sites=[a,b,c],sectors=sec,links=links)
got=find_sector_limit_violations(t,1,10)
# only the middle site has two active links
if set(got)!={sec[1].sector_id}:
    raise SystemExit("sectors reported: %s instead of %s" % (sorted(got), sec[1].sector_id))
'''
