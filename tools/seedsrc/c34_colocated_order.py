PROPERTY="C34"
NEEDS="a location with an active POP and an active DN, the DN listed after the POP"
BREAKS="which of the sites of a location are left in the candidate graph depends on the order in which its active sites are listed"
T="terragraph_planner/optimization/topology_operations.py"
EDITS=[(T,"""            if site_type == SiteType.DN and max_site_type != SiteType.POP:
""","""            if site_type == SiteType.DN:
""")]
DEMO=PRE+'''
from terragraph_planner.optimization.topology_operations import _find_colocated_sites_to_remove
def run(order):
    P=StatusType.PROPOSED
    mk={"p":lambda: site(SiteType.POP,20.0,P),"d":lambda: site(SiteType.DN,20.0,P)}
    t=Topology(sites=[mk[k]() for k in order],sectors=[],links=[])
    return {t.sites[i].site_type.name for i in _find_colocated_sites_to_remove(t)}
# sets of names are walked in an order that varies between runs
import subprocess, sys, os
if len(sys.argv)>1:
    print(sorted(run("pd")))
else:
    outs={subprocess.run([sys.executable,__file__,"x"],capture_output=True,text=True,env=dict(os.environ,PYTHONHASHSEED=str(h))).stdout for h in range(8)}
    if outs!={"['DN']\\n"}:
        raise SystemExit("removed sites: %s" % sorted(outs))
'''
