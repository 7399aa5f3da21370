PROPERTY="C12"
NEEDS="two devices with different MCS tables on the two ends of a link"
BREAKS="the MCS of a link is looked up in the table of the sending device instead of the receiving one"
T="terragraph_planner/optimization/topology_preparation.py"
EDITS=[(T,"""        mcs_snr_mbps_map = rx_device.sector_params.mcs_map
""","""        mcs_snr_mbps_map = tx_sector_params.mcs_map
""")]
DEMO=PRE+'''
import math
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.optimization.topology_preparation import add_link_capacities
s1=SectorParams(); s2=SectorParams()
s2.mcs_map=[MCSMap(m.mcs,m.snr,m.mbps/2.0,m.tx_backoff) for m in s1.mcs_map]
a=site(SiteType.DN,20.0); b=site(SiteType.CN,20.0005,sp=s2)
sec=[Sector(s,0,0,0.0,StatusType.CANDIDATE) for s in (a,b)]
l=Link(a,b,sec[0],sec[1],StatusType.CANDIDATE)
t=Topology(sites=[a,b],sectors=sec,links=[l])
add_link_capacities(t,OptimizerParams(device_list=[a.device,b.device]),False)
want={m.mcs:m.mbps for m in s2.mcs_map}[l.mcs_level]
if not (math.isclose(l.capacity*1000,want) or math.isclose(l.capacity,want)):
    raise SystemExit("capacity %s for MCS %s of a receiver that offers %s" % (l.capacity,l.mcs_level,want))
'''
