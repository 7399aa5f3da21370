PROPERTY="C14"
NEEDS="two active sectors joined by a redundant link, with the transmitting sector also serving an active link elsewhere"
BREAKS="a path whose own link is redundant is no longer treated as an interfering path, although the sectors at its ends still transmit and receive"
T="terragraph_planner/optimization/topology_interference.py"
EDITS=[(T,"""        # If link is out-of-sector, it is not an interfering path
        if link.is_out_of_sector():
            continue
""","""        # If link is out-of-sector, it is not an interfering path
        if link.is_out_of_sector() or link.is_redundant:
            continue
""")]
DEMO=PRE+'''
from terragraph_planner.optimization.topology_interference import compute_link_net_gain_map
A=StatusType.PROPOSED
a,b,c,d=[site(SiteType.DN,20.0+i*0.001,A,alt=5.0) for i in range(4)]
a.polarity=c.polarity=PolarityType.EVEN; b.polarity=d.polarity=PolarityType.ODD
sa,sb,sc,sd=[Sector(x,0,0,90.0,A,channel=0) for x in (a,b,c,d)]
lab=Link(a,b,sa,sb,status_type=A); lad=Link(a,d,sa,sd,status_type=A); lcb=Link(c,b,sc,sb,status_type=A)
t=Topology([a,b,c,d],(),[sa,sb,sc,sd],[lab,lad,lcb])
lab.is_redundant=True
m=compute_link_net_gain_map(t)
assert lcb.link_id in m.get(lab.link_id,{}), m
'''
