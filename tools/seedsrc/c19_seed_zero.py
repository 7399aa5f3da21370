PROPERTY="C19"
NEEDS="the seed 0"
BREAKS="a seed of 0 is treated as no seed, so the simulation cannot be reproduced"
T="terragraph_planner/optimization/topology_availability.py"
EDITS=[(T,"""    rng = np.random.default_rng(seed)
""","""    rng = np.random.default_rng(seed or None)
""")]
DEMO='''
import networkx as nx
from terragraph_planner.common.configuration.enums import LinkType, SiteType
from terragraph_planner.optimization.constants import DEMAND, SUPERSOURCE
from terragraph_planner.optimization.topology_availability import compute_availability
g=nx.DiGraph()
g.add_edge(SUPERSOURCE,"p",link_type=SUPERSOURCE)
g.add_edge("p","d",link_type=LinkType.WIRELESS_BACKHAUL); g.add_edge("d","p",link_type=LinkType.WIRELESS_BACKHAUL)
g.add_edge("d","q",link_type=DEMAND)
for n,t in ((SUPERSOURCE,SUPERSOURCE),("p",SiteType.POP),("d",SiteType.DN),("q",DEMAND)):
    g.nodes[n]["site_type"]=t
a=[compute_availability(g,90,50,None,0)[0]["q"] for _ in range(3)]
if len(set(a))!=1:
    raise SystemExit("the same seed gave %s" % a)
'''
