PROPERTY="C12"
NEEDS="a link budget asked for without receiver parameters (symmetric link) for a radio with a pattern file"
BREAKS="the receiver falls back to the transmitter's parameters but not to its radio pattern, so the receive gain ignores the pattern"
T="terragraph_planner/common/rf/link_budget_calculator.py"
EDITS=[(T,"""        rx_sector_params = tx_sector_params
        rx_radio_pattern_data = tx_radio_pattern_data
""","""        rx_sector_params = tx_sector_params
""")]
DEMO='''
from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.rf.link_budget_calculator import get_fspl_based_net_gain
p=SectorParams()
pat={0.0:{0.0:30.0},40.0:{0.0:10.0}}
a=get_fspl_based_net_gain(100.0,p,pat,None,None,0.0,40.0,0.0,0.0)
b=get_fspl_based_net_gain(100.0,p,pat,p,pat,0.0,40.0,0.0,0.0)
assert abs(a-b)<1e-9,(a,b)
'''
