PROPERTY="C13"
NEEDS="a device whose minimum transmit power is above its maximum minus the backoff of the MCS in use, on a link good enough to need less than the minimum"
BREAKS="the minimum power is applied after the backoff check, so the power set exceeds the backoff limit of its MCS"
T="terragraph_planner/common/rf/link_budget_calculator.py"
EDITS=[(T,"""        tx_power = get_tx_power_from_rsl(rsl_dbm, net_gain_dbi)
        if min_tx_power is not None:
            tx_power = max(min_tx_power, tx_power)
        tx_backoff = get_backoff_from_mcs(mcs_level, mcs_snr_mbps_map)
        if tx_power <= max_tx_power - tx_backoff:
            return mcs_level, tx_power
""","""        tx_power = get_tx_power_from_rsl(rsl_dbm, net_gain_dbi)
        tx_backoff = get_backoff_from_mcs(mcs_level, mcs_snr_mbps_map)
        if tx_power <= max_tx_power - tx_backoff:
            if min_tx_power is not None:
                tx_power = max(min_tx_power, tx_power)
            return mcs_level, tx_power
""")]
DEMO='''
from terragraph_planner.common.rf.link_budget_calculator import adjust_tx_power_with_backoff
from terragraph_planner.common.structs import MCSMap
m=[MCSMap(3,1.0,300.0,0.0),MCSMap(12,15.0,1800.0,6.0)]
lvl,p=adjust_tx_power_with_backoff(12,m,14.0,16.0,-60.0,-74.0)
b={3:0.0,12:6.0}.get(lvl,0.0)
assert lvl==0 or p<=16.0-b,(lvl,p)
'''
