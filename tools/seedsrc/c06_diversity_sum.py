PROPERTY="C06"
NEEDS="a negative Tx diversity gain together with a larger positive Rx diversity gain"
BREAKS="the two diversity gains are checked by their sum, so a negative one is accepted"
T="terragraph_planner/common/configuration/configs.py"
EDITS=[(T,"""            tx_diversity_gain >= 0 and rx_diversity_gain >= 0,""","""            tx_diversity_gain + rx_diversity_gain >= 0,""")]
DEMO=PRE+'''
from terragraph_planner.common.exceptions import ConfigException
try:
    SectorParams(tx_diversity_gain=-1.0, rx_diversity_gain=3.0)
except ConfigException:
    raise SystemExit(0)
raise SystemExit("accepted")
'''
