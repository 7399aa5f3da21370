import hashlib
import json

from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link


def id_hash(*args):
    return str(hashlib.md5(json.dumps(list(args), sort_keys=True).encode()).hexdigest())


def link_hash(self: Link):
    ends = [self.tx_site.site_hash + "_" + self.tx_site.site_type.to_string(), self.rx_site.site_hash + "_" + self.rx_site.site_type.to_string()]
    return "-".join(sorted(ends))
