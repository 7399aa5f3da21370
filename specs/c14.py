import math
from typing import Dict, Optional

from terragraph_planner.common.configuration.enums import LinkType, PolarityType, SiteType, StatusType
from terragraph_planner.common.geos import angle_delta
from terragraph_planner.common.rf.link_budget_calculator import get_fspl_based_net_gain, get_max_tx_power
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.topology_interference import _calculate_net_gain_on_rx_links, _compute_link_interference_net_gain, _get_cn_polarities, compute_link_net_gain_map, compute_link_rsl_map

ACTIVE = {StatusType.PROPOSED, StatusType.EXISTING}

PRIVATE = {'_calculate_net_gain_on_rx_links': 'on_rx_links', '_get_cn_polarities': 'cn_polarities'}


def worst_case(topology: Topology, maximum_eirp: Optional[float]):
    out = {}
    for link in topology.links.values():
        key = (link.tx_site.site_id, link.rx_site.site_id)
        if not link.is_wireless or link.tx_sector is None or link.rx_sector is None:
            out[key] = -math.inf
        else:
            gain = _compute_link_interference_net_gain(link, link.tx_dev, link.rx_dev, link.el_dev, -link.el_dev)
            out[key] = get_max_tx_power(link.tx_site.device.sector_params, maximum_eirp) + gain
    return out


def path_gain(interfering_path: Link, tx_dev: float, rx_dev: float, tx_el_dev: float, rx_el_dev: float):
    tx = interfering_path.tx_site.device.sector_params
    rx = interfering_path.rx_site.device.sector_params
    return get_fspl_based_net_gain(interfering_path.distance, tx, tx.antenna_pattern_data, rx, rx.antenna_pattern_data, tx_dev, rx_dev, tx_el_dev, rx_el_dev)


def analyze(topology: Topology, link_net_gain_map: Optional[Dict[str, Dict[str, Dict[str, float]]]]):
    power = compute_link_rsl_map(topology, link_net_gain_map)
    for link in topology.links.values():
        if not link.is_wireless or link.status_type not in ACTIVE:
            continue
        if link.rsl_dbm == -math.inf:
            link.sinr_dbm = -math.inf
        else:
            params = link.rx_site.device.sector_params
            noise = 10 ** ((params.noise_figure + params.thermal_noise_power) / 10)
            link.sinr_dbm = link.rsl_dbm - 10 * math.log10(power.get(link.link_id, 0) + noise)


def polarity_ok(link: Link, cn_polarities: Dict[str, PolarityType]):
    if link.tx_site.status_type not in ACTIVE or link.rx_site.status_type not in ACTIVE:
        return False
    a = link.tx_site.polarity
    b = cn_polarities[link.rx_site.site_id] if link.rx_site.site_type == SiteType.CN else link.rx_site.polarity
    if a == PolarityType.UNASSIGNED or b == PolarityType.UNASSIGNED:
        return True
    return a != b


def channel_ok(link: Link):
    if link.tx_sector is None or link.rx_sector is None:
        return False
    if link.tx_sector.status_type not in ACTIVE or link.rx_sector.status_type not in ACTIVE:
        return False
    a = link.tx_sector.channel
    b = link.rx_sector.channel
    return a == b or a == -1 or b == -1


def cn_polarities(topology: Topology):
    out = {}
    for link in topology.links.values():
        if link.status_type in ACTIVE and link.rx_site.site_type == SiteType.CN:
            p = link.tx_site.polarity
            opposite = PolarityType.ODD if p == PolarityType.EVEN else PolarityType.EVEN if p == PolarityType.ODD else PolarityType.UNASSIGNED
            cn = link.rx_site.site_id
            if cn not in out:
                out[cn] = opposite
            elif out[cn] != opposite:
                out[cn] = PolarityType.UNASSIGNED
    return out


def interfering(topology: Topology):
    polarity = _get_cn_polarities(topology)
    forward = topology.sector_connectivity
    backward = topology.sector_connectivity_reverse
    gains = {}
    for link in topology.links.values():
        if not link.is_wireless or link.is_out_of_sector():
            continue
        if not polarity_ok(link, polarity) or not channel_ok(link):
            continue
        out = forward.get(link.tx_sector.sector_id, {})
        redundant = set()
        for to, i in out.items():
            if topology.links[i].is_redundant:
                redundant.add(to)
        for to in redundant:
            out.pop(to)
        into = backward.get(link.rx_sector.sector_id, {})
        if len(out) == 0 or len(into) <= 1:
            continue
        _calculate_net_gain_on_rx_links(gains, topology, out, into, link)
    return gains


def on_rx_links(link_net_gain_map: Dict[str, Dict[str, Dict[str, float]]], topology: Topology, tx_sector_links: Dict[str, str], rx_sector_links: Dict[str, str], interfering_path: Link):
    for source, victim_id in rx_sector_links.items():
        victim = topology.links[victim_id]
        if source == interfering_path.tx_sector.sector_id or not victim.is_wireless or victim.status_type not in ACTIVE:
            continue
        for dest, cause_id in tx_sector_links.items():
            cause = topology.links[cause_id]
            if dest == interfering_path.rx_sector.sector_id or dest == source or not cause.is_wireless or cause.status_type not in ACTIVE:
                continue
            gain = _compute_link_interference_net_gain(
                interfering_path, angle_delta(interfering_path.tx_dev, cause.tx_dev), angle_delta(interfering_path.rx_dev, victim.rx_dev),
                angle_delta(interfering_path.el_dev, cause.el_dev), -angle_delta(interfering_path.el_dev, victim.el_dev))
            link_net_gain_map.setdefault(interfering_path.link_id, {}).setdefault(victim_id, {})[cause_id] = gain


def rsl_map(topology: Topology, link_net_gain_map: Optional[Dict[str, Dict[str, Dict[str, float]]]]):
    if link_net_gain_map is None:
        link_net_gain_map = compute_link_net_gain_map(topology)
    total = {}
    for path in topology.links:
        for victim, causes in link_net_gain_map.get(path, {}).items():
            if len(causes) == 0:
                continue
            power = 0.0
            for cause, gain in causes.items():
                power += 10 ** ((topology.links[cause].tx_power + gain) / 10)
            total[victim] = total.get(victim, 0.0) + power / len(causes)
    return total
