import math
from typing import Dict, List, Optional, Tuple

from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.rf.link_budget_calculator import get_backoff_from_mcs, get_snr_from_mcs
from terragraph_planner.common.structs import MCSMap


def max_power(tx_sector_params: SectorParams, max_eirp_dbm: Optional[float]):
    p = tx_sector_params.maximum_tx_power
    if max_eirp_dbm is not None:
        p = min(p, max_eirp_dbm - (tx_sector_params.antenna_boresight_gain + tx_sector_params.tx_diversity_gain))
    if tx_sector_params.minimum_tx_power is not None:
        p = max(tx_sector_params.minimum_tx_power, p)
    return p


def backoff(mcs_level: int, mcs_snr_mbps_map: List[MCSMap]):
    rows = [row.tx_backoff for row in mcs_snr_mbps_map if row.mcs == mcs_level]
    if len(rows) > 0:
        return rows[0]
    return 0


def capacity(mcs_level: int, mcs_snr_mbps_map: List[MCSMap]):
    rows = [row.mbps for row in mcs_snr_mbps_map if row.mcs == mcs_level]
    if len(rows) == 0:
        return 0
    return rows[0] / 1000


def mcs_from_snr(snr_dbm: float, mcs_snr_mbps_map: List[MCSMap]):
    need = {row.mcs: row.snr for row in mcs_snr_mbps_map}
    if math.isnan(snr_dbm) or snr_dbm < min(need.values()):
        return 0
    return max(m for m, t in need.items() if snr_dbm >= t)


def snr_from_mcs(mcs: int, mcs_snr_mbps_map: List[MCSMap]):
    level = {row.snr: row.mcs for row in mcs_snr_mbps_map}
    if mcs < min(level.values()):
        return 0
    return max(t for t, m in level.items() if mcs >= m)


def adjust(mcs_level: int, mcs_snr_mbps_map: List[MCSMap], min_tx_power: Optional[float], max_tx_power: float, net_gain_dbi: float, np_dbm: float):
    while mcs_level > 0:
        p = get_snr_from_mcs(mcs_level, mcs_snr_mbps_map) + np_dbm - net_gain_dbi
        if min_tx_power is not None:
            p = max(min_tx_power, p)
        if p <= max_tx_power - get_backoff_from_mcs(mcs_level, mcs_snr_mbps_map):
            return mcs_level, p
        mcs_level -= 1
    return 0, -math.inf
