import math
from typing import Dict, List, Optional, Tuple, Union

import numpy as np

from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.constants import FREQUENCY_DEPENDENT_OXYGEN_LOSS_MAP, FSPL_MARGIN
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.common.rf.link_budget_calculator import (
    compute_oxygen_loss, compute_rain_loss, extract_gain_from_radio_pattern, fspl, get_fspl_based_net_gain, get_max_boresight_gain_from_pattern_file,
    get_mcs_from_snr, adjust_tx_power_with_backoff, get_link_capacity_from_mcs, get_backoff_from_mcs, get_max_tx_power, is_scan_pattern_data)
from terragraph_planner.common.structs import AntennaPatternData, LinkBudgetMeasurements, MCSMap, ScanPatternData
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.topology import Topology


def fspl_(d_km: float, f_ghz: float):
    if d_km <= 10 ** (-FSPL_MARGIN / 20 - math.log10(f_ghz)):
        return 0
    return 20 * math.log10(d_km) + 20 * math.log10(f_ghz) + FSPL_MARGIN


def to_linear(dbm_val: float):
    return 10 ** (dbm_val / 10)


def to_log(mw_val: float):
    return 10 * math.log10(mw_val)


def thousandth(v: float):
    return v / 1000


def net_gain(ag_tx: float, al_tx: float, d_km: float, f_ghz: float, ag_rx: Optional[float], al_rx: Optional[float], el: float):
    gain = ag_tx + (ag_tx if ag_rx is None else ag_rx)
    loss = al_tx + (al_tx if al_rx is None else al_rx)
    return gain - loss - fspl(d_km, f_ghz) - el


def rsl(p_tx: float, ag_tx: float, al_tx: float, d_km: float, f_ghz: float, ag_rx: Optional[float], al_rx: Optional[float], el: float):
    return p_tx + net_gain(ag_tx, al_tx, d_km, f_ghz, ag_rx, al_rx, el)


def gain(boresight_gain: float, diversity_gain: float, radio_pattern_data: Optional[Union[AntennaPatternData, ScanPatternData]], az_deviation: float, el_deviation: float):
    total = boresight_gain + diversity_gain
    if radio_pattern_data is None:
        return total
    if is_scan_pattern_data(radio_pattern_data):
        row = radio_pattern_data.get(az_deviation) or radio_pattern_data[min(radio_pattern_data.keys(), key=lambda a: abs(a - az_deviation))]
        val = row.get(el_deviation) or row[min(row.keys(), key=lambda e: abs(e - el_deviation))]
        return total + val - get_max_boresight_gain_from_pattern_file(radio_pattern_data)
    names = list(radio_pattern_data.keys())
    if len(names) == 0 or names[0] is None:
        raise DataException
    el = round(el_deviation)
    az = round(az_deviation)
    horizontal = radio_pattern_data[names[0]][0]
    vertical = radio_pattern_data[names[0]][1]
    return total + horizontal[az if az >= 0 else az + 360] + vertical[el if el >= 0 else el + 360]


def max_pattern(scan_pattern_data):
    return max(max(v for v in row.values()) for row in scan_pattern_data.values())


def is_scan(pattern_data):
    return all(isinstance(k, float) for k in pattern_data.keys())


def rain(dist_km: float, rain_rate: float, link_availability_percentage: float, carrier_frequency: float):
    if dist_km <= 0:
        return 0
    f = carrier_frequency / 1000
    p = 100 - link_availability_percentage
    specific = 0.8515 * math.pow(rain_rate, 0.7486)
    r = 1 / (0.477 * math.pow(dist_km, 0.633) * math.pow(rain_rate, 0.073 * 0.7486) * math.pow(f, 0.123) - 10.579 * (1 - math.exp(-0.024 * dist_km)))
    a_001 = specific * dist_km * min(r, 2.5)
    c0 = 0.12 + 0.4 * math.log10(math.pow(f / 10, 0.8))
    c1 = math.pow(0.07, c0) * math.pow(0.12, 1 - c0)
    c2 = 0.855 * c0 + 0.546 * (1 - c0)
    c3 = 0.139 * c0 + 0.043 * (1 - c0)
    return max(a_001 * c1 * math.pow(p, -(c2 + c3 * math.log10(p))), 0)


def oxygen(dist_km: float, carrier_frequency: float):
    per_km = np.interp(carrier_frequency / 1000, np.fromiter(FREQUENCY_DEPENDENT_OXYGEN_LOSS_MAP.keys(), dtype=float),
                       np.fromiter(FREQUENCY_DEPENDENT_OXYGEN_LOSS_MAP.values(), dtype=float), left=0.0, right=0.0)
    return float(per_km) * dist_km


def path_gain(dist_m: float, tx_sector_params: SectorParams, tx_radio_pattern_data, rx_sector_params: Optional[SectorParams], rx_radio_pattern_data,
              tx_deviation: float, rx_deviation: float, tx_el_deviation: float, rx_el_deviation: float):
    rx = tx_sector_params if rx_sector_params is None else rx_sector_params
    rx_pattern = tx_radio_pattern_data if rx_sector_params is None else rx_radio_pattern_data
    tx = tx_sector_params
    km = dist_m / 1000
    tx_gain = extract_gain_from_radio_pattern(tx.antenna_boresight_gain, tx.tx_diversity_gain, tx_radio_pattern_data, tx_deviation, tx_el_deviation)
    rx_gain = extract_gain_from_radio_pattern(rx.antenna_boresight_gain, rx.rx_diversity_gain, rx_pattern, rx_deviation, rx_el_deviation)
    rain_loss = compute_rain_loss(km, tx.rain_rate, tx.link_availability_percentage, tx.carrier_frequency)
    oxygen_loss = compute_oxygen_loss(km, tx.carrier_frequency)
    return tx_gain - tx.tx_miscellaneous_loss + rx_gain - rx.rx_miscellaneous_loss - fspl(km, tx.carrier_frequency / 1000) - rain_loss - oxygen_loss


def noise_power(sectorParams: SectorParams):
    return sectorParams.noise_figure + sectorParams.thermal_noise_power


def snr(rsl_dbm: float, noise_power_dbm: float):
    return rsl_dbm - noise_power_dbm


def signal(snr_dbm: float, noise_power_dbm: float):
    return snr_dbm + noise_power_dbm


def received(maximum_tx_power: float, net_gain_dbi: float):
    return maximum_tx_power + net_gain_dbi


def transmitted(rsl_dbm: float, net_gain_dbi: float):
    return rsl_dbm - net_gain_dbi


def estimation(distance: float, max_tx_power: float, tx_sector_params: SectorParams, rx_sector_params: SectorParams, mcs_snr_mbps_map: List[MCSMap],
               tx_deviation: float, rx_deviation: float, tx_el_deviation: float, rx_el_deviation: float, tx_scan_pattern_data, rx_scan_pattern_data):
    g = get_fspl_based_net_gain(distance, tx_sector_params, tx_scan_pattern_data, rx_sector_params, rx_scan_pattern_data, tx_deviation, rx_deviation, tx_el_deviation, rx_el_deviation)
    noise = rx_sector_params.noise_figure + rx_sector_params.thermal_noise_power
    best = get_mcs_from_snr(max_tx_power + g - noise, mcs_snr_mbps_map)
    mcs, _ = adjust_tx_power_with_backoff(best, mcs_snr_mbps_map, tx_sector_params.minimum_tx_power, max_tx_power, g, noise)
    power = max_tx_power - get_backoff_from_mcs(mcs, mcs_snr_mbps_map)
    return LinkBudgetMeasurements(mcs_level=mcs, rsl_dbm=power + g, snr_dbm=power + g - noise, capacity=get_link_capacity_from_mcs(mcs, mcs_snr_mbps_map), tx_power=power)


def post_init(self: LinkBudgetMeasurements):
    self.sinr_dbm = self.snr_dbm
