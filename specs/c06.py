from typing import List, Optional

from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType
from terragraph_planner.common.exceptions import ConfigException, DataException


def sector_params(self, antenna_boresight_gain: float, maximum_tx_power: float, number_sectors_per_node: int, horizontal_scan_range: float,
                  carrier_frequency: float, noise_figure: float, rain_rate: float, link_availability_percentage: float,
                  tx_diversity_gain: float, rx_diversity_gain: float, tx_miscellaneous_loss: float, rx_miscellaneous_loss: float,
                  minimum_mcs_level: Optional[int], minimum_tx_power: Optional[float]):
    if (antenna_boresight_gain < 0 or maximum_tx_power < 0 or number_sectors_per_node < 1
            or horizontal_scan_range < 0 or horizontal_scan_range > 360 or carrier_frequency <= 0 or noise_figure < 0 or rain_rate < 0
            or link_availability_percentage < 0 or link_availability_percentage > 100
            or tx_diversity_gain < 0 or rx_diversity_gain < 0 or tx_miscellaneous_loss < 0 or rx_miscellaneous_loss < 0):
        raise ConfigException
    if minimum_mcs_level is not None and minimum_mcs_level < 0:
        raise ConfigException
    if minimum_tx_power is not None and minimum_tx_power > maximum_tx_power:
        raise ConfigException


def device_data(self, device_sku: str, sector_params: SectorParams, node_capex: float, number_of_nodes_per_site: Optional[int], device_type: DeviceType):
    if len(device_sku) == 0 or node_capex < 0:
        raise ConfigException
    if number_of_nodes_per_site is None:
        n = 1 if device_type == DeviceType.CN else 4
    else:
        n = number_of_nodes_per_site
        if n < 1 or device_type == DeviceType.CN and n != 1:
            raise ConfigException
    if sector_params.horizontal_scan_range * sector_params.number_sectors_per_node * n > 360:
        raise ConfigException
    self.number_of_nodes_per_site = n


def site_detection(self, max_corner_angle: Optional[float]):
    if max_corner_angle is not None and (max_corner_angle <= 0 or max_corner_angle >= 180):
        raise ConfigException


def los_params(self, device_list: List[DeviceData], minimum_mcs_of_backhaul_links: Optional[int], minimum_mcs_of_access_links: Optional[int],
               maximum_los_distance: Optional[int], minimum_los_distance: int, maximum_elevation_scan_angle: float,
               mounting_height_above_rooftop: float, default_dn_height_on_pole: float, default_cn_height_on_pole: float, default_pop_height_on_pole: float,
               fresnel_radius: float, los_confidence_threshold: float):
    if len(device_list) == 0:
        raise ConfigException
    if minimum_mcs_of_backhaul_links is not None and minimum_mcs_of_backhaul_links < 0:
        raise ConfigException
    if minimum_mcs_of_access_links is not None and minimum_mcs_of_access_links < 0:
        raise ConfigException
    if minimum_los_distance < 5 or maximum_los_distance is not None and minimum_los_distance >= maximum_los_distance:
        raise ConfigException
    if maximum_elevation_scan_angle < 0 or maximum_elevation_scan_angle > 90 or mounting_height_above_rooftop < 0:
        raise ConfigException
    if default_dn_height_on_pole < 0 or default_cn_height_on_pole < 0 or default_pop_height_on_pole < 0:
        raise ConfigException
    if fresnel_radius <= 0 or los_confidence_threshold < 0 or los_confidence_threshold > 1:
        raise ConfigException
    duplicates(device_list)


def duplicates(device_list: List[DeviceData]):
    seen = set()
    for device in device_list:
        if device.device_sku.casefold() in seen:
            raise ConfigException
        seen.add(device.device_sku.casefold())


def optimizer_params(self, device_list: List[DeviceData], pop_site_capex: float, cn_site_capex: float, dn_site_capex: float, budget: float,
                     pop_capacity: float, oversubscription: float, number_of_extra_pops: int,
                     enable_cn_demand: bool, enable_uniform_demand: bool, enable_manual_demand: bool,
                     demand_spacing: float, demand_connection_radius: float, demand: float, dn_dn_sector_limit: int, dn_total_sector_limit: int,
                     maximum_number_hops: int, diff_sector_angle_limit: float, near_far_length_ratio: float, near_far_angle_limit: float,
                     number_of_channels: int, backhaul_link_redundancy_ratio: float, num_threads: Optional[int],
                     min_cost_max_time: int, redundancy_max_time: int, max_coverage_max_time: int, interference_max_time: int,
                     pop_proposal_max_time: int, demand_site_max_time: int, availability_max_time: int, candidate_topology_file_path: Optional[str]):
    if len(device_list) == 0:
        raise ConfigException
    duplicates(device_list)
    if pop_site_capex < 0 or cn_site_capex < 0 or dn_site_capex < 0 or budget < 0 or pop_capacity <= 0 or oversubscription < 1 or number_of_extra_pops < 0:
        raise ConfigException
    if not enable_cn_demand and not enable_uniform_demand and not enable_manual_demand:
        raise ConfigException
    if enable_uniform_demand and demand_spacing <= 0:
        raise ConfigException
    if (enable_uniform_demand or enable_manual_demand) and demand_connection_radius <= 0:
        raise ConfigException
    if demand <= 0 or dn_dn_sector_limit <= 0 or dn_total_sector_limit < dn_dn_sector_limit or maximum_number_hops <= 0:
        raise ConfigException
    if diff_sector_angle_limit < 0 or diff_sector_angle_limit > 180 or near_far_length_ratio <= 0 or near_far_angle_limit < 0 or near_far_angle_limit > 180:
        raise ConfigException
    if number_of_channels < 1 or backhaul_link_redundancy_ratio < 0 or backhaul_link_redundancy_ratio > 1:
        raise ConfigException
    if num_threads is not None and num_threads <= 0:
        raise ConfigException
    if (min_cost_max_time <= 0 or redundancy_max_time <= 0 or max_coverage_max_time <= 0 or interference_max_time <= 0
            or pop_proposal_max_time <= 0 or demand_site_max_time <= 0 or availability_max_time <= 0):
        raise ConfigException
    if candidate_topology_file_path is not None:
        extension(candidate_topology_file_path, {"kml", "kmz", "zip"})


def extension(file_name: str, allowed):
    if file_name.split(".")[-1].casefold() not in allowed:
        raise DataException


def gis_params(self, boundary_polygon_file_path: str, building_outline_file_path: Optional[str], dsm_file_paths: Optional[List[Optional[str]]],
               dtm_file_path: Optional[str], dhm_file_path: Optional[str], site_file_path: Optional[str], base_topology_file_path: Optional[str]):
    extension(boundary_polygon_file_path, {"kml", "kmz"})
    if building_outline_file_path is not None:
        extension(building_outline_file_path, {"kml", "kmz", "zip"})
    if dsm_file_paths is not None:
        for path in dsm_file_paths:
            if path is not None:
                extension(path, {"tif", "tiff"})
    if dtm_file_path is not None:
        extension(dtm_file_path, {"tif"})
    if dhm_file_path is not None:
        extension(dhm_file_path, {"tif"})
    if site_file_path is not None:
        extension(site_file_path, {"kml", "kmz", "csv"})
    if base_topology_file_path is not None:
        extension(base_topology_file_path, {"kml", "kmz"})
    if building_outline_file_path is not None and base_topology_file_path is not None:
        raise ConfigException
