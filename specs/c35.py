import logging
import os
from collections import Counter
from time import time
from typing import NamedTuple

import pandas as pd
import yaml
from pyre_extensions import assert_is_instance

from terragraph_planner.common.configuration.configs import OptimizerParams, SystemParams
from terragraph_planner.common.configuration.constants import SYSTEM
from terragraph_planner.common.configuration.enums import OutputFile
from terragraph_planner.common.configuration.utils import struct_objects_from_file
from terragraph_planner.common.data_io.topology_serializer import dump_topology_to_kml, write_to_kml_file
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.common.utils import current_system_params, set_root_logger
from terragraph_planner.optimization.structs import (
    AvailabilityMetrics, Capex, DemandMetrics, FailureDisruption, FlowMetrics, LinkMetrics, MetricStatistics, TopologyCounts, TopologyMetrics,
)
from terragraph_planner.optimization.topology_report import analyze, dump_df_to_csv, dump_metrics_to_yaml


def kml(topology, file_type):
    if isinstance(file_type, OutputFile):
        write_to_kml_file(topology, os.path.join(os.path.join(current_system_params.output_dir, "output"), f"{file_type.name.lower()}.kml"))
    elif current_system_params.debug_mode:
        now = "".join(str(time()).split("."))
        write_to_kml_file(topology, os.path.join(os.path.join(current_system_params.output_dir, "debug"), f"{file_type.name.lower()}_{now}.kml"))


def table(df: pd.DataFrame, file_type: OutputFile):
    df.to_csv(os.path.join(os.path.join(current_system_params.output_dir, "output"), f"{file_type.name.lower()}.csv"))


def problem_file(self, file_type):
    if current_system_params.debug_mode and self.problem is not None:
        now = "".join(str(time()).split("."))
        self.problem.write(os.path.join(os.path.join(current_system_params.output_dir, "debug"), f"{file_type.name.lower()}_{now}"), "lp")


def everything(topology: Topology, params: OptimizerParams):
    result = analyze(topology, params)
    dump_topology_to_kml(result.topology, OutputFile.REPORTING_TOPOLOGY)
    dump_df_to_csv(result.link_df, OutputFile.LINK)
    dump_df_to_csv(result.site_df, OutputFile.SITE)
    dump_df_to_csv(result.sector_df, OutputFile.SECTOR)
    dump_metrics_to_yaml(result.metrics)
    return result


def system(config_file_path: str):
    given = struct_objects_from_file(SYSTEM, config_file_path)
    global current_system_params
    current_system_params.output_dir = given.output_dir
    current_system_params.debug_mode = given.debug_mode
    current_system_params.logger_level = given.logger_level
    current_system_params.log_file = given.log_file
    current_system_params.log_to_stderr = given.log_to_stderr
    set_root_logger(given.logger_level, given.log_file, given.log_to_stderr)


def logger(logger_level, log_file, to_stderr: bool):
    root = logging.getLogger()
    root.setLevel(logger_level.value)
    while root.hasHandlers():
        root.removeHandler(root.handlers[0])
    if log_file is not None:
        to_file = logging.FileHandler(log_file)
        to_file.setFormatter(logging.Formatter("%(asctime)s - %(levelname)s - %(message)s"))
        root.addHandler(to_file)
    if to_stderr:
        to_screen = logging.StreamHandler()
        to_screen.setFormatter(logging.Formatter("%(asctime)s - %(levelname)s - %(message)s"))
        root.addHandler(to_screen)


def yaml_file(metrics: TopologyMetrics):
    def plain(obj):
        d = obj._asdict()
        for k, v in d.items():
            if isinstance(v, (TopologyMetrics, Capex, TopologyCounts, DemandMetrics, FlowMetrics, MetricStatistics, LinkMetrics, AvailabilityMetrics, FailureDisruption)):
                d[k] = plain(v)
            elif isinstance(v, Counter):
                d[k] = dict(v)
        return d

    where = os.path.join(os.path.join(current_system_params.output_dir, "output"), f"{OutputFile.METRICS.name.lower()}.yaml")
    with open(where, "w") as f:
        yaml.dump(plain(metrics), f, sort_keys=False)
