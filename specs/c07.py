import json
import os
import sys
from inspect import getfullargspec
from typing import Any, Dict, List

import yaml

from terragraph_planner.common.configuration.configs import CLASS_NAME_MAPPING, CLASS_NAME_TO_ENUM_MAPPING, DeviceData, GISDataParams, LOSParams, OptimizerParams, SystemParams
from terragraph_planner.common.configuration.enums import LoggerLevel
from terragraph_planner.common.configuration.constants import TEMPLATE_YAML_FILE_PATH
from terragraph_planner.common.exceptions import ConfigException
from terragraph_planner.common.configuration.utils import _detect_typo
from terragraph_planner.common.configuration.utils import _load_dict_from_file
from terragraph_planner.common.utils import current_system_params

PRIVATE = {'_detect_typo': 'detect_typo'}


def populate(device_list: List[DeviceData], carrier_frequency: float, thermal_noise_power: float, noise_figure: float, rain_rate: float, link_availability_percentage: float):
    for d in device_list:
        p = d.sector_params
        p.carrier_frequency = carrier_frequency
        p.thermal_noise_power = thermal_noise_power
        p.noise_figure = noise_figure
        p.rain_rate = rain_rate
        p.link_availability_percentage = link_availability_percentage


def params(self, device_list: List[DeviceData], carrier_frequency: float, thermal_noise_power: float, noise_figure: float, rain_rate: float, link_availability_percentage: float):
    populate(device_list, carrier_frequency, thermal_noise_power, noise_figure, rain_rate, link_availability_percentage)


def detect_typo(data: Dict[str, Any], origin: Dict[str, Any]):
    known = {k.casefold(): k for k in origin}
    for k in data:
        if k.strip().casefold() not in known:
            raise ConfigException
        template = origin[known[k.strip().casefold()]]
        if isinstance(data[k], dict):
            _detect_typo(data[k], template)
        if isinstance(data[k], list) and isinstance(template[0], dict):
            for item in data[k]:
                _detect_typo(item, template[0])


def load(file_path: str):
    if not os.path.exists(file_path):
        raise ConfigException
    if not (file_path.endswith(".json") or file_path.endswith(".yml") or file_path.endswith(".yaml")):
        raise ConfigException
    try:
        if file_path.endswith(".json"):
            with open(file_path) as f:
                json.load(f)
        else:
            with open(file_path) as f:
                yaml.safe_load(f)
    except (ValueError, yaml.YAMLError):
        raise ConfigException


def struct(obj_name: str, file_path: str):
    d = _load_dict_from_file(file_path)
    if obj_name == "SYSTEM":
        return SystemParams.from_dict(d.get("SYSTEM", {}))
    if obj_name == "LINE_OF_SIGHT":
        if "RADIO" in d or "NETWORK_DESIGN" in d:
            return LOSParams.from_dict({**d["LINE_OF_SIGHT"], **d["RADIO"]})
        return LOSParams.from_dict(d["LINE_OF_SIGHT"])
    if obj_name == "OPTIMIZATION":
        return OptimizerParams.from_dict({**d["RADIO"], **d["NETWORK_DESIGN"]})
    if obj_name == "DATA":
        return GISDataParams.from_dict(d["DATA"])
    raise ConfigException


def from_label(cls, label):
    try:
        if isinstance(label, int):
            return cls(label)
        if isinstance(label, str):
            return cls[label.upper()]
    except (KeyError, ValueError):
        pass
    raise ConfigException


def from_dict(cls, propdict):
    args = getfullargspec(cls.__init__).args
    found = {}
    for key, value in {k.casefold(): v for k, v in propdict.items()}.items():
        if key not in args:
            if isinstance(value, dict):
                for k2, v2 in value.items():
                    if k2.casefold() in args:
                        found[k2.casefold()] = v2
        elif key in CLASS_NAME_TO_ENUM_MAPPING:
            if value is not None:
                found[key] = getattr(sys.modules[__name__], CLASS_NAME_TO_ENUM_MAPPING[key]).from_string(value)
        elif isinstance(value, dict):
            if key in CLASS_NAME_MAPPING:
                found[key] = getattr(sys.modules[__name__], CLASS_NAME_MAPPING[key]).from_dict({**value, **propdict})
        elif isinstance(value, list):
            items = []
            for obj in value:
                if isinstance(obj, dict):
                    items.append(getattr(sys.modules[__name__], CLASS_NAME_MAPPING[key]).from_dict({**obj, **propdict}))
                else:
                    items.append(obj)
            found[key] = items
        elif value is not None:
            found[key] = value
    return cls(**{k: v for k, v in found.items() if v is not None})
