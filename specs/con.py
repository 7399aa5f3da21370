"""Constants as documented; the code may keep them anywhere, under these names."""
from terragraph_planner.common.configuration.enums import SiteType
from terragraph_planner.common.structs import MCSMap

# radio (docs/rf_modeling)
FSPL_MARGIN = 92.45
FREQUENCY_DEPENDENT_OXYGEN_LOSS_MAP = {
    52.0: 0, 53.0: 1, 54.0: 2.2, 55.0: 4, 56.0: 6.6, 57.0: 9.7, 58.0: 12.6, 59.0: 14.6, 60.0: 15,
    61.0: 14.6, 62.0: 14.3, 63.0: 10.5, 64.0: 6.8, 65.0: 3.9, 66.0: 1.9, 67.0: 1, 68.0: 0,
}
DEFAULT_MCS_SNR_MBPS_MAP = [
    MCSMap(mcs=3, snr=3, mbps=0, tx_backoff=0),
    MCSMap(mcs=4, snr=4.5, mbps=67.5, tx_backoff=0),
    MCSMap(mcs=5, snr=5, mbps=115, tx_backoff=0),
    MCSMap(mcs=6, snr=5.5, mbps=260, tx_backoff=0),
    MCSMap(mcs=7, snr=7.5, mbps=452.5, tx_backoff=0),
    MCSMap(mcs=8, snr=9, mbps=645, tx_backoff=0),
    MCSMap(mcs=9, snr=12, mbps=741.25, tx_backoff=0),
    MCSMap(mcs=10, snr=14, mbps=1030, tx_backoff=2),
    MCSMap(mcs=11, snr=16, mbps=1415, tx_backoff=4),
    MCSMap(mcs=12, snr=18, mbps=1800, tx_backoff=6),
]
UNASSIGNED_CHANNEL = -1

# geography
EARTH_RADIUS = 6371000.0
LAT_LON_EPSG = 4326
FULL_ROTATION_ANGLE = 360.0
STRAIGHT_ANGLE = 180.0
GEOHASH_SEED = "0123456789abcdefghijklmnopqrstuv"
LAT_LON_TO_GEO_HASH_PRECISION = 10

# sectors
SECTOR_LINK_ANGLE_TOLERANCE = 1e-2
DEFAULT_POINTING_PRECISION = 3

# candidate links
BI_DIRECTIONAL_LINKS = ((SiteType.POP, SiteType.DN), (SiteType.DN, SiteType.DN), (SiteType.DN, SiteType.POP))
DIRECTED_LINKS = ((SiteType.POP, SiteType.CN), (SiteType.DN, SiteType.CN))
LOWER_BOUND_FOR_LOS_DISTANCE = 0
UPPER_BOUND_FOR_LOS_DISTANCE = 10000
DISTANCE_TOLERANCE_PERCENT = 0.02
ELE_SCAN_ANGLE_TOLERANCE = 2
UNKNOWN_BUILDING_ID = -1

# buildings and rasters
BUILDING_HEIGHT_THRESHOLD = 2
MINIMUM_BUILDING_AREA = 50
MIN_CORNER_ANGLE = 30
POLYGON_MINIMUM_VERTICES = 3
HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH = 1
DEFAULT_ELEVATION_SEARCH_RADIUS = 50
NO_DATA_VALUE = -32768
DEFAULT_RESOLUTION = 1
MIN_RES_TO_OUTPUT_AS_LIST = 0.5
MAC_RESOURCE_FORK_DIR = "__MACOSX"

# reading and optimizing
SITE_LINK_DIST_THRESHOLD = 10
EPSILON = 1e-5
BACKHAUL_LINK_TYPE_WEIGHT = 8
DEMAND = "DEMAND"
SUPERSOURCE = "SUPERSOURCE"
DEMAND_SECTOR = "DEMAND_SECTOR"
SUPERSOURCE_SECTOR = "SUPERSOURCE_SECTOR"
IMAGINARY_SECTOR_TYPES = {"DEMAND_SECTOR", "SUPERSOURCE_SECTOR"}
IMAGINARY_SITE_TYPES = {"DEMAND", "SUPERSOURCE"}

# column names accepted in input files (docs/runbook/Input_Files.md)
INPUT_NAMES = {
    "SiteKey": {
        "LATITUDE": {"base_lat", "latitude", "lat"},
        "LONGITUDE": {"base_lon", "longitude", "lon"},
        "ALTITUDE": {"altitude", "alt"},
        "HEIGHT": {"height", "install_height", "site_height", "height_m", "height(m)", "height (m)"},
        "NAME": {"name", "site_name", "site name", "pole_name"},
        "SITE_TYPE": {"type", "site_type", "site type"},
        "DEVICE_SKU": {"sku", "device_sku", "device sku"},
        "NUMBER_OF_SUBSCRIBERS": {
            "number_of_demand_points", "number of demand points", "num_demand_points", "number_of_subscribers", "number of subscribers",
            "number of demand sites", "num_demand_sites", "demand_points", "demand points", "demand_sites", "demand sites",
        },
        "ALTITUDE_MODE": {"altitude mode", "altitude_mode", "altitudemode"},
        "BUILDING_ID": {"building id", "building_id"},
        "LOCATION_TYPE": {"location type", "location_type"},
        "STATUS_TYPE": {"status", "status type", "status_type"},
    },
    "LinkKey": {
        "TX_SITE_NAME": {"tx_site", "tx_site_name", "tx_site_id", "from_site", "from_site_name", "from_site_id"},
        "RX_SITE_NAME": {"rx_site", "rx_site_name", "rx_site_id", "to_site", "to_site_name", "to_site_id"},
        "SITE1_NAME": {"site1", "site1_id", "site1_name"},
        "SITE2_NAME": {"site2", "site2_id", "site2_name"},
        "SITE_PAIR": {"site_pair", "sites"},
        "CONFIDENCE_LEVEL": {"confidence level", "confidence_level"},
        "LINK_TYPE": {"link type", "link_type"},
        "STATUS_TYPE": {"status", "status type", "status_type"},
    },
}


def anchor():
    return 0
