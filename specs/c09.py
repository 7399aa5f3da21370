"""Attributes that appear in output files."""
import glob
import os
import zipfile

from osgeo import ogr

from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
from terragraph_planner.los.building_group import BuildingGroup
from terragraph_planner.common.data_io.data_key import LinkKey, SectorKey, SiteKey


def sitekey_kml(cls):
    return [SiteKey.SITE_TYPE, SiteKey.SITE_GEOHASH, SiteKey.ALTITUDE, SiteKey.STATUS_TYPE, SiteKey.POLARITY, SiteKey.LOCATION_TYPE, SiteKey.DEVICE_SKU, SiteKey.NUMBER_OF_SUBSCRIBERS]


def sitekey_csv(cls):
    return [SiteKey.SITE_GEOHASH, SiteKey.STATUS_TYPE, SiteKey.LATITUDE, SiteKey.LONGITUDE, SiteKey.ALTITUDE, SiteKey.SITE_TYPE, SiteKey.POLARITY, SiteKey.BREAKDOWNS, SiteKey.SITE_CAPEX, SiteKey.ACTIVE_NODES, SiteKey.ACTIVE_SECTORS, SiteKey.ACTIVE_LINKS, SiteKey.HOPS_TO_NEAREST_POP, SiteKey.BUILDING_ID, SiteKey.DEVICE_SKU, SiteKey.NUMBER_OF_SUBSCRIBERS, SiteKey.NAME, SiteKey.OUTGOING_FLOW, SiteKey.INCOMING_FLOW]


def linkkey_kml(cls):
    return [LinkKey.LINK_TYPE, LinkKey.TX_SITE_NAME, LinkKey.RX_SITE_NAME, LinkKey.STATUS_TYPE, LinkKey.DISTANCE, LinkKey.PROPOSED_FLOW, LinkKey.CAPACITY, LinkKey.CAPACITY_UTILIZED, LinkKey.TX_BEAM_AZIMUTH, LinkKey.RX_BEAM_AZIMUTH, LinkKey.TX_DEV, LinkKey.RX_DEV, LinkKey.EL_DEV, LinkKey.TX_POWER, LinkKey.MCS, LinkKey.SNR, LinkKey.SINR, LinkKey.RSL, LinkKey.CONFIDENCE_LEVEL, LinkKey.CHANNEL]


def linkkey_csv(cls):
    return [LinkKey.LINK_GEOHASH, LinkKey.LINK_TYPE, LinkKey.STATUS_TYPE, LinkKey.TX_SITE_NAME, LinkKey.RX_SITE_NAME, LinkKey.DISTANCE, LinkKey.PROPOSED_FLOW, LinkKey.CAPACITY, LinkKey.CAPACITY_UTILIZED, LinkKey.TX_BEAM_AZIMUTH, LinkKey.RX_BEAM_AZIMUTH, LinkKey.TX_DEV, LinkKey.RX_DEV, LinkKey.EL_DEV, LinkKey.TX_POWER, LinkKey.MCS, LinkKey.SNR, LinkKey.SINR, LinkKey.RSL, LinkKey.SECTORS, LinkKey.BREAKDOWNS, LinkKey.CONFIDENCE_LEVEL, LinkKey.CHANNEL, LinkKey.VIOLATES_DIFF_SECTOR_ANGLE, LinkKey.VIOLATES_NEAR_FAR, LinkKey.VIOLATES_SECTOR_LIMIT]


def sectorkey_csv(cls):
    return [k for k in SectorKey]


def building_write(self: BuildingGroupLoader, dest_file_path: str, data: BuildingGroup):
    driver = ogr.GetDriverByName("ESRI Shapefile")
    folder = self.get_a_temp_dir()
    layer = driver.CreateDataSource(os.path.join(folder, "buildings.shp")).CreateLayer("Building")
    for building in data.building_list:
        feature = ogr.Feature(layer.GetLayerDefn())
        feature.SetGeometry(ogr.CreateGeometryFromWkt(building.polygon.wkt))
        layer.CreateFeature(feature)
    with open(os.path.join(folder, "buildings.prj"), "w") as f:
        f.write(data.spatial_reference.ExportToWkt())
    with zipfile.ZipFile(dest_file_path, "w") as z:
        for name in glob.glob(os.path.join(folder, "*")):
            z.write(name, arcname=os.path.basename(name), compress_type=zipfile.ZIP_DEFLATED)
