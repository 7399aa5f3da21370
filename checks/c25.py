from vstat.compare import Observe
from checks import areas, errs, con

D = "common.data_io."
C = D + "csv_library:"
B = D + "building_group_loader:BuildingGroupLoader."
E = D + "elevation_loader:ElevationLoader."
BR = D + "building_group_rules:BuildingGroupRules."
ZR = D + "building_group_rules:ZippedShpFileRules."
ER = D + "elevation_rules:ElevationRules."
S = D + "shared_rules:"
X = "common.exceptions:"
W = D + "patterns:DataWorkSpace."


EXC = {"DataException": []}     # the wording of a message is not followed


def run(ctx):
    con.constants(ctx, "MAC_RESOURCE_FORK_DIR")
    ctx.equiv(X + "planner_assert", "c25:assert_that", what="planner_assert raises exactly when the condition is false", fields=EXC)
    ctx.equiv(X + "assert_file_extension", "c25:extension", what="file extensions", fields=EXC)
    SH = [S + "has_crs_rule", S + "vertical_crs_is_valid_if_present_rule"]
    ctx.equiv(SH[0], "c25:has_crs", what="data without projection", fields=EXC)
    ctx.equiv(SH[1], "c25:vertical_crs", what="vertical CRS", fields=EXC)
    ctx.equiv(BR + "has_crs_rule", "c25:building_crs", keep=SH, fields=EXC)
    ctx.equiv(BR + "vertical_crs_is_valid_if_present_rule", "c25:building_vertical", keep=SH, fields=EXC)
    ctx.equiv(BR + "only_contains_certain_geometries_rule", "c25:geometries", fields=EXC)
    ctx.equiv(ZR + "all_files_at_top_level_in_zip_rule", "c25:top_level", fields=EXC)
    ctx.equiv(ZR + "zip_file_contains_exactly_one_shp_file", "c25:one_shp", fields=EXC)
    ctx.equiv(ER + "geogcs_has_enough_info_rule", "c25:geogcs", fields=EXC)
    ctx.equiv(ER + "has_crs_rule", "c25:elevation_crs", keep=SH, fields=EXC)
    ctx.equiv(ER + "vertical_crs_is_valid_if_present_rule", "c25:elevation_vertical", keep=SH, fields=EXC)
    ctx.equiv(ER + "has_recent_collection_time_rule", "c25:collection_time", fields=EXC)
    ctx.equiv(ER + "has_valid_linear_unit_rule", "c25:linear_unit", fields=EXC)
    ctx.equiv(ER + "has_valid_pixel_size_rule", "c25:pixel_size", fields=EXC)
    rules = [r + n for r, ns in ((BR, ("has_crs_rule", "vertical_crs_is_valid_if_present_rule", "only_contains_certain_geometries_rule")),
                                 (ZR, ("all_files_at_top_level_in_zip_rule", "zip_file_contains_exactly_one_shp_file")),
                                 (ER, ("geogcs_has_enough_info_rule", "has_crs_rule", "vertical_crs_is_valid_if_present_rule", "has_recent_collection_time_rule", "has_valid_linear_unit_rule", "has_valid_pixel_size_rule"))) for n in ns]
    ctx.equiv(E + "validate", "c25:validate_elevation", keep=rules, fields=EXC)
    ctx.equiv(B + "validate", "c25:validate_buildings", keep=rules, fields=EXC)
    ctx.equiv(B + "validate_shp_file", "c25:validate_shp", keep=rules, fields=EXC)
    ctx.equiv(E + "read", "c25:read_elevation", keep=[E + "validate", "los.elevation:Elevation.__init__"], fields=EXC)
    ctx.equiv(B + "read", "c25:read_buildings", calls=[".extractall", ".write"], keep=[B + "validate", B + "validate_shp_file", W + "get_a_temp_file_path", W + "get_a_temp_dir", "los.building:Building.__init__", "los.building_group:BuildingGroup.__init__", D + "kml_library:extract_polygons"], fields=EXC)
    ctx.equiv("los.core:load_gis_data", "c25:gis_data", keep=[B + "read", E + "read", B + "__init__", E + "__init__", D + "kml_library:extract_boundary_polygon", "los.helper:upsample_to_same_resolution", "los.building_group:BuildingGroup.preprocess", "common.geos:TransformerLib.get_tranformer", "los.elevation:Elevation.__add__", "los.elevation:Elevation.__sub__"], fields=EXC)
    ctx.equiv(C + "cleaned_str_input", "c25:cleaned", fields=EXC)
    ctx.equiv(C + "read_antenna_pattern_data", "c25:antenna_pattern", keep=[C + "cleaned_str_input"], fields=EXC)
    ctx.equiv(C + "read_scan_pattern_data", "c25:scan_pattern", fields=EXC)
    ctx.equiv(C + "read_mcs_snr_mbps_map_data", "c25:mcs_map", fields=EXC)
    V = "los.elevation:Elevation."
    ctx.equiv(V + "get_value", "c25:grid_value", keep=[V + "utm_to_idx", V + "find_closest_valid_elevation"], fields=EXC)
    ctx.equiv(V + "get_data_as_list", "c25:grid_list", keep=[V + "idx_to_utm"], fields=EXC)
    for n in ("add", "sub"):
        ctx.equiv(V + f"__{n}__", f"c31:grid_{n}", keep=[V + "_has_same_metadata", V + "__init__"], fields=EXC)
    ctx.equiv(V + "_has_same_metadata", "c25:same_grid")
    ctx.equiv("common.topology_models.topology:Topology.add_link_from_site_ids", "c25:link_between", keep=["common.topology_models.topology:Topology.add_link", "common.topology_models.link:Link.__init__"], fields=EXC)

    E_ = errs.Errors(ctx.p)
    ctx.rule("handlers", "no handler swallows an error: every handler ends by raising or recording a planner exception", X + "PlannerException", E_.handlers)
    ctx.rule("raises", "everything raised is one of the planner's own exceptions", X + "PlannerException", E_.raises)
    ctx.rule("reads", "every read of an input file is guarded by a handler that reports a planner exception", X + "PlannerException", E_.reads)
    ctx.rule("config", "an unexpected value in a config file is reported as a ConfigException", "common.configuration.utils:struct_objects_from_file", E_.config)
    for q, sp in ((C + "read_antenna_pattern_data", "c25:antenna_pattern"), (C + "read_scan_pattern_data", "c25:scan_pattern"), (C + "read_mcs_snr_mbps_map_data", "c25:mcs_map"),
                  (E + "read", "c25:read_elevation"), (B + "read", "c25:read_buildings"), (C + "dms_to_decimal", "c27:decimal_degrees"), (C + "load_csv_and_validate", "c27:csv_table"),
                  (C + "load_input_sites_from_csv_file", "c27:csv_sites"), (D + "kml_library:extract_raw_data_from_kml_file", "c27:kml_contents"), (D + "kml_library:extract_polygons", "c27:polygons"),
                  (D + "utils:extract_topology_from_file", "c27:from_file"), (ER + "has_recent_collection_time_rule", "c25:collection_time")):
        ctx.rule("in-try:" + q.split(":")[-1], "calls that can fail on bad input stay inside the try that reports it", q, lambda o, q=q, sp=sp: E_.inside(o, ctx.find(q), ctx.spec(sp).node))
