H = "los.helper:"
C = "los.core:"
V = "los.base_los_validator:BaseLOSValidator."
CY = "los.cylindrical_los_validator:CylindricalLOSValidator."
EL = "los.ellipsoidal_los_validator:EllipsoidalLOSValidator."
EXC = {"LOSException": [], "DataException": []}


def run(ctx):
    ctx.equiv(C + "generate_candidate_topology_with_config_file", "c33:from_file", keep=["common.utils:set_system_control_with_config_file", "common.configuration.utils:struct_objects_from_file", C + "generate_candidate_topology"], what="system, data and LOS parameters of the file")
    ctx.equiv(C + "generate_candidate_topology", "c33:generate", keep=[H + n for n in ("pre_los_check", "get_los_topology", "get_max_los_dist_for_device_pairs")] + [C + n for n in ("load_gis_data", "compute_los", "build_candidate_topology")] +
              ["los.building_group:BuildingGroup.detect_site_candidates", "common.data_io.topology_serializer:dump_topology_to_kml"], what="each step on the results of the steps before it, with the configured parameters")
    ctx.equiv(C + "compute_los", "c33:all_los", keep=[H + "compute_los_batch"], what="every candidate in exactly one batch, with the configured parameters")
    ctx.equiv(H + "compute_los_batch", "c11:batch", keep=["los.base_los_validator:BaseLOSValidator._passes_simple_checks", CY + "compute_confidence", EL + "compute_confidence", CY + "__init__", EL + "__init__", "los.elevation:Elevation.__init__"], what="the configured model, with tolerances, on the same raster")
    ctx.equiv(V + "__init__", "c33:base_validator", fields=EXC, what="limits are checked and kept")
    ctx.equiv(CY + "__init__", "c33:cylinder", keep=[V + "__init__"], what="limits and radius are kept")
    ctx.equiv(EL + "__init__", "c33:ellipsoid", keep=[V + "__init__"], what="limits and frequency are kept")
    ctx.equiv(H + "get_site_connectable_status", "c33:connectable", what="sites reached from the picked POPs over picked sites")
    ctx.equiv(H + "select_additional_dns", "c33:additional", keep=[H + "get_site_connectable_status"], what="DNs in reach that connect CNs that are not")
