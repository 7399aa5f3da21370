from checks import areas, con
from vstat.compare import Observe

H = "los.helper:"
T = "common.topology_models.topology:Topology."
L = "common.topology_models.link:Link."
RF = "common.rf.link_budget_calculator:"
IO = "common.data_io."


def run(ctx):
    con.constants(ctx, "BI_DIRECTIONAL_LINKS", "DIRECTED_LINKS", "LOWER_BOUND_FOR_LOS_DISTANCE", "UPPER_BOUND_FOR_LOS_DISTANCE")
    def eq(fn, sp, what, keep=(), quiet=()):
        ctx.equiv(H + fn if ":" not in fn else fn, "c11:" + sp, keep=list(keep) + list(quiet), obs=areas.pure(*quiet), what=what)
    eq("get_los_topology", "candidates", "pairs to be tested: one of them new, right types, right direction", [IO + "input_sites_loader:InputSitesLoader.read_user_input", IO + "input_sites_loader:InputSitesLoader.__init__", IO + "utils:extract_topology_from_file", H + "infer_input_site_location", H + "get_exclusion_zones"])
    eq("compute_los_batch", "batch", "one valid link per direction for each pair with confidence", ["los.base_los_validator:BaseLOSValidator._passes_simple_checks", "los.cylindrical_los_validator:CylindricalLOSValidator.compute_confidence", "los.ellipsoidal_los_validator:EllipsoidalLOSValidator.compute_confidence"])
    eq("los.core:build_candidate_topology", "build", "neighbours and confidence per direction", [H + n for n in ("pick_best_sites_per_building", "select_additional_dns", "construct_topology_from_los_result")])
    eq("construct_topology_from_los_result", "construct", "sites before links", [H + "add_sites_to_topology", H + "add_links_to_topology"])
    eq("add_sites_to_topology", "add_sites", "a site per device for detected sites, the given site otherwise", [T + "add_site"])
    eq("add_links_to_topology", "add_links", "links between picked sites within the limits of their devices", [T + "add_link"], [L + "distance", L + "el_dev"])
    eq("get_max_los_dist_for_device_pairs", "max_dist", "range of each device pair, the larger of both directions, within the global limit", (), [H + "search_max_los_dist_based_on_capacity", RF + "get_max_tx_power"])
    eq("search_max_los_dist_based_on_capacity", "search", "smallest distance without capacity", (), [RF + "fspl_based_estimation"])
    eq("pick_best_sites_per_building", "pick", "one site per building plus every given site")
    eq("pre_los_check", "pre_check", "a device for each kind of site to be detected")
    eq("infer_input_site_location", "infer", "location and altitude of given sites")
    eq("get_exclusion_zones", "zones", "zones inside the boundary", (), [IO + "kml_library:extract_polygons"])
