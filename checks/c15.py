from checks import areas, con
from vstat.compare import Observe

P = "optimization.topology_preparation:"
T = "common.topology_models.topology:Topology."
G = "common.geos:"
L = "common.topology_models.link:Link."


def run(ctx):
    con.constants(ctx, "SECTOR_LINK_ANGLE_TOLERANCE", "DEFAULT_POINTING_PRECISION", "FULL_ROTATION_ANGLE", "STRAIGHT_ANGLE")
    geo = [G + "angle_delta", L + "tx_beam_azimuth", L + "rx_beam_azimuth"]
    quiet = lambda e: e.kind == "call" and str(e.target.args[0]).startswith((G, L))
    ctx.equiv(P + "add_sectors_to_links", "c15:attach", keep=geo + [P + "validate_link_sectors"], obs=Observe(drop=quiet), what="a link gets the nearest sector within range on both ends, or none")
    ctx.equiv(P + "validate_link_sectors", "c15:validate_link", keep=geo + [L + "tx_dev", L + "rx_dev"], obs=Observe(drop=quiet), what="given sectors must cover their link on both ends")
    ctx.equiv(P + "setup_node_structure", "c15:setup", keep=[P + "create_dn_sectors", P + "create_cn_sectors", P + "add_sectors_to_links"], what="sectors of both kinds exist before links are attached")
    keep = [P + "find_best_sectors", P + "find_best_equidistant_sectors", P + "validate_site_sectors", T + "get_wireless_successor_sites", T + "add_sector"]
    pure = lambda e: e.kind == "call" and str(e.target.args[0]) in (P + "find_best_sectors", P + "find_best_equidistant_sectors", T + "get_wireless_successor_sites")
    ctx.equiv(P + "create_dn_sectors", "c15:make_dn", keep=keep, obs=Observe(drop=pure), what="sites without sectors get candidate sectors from their own device; given sectors are validated")
    ctx.equiv(P + "create_cn_sectors", "c15:make_cn", keep=keep, obs=Observe(drop=pure), what="sites without sectors get candidate sectors from their own device; given sectors are validated")
    ctx.equiv(P + "get_sector_azimuths_from_node_center", "c15:azimuths", what="the sectors of a node are one scan range apart around its centre")
    ctx.equiv(P + "validate_site_sectors", "c15:check_site", keep=geo, obs=Observe(drop=quiet), what="given sectors of a site must follow its device: number of nodes, sectors per node, separation, no overlap")
    ctx.equiv(P + "find_best_equidistant_sectors", "c15:equidistant", keep=[G + "bearing_in_degrees", P + "get_sector_azimuths_from_node_center"], obs=Observe(kept=False), what="the sectors of a CN face its neighbours")
    ctx.equiv(P + "find_best_sectors", "c15:best_sectors", keep=[G + "bearing_in_degrees", G + "haversine_distance", G + "law_of_cosines_spherical", P + "get_sector_azimuths_from_node_center"],
              obs=Observe(kept=False), what="node orientation respects the sector limits, the angle rules and the channels, and minimises the weighted deviation")
    areas.operations(ctx, "readjust", "prepare", "same_node")
