from vstat.compare import Observe

V = "los.base_los_validator:BaseLOSValidator."
C = "los.cylindrical_los_validator:CylindricalLOSValidator."
E = "los.ellipsoidal_los_validator:EllipsoidalLOSValidator."
F = "los.fresnel_zone:FresnelZone."
M = "los.elevation:Elevation."


def run(ctx):
    zone = [F + n for n in ("_get_equation_constants", "check_point_obstruct_inner_fresnel_zone", "get_max_fresnel_radius", "_filter_points_outside_of_ellipse", "_solve_for_lower_ellipsoid_height", "_solve_for_max_fresnel_radius_2d", "_solve_for_max_fresnel_radius_3d")]
    cells = [M + "get_all_obstructions", V + "_get_four_corners_of_rectangle", V + "_passes_simple_checks"]
    ctx.equiv(E + "compute_confidence", "c28:ellipsoidal", keep=zone + cells, what="clear share of the Fresnel zone, over every cell of its footprint")
    ctx.equiv(V + "_get_four_corners_of_rectangle", "c28:corners", what="footprint of the line with the radius on either side")
    ctx.equiv(C + "_compute_confidence_by_radius", "c28:by_radius", keep=cells + [C + "_distance_between_grid_and_center_line", C + "_filter_points_outside_of_rectangle"], what="clear share of the cylinder, over every cell of its footprint")
    ctx.equiv(C + "_distance_between_grid_and_center_line", "c28:cell_distance", what="distance of a column of terrain from the line of sight")
    ctx.equiv(F + "__init__", "c28:zone_init", keep=zone, what="a zone between two different positions")
    ctx.equiv(F + "_get_equation_constants", "c28:constants", what="axes, radii and centre of the zone")
    ctx.equiv(F + "_filter_points_outside_of_ellipse", "c28:in_ellipse", what="footprint of the zone")
    ctx.equiv(F + "check_point_obstruct_inner_fresnel_zone", "c28:obstructs", keep=zone, what="terrain at or above the bottom of the inner zone obstructs it")
    ctx.equiv(F + "get_max_fresnel_radius", "c28:max_radius", keep=zone, what="largest zone that an obstruction leaves")
    ctx.equiv(F + "_solve_for_lower_ellipsoid_height", "c28:lower_height", what="bottom of the ellipsoid above a point")
    ctx.equiv(F + "_solve_for_max_fresnel_radius_2d", "c28:radius_2d", what="ellipse through a point")
    ctx.equiv(F + "_solve_for_max_fresnel_radius_3d", "c28:radius_3d", what="ellipsoid through a point")
    ctx.equiv(M + "get_all_obstructions", "c28:obstructions", keep=[M + "utm_to_idx", M + "idx_to_utm"], what="every cell of the raster inside the bounds")
    ctx.equiv(M + "utm_to_idx", "c28:to_idx", what="cell nearest to a position, within the raster")
    ctx.equiv(M + "idx_to_utm", "c28:to_utm", what="position of a cell")
    quiet = Observe(drop=lambda e: True, kept=False, raises=None)
    if ctx.find(C + "_filter_points_outside_of_rectangle"):
        ctx.equiv("spec:rec:asked_rectangle", "rec:inside_rectangle", obs=quiet, name="rectangle", what="a cell is in the footprint when its projections on both sides are")
    ctx.equiv("spec:rec:asked_zone", "rec:given_zone", obs=quiet, inline_new=("FresnelZone",), keep=zone, name="record:zone", what="a zone answers with what it was made from")
