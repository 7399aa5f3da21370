from vstat.compare import Observe
from checks import areas, con

V = "los.base_los_validator:BaseLOSValidator."
C = "los.cylindrical_los_validator:CylindricalLOSValidator."
E = "los.ellipsoidal_los_validator:EllipsoidalLOSValidator."


def run(ctx):
    con.constants(ctx, "UNKNOWN_BUILDING_ID", "DISTANCE_TOLERANCE_PERCENT", "ELE_SCAN_ANGLE_TOLERANCE")
    ctx.equiv(V + "__init__", "c10:base_init", what="limits accepted and kept by every LOS model")
    ctx.equiv(V + "_passes_simple_checks", "c10:basic_rules", what="the five rules every pair has to pass, limits included")
    ctx.equiv(C + "compute_confidence", "c10:cylindrical", keep=[C + "_compute_confidence_by_radius", V + "_passes_simple_checks"], what="nothing else rejects a pair")
