I = "optimization.topology_interference:"
from checks import con
R = "common.rf.link_budget_calculator:"


def run(ctx):
    con.constants(ctx, "UNASSIGNED_CHANNEL", "FULL_ROTATION_ANGLE")
    K = [I + n for n in ("_calculate_net_gain_on_rx_links", "_compute_link_interference_net_gain", "_get_cn_polarities", "compute_link_net_gain_map", "compute_link_rsl_map")]
    K += [R + "get_fspl_based_net_gain", R + "get_max_tx_power", "common.geos:angle_delta"]

    def eq(fn, sp, what):
        ctx.equiv(I + fn, "c14:" + sp, keep=[k for k in K if k != I + fn], what=what)
    eq("compute_link_interference", "worst_case", "worst-case interference of every wireless sectored link")
    eq("_compute_link_interference_net_gain", "path_gain", "gain along the interfering path, each end with its own device")
    eq("analyze_interference", "analyze", "SINR of active wireless links")
    eq("_compatible_polarity", "polarity_ok", "opposite or unassigned polarity at active sites")
    eq("_compatible_channel", "channel_ok", "same or unassigned channel at active sectors")
    eq("_get_cn_polarities", "cn_polarities", "polarity of a CN is opposite to its serving site")
    eq("compute_link_net_gain_map", "interfering", "paths that can interfere")
    eq("_calculate_net_gain_on_rx_links", "on_rx_links", "victims and causes of one path")
    eq("compute_link_rsl_map", "rsl_map", "interference adds up in linear units over paths")
