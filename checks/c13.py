from checks import areas, con

R = "common.rf.link_budget_calculator:"


def run(ctx):
    con.constants(ctx, "DEFAULT_MCS_SNR_MBPS_MAP")
    ctx.equiv(R + "get_max_tx_power", "c13:max_power", what="device maximum, EIRP limit and configured minimum")
    ctx.equiv(R + "get_backoff_from_mcs", "c13:backoff", what="backoff of the MCS, zero if not in the table")
    ctx.equiv(R + "get_link_capacity_from_mcs", "c13:capacity", what="throughput of the MCS in Gbps")
    ctx.equiv(R + "get_mcs_from_snr", "c13:mcs_from_snr", what="highest MCS whose requirement is met")
    ctx.equiv(R + "get_snr_from_mcs", "c13:snr_from_mcs", what="requirement of the highest MCS not above the given one")
    ctx.equiv(R + "adjust_tx_power_with_backoff", "c13:adjust", keep=[R + "get_snr_from_mcs", R + "get_backoff_from_mcs"], what="MCS lowered until the power respects its backoff")
    areas.operations(ctx, "sinr_caps")
