from checks import areas, con

R = "common.rf.link_budget_calculator:"


def run(ctx):
    con.constants(ctx, "FSPL_MARGIN", "FREQUENCY_DEPENDENT_OXYGEN_LOSS_MAP", "DEFAULT_MCS_SNR_MBPS_MAP")
    names = ["fspl", "extract_gain_from_radio_pattern", "compute_rain_loss", "compute_oxygen_loss", "get_fspl_based_net_gain", "get_mcs_from_snr", "adjust_tx_power_with_backoff",
             "get_link_capacity_from_mcs", "get_backoff_from_mcs", "is_scan_pattern_data", "get_max_boresight_gain_from_pattern_file"]
    K = [R + n for n in names]
    for fn, sp, what in (("fspl", "fspl_", "20 log d + 20 log f + 92.45 dB, never negative"), ("log_to_linear", "to_linear", ""), ("linear_to_log", "to_log", ""),
                         ("mhz_to_ghz", "thousandth", "unit"), ("meter_to_kilometer", "thousandth", "unit"), ("mbps_to_gbps", "thousandth", "unit"),
                         ("get_net_gain", "net_gain", "both gains minus both losses"), ("get_rsl", "rsl", ""), ("extract_gain_from_radio_pattern", "gain", "pattern gain by deviation"),
                         ("get_max_boresight_gain_from_pattern_file", "max_pattern", ""), ("is_scan_pattern_data", "is_scan", ""),
                         ("compute_rain_loss", "rain", "ITU rain model"), ("compute_oxygen_loss", "oxygen", "loss per km by frequency"), ("get_fspl_based_net_gain", "path_gain", "each end contributes its own gain and loss"),
                         ("get_noise_power", "noise_power", ""), ("get_snr", "snr", ""), ("get_snr_based_rsl", "signal", ""), ("get_fspl_based_rsl", "received", ""), ("get_tx_power_from_rsl", "transmitted", ""),
                         ("fspl_based_estimation", "estimation", "link budget of one link")):
        ctx.equiv(R + fn, "c12:" + sp, keep=[k for k in K if k != R + fn], what=what)
    ctx.equiv("common.structs:LinkBudgetMeasurements.__post_init__", "c12:post_init", what="SINR starts as SNR")
    areas.operations(ctx, "capacities", "sinr_caps")
