from vstat.compare import Observe

C = "common.configuration.configs:"


def run(ctx):
    obs = Observe(ret=False, kept=False, kinds=set())
    K = ["common.data_io.csv_library:read_antenna_pattern_data", "common.data_io.csv_library:read_scan_pattern_data", "common.data_io.csv_library:read_mcs_snr_mbps_map_data"]
    for cls, sp in (("SectorParams", "sector_params"), ("DeviceData", "device_data"), ("SiteDetectionParams", "site_detection"), ("LOSParams", "los_params"), ("OptimizerParams", "optimizer_params"), ("GISDataParams", "gis_params")):
        ctx.equiv(C + cls + ".__init__", "c06:" + sp, obs=obs, keep=K, what="a configuration error is raised exactly outside the documented range")
    ctx.equiv(C + "DeviceData.__init__", "c06:device_data", name="nodes-per-site", obs=Observe(ret=False, kept=False, raises=None, on_exit=True, kinds={"setattr"}, only_attrs={"number_of_nodes_per_site"}), what="number of nodes per site defaults by device type")
