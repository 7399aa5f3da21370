from vstat.compare import Observe

TM = "common.topology_models."
# the documented conversion of DNs into POPs in the POP proposal's own private copy
POPCOPY = "optimization.ilp_models.pop_proposal_optimization:"


def run(ctx):
    site = Observe(ret=False, kept=False, on_exit=True, kinds={"setattr"}, only_attrs={"_site_type", "_location", "_device", "_location_type", "_building_id", "_name", "_number_of_subscribers"})
    ctx.equiv(TM + "site:Site.__init__", "c03:site_init", obs=site, keep=["common.geos:lat_lon_to_geo_hash", "common.utils:deterministic_hash"], what="device type, building id and location type agree; the attributes are stored as given")
    link = Observe(ret=False, kept=False, on_exit=True, kinds={"setattr"}, only_attrs={"_tx_site", "_rx_site", "_tx_sector", "_rx_sector", "is_wireless", "confidence_level"})
    ctx.equiv(TM + "link:Link.__init__", "c03:link_init", obs=link, assume=lambda I: ctx.formula(I, "c03:compatible"), what="end sites, sectors and transmitter type agree")
    plain = Observe(ret=False, kept=False)
    ctx.equiv(TM + "link:Link.tx_sector.setter", "c03:set_tx_sector", obs=plain, what="a sector of another site is refused")
    ctx.equiv(TM + "link:Link.rx_sector.setter", "c03:set_rx_sector", obs=plain, what="a sector of another site is refused")
    ctx.equiv(TM + "link:Link.clear_sectors", "c03:clear_sectors", obs=plain, what="both sectors are cleared together")
    ctx.equiv(TM + "link:Link.is_out_of_sector", "c03:out_of_sector", what="no sectors")
    ctx.equiv(TM + "link:Link.link_type", "c03:link_type", what="type follows from wirelessness and the receiving site")
    ctx.equiv("common.configuration.enums:LinkType.is_wireless", "c03:is_wireless_type", what="wireless types")
    sector = Observe(ret=False, kept=False, raises=None, on_exit=True, kinds={"setattr"}, only_attrs={"_site", "_sector_type", "_node_id", "_position_in_node", "ant_azimuth", "channel"})
    ctx.equiv(TM + "sector:Sector.__init__", "c03:sector_init", obs=sector, assume=lambda I: ctx.formula(I, "c03:sector_ok"), what="sector type follows from its site")
    ctx.equiv(TM + "site:Site.number_of_subscribers", "c03:subscribers", what="subscribers of a site")
    ctx.equiv(TM + "site:Site.name", "c03:site_name", what="name defaults to the id")
    from vstat import passes
    L = TM + "link:Link."
    for a, owners in (("_tx_sector", {L + "__init__", L + "clear_sectors", L + "tx_sector.setter"}), ("_rx_sector", {L + "__init__", L + "clear_sectors", L + "rx_sector.setter"}),
                      ("_tx_site", {L + "__init__"}), ("_rx_site", {L + "__init__"}), ("_site_type", {TM + "site:Site.__init__", POPCOPY}), ("_building_id", {TM + "site:Site.__init__"}),
                      ("_location_type", {TM + "site:Site.__init__"}), ("_device", {TM + "site:Site.__init__"})):
        passes.only_writers(ctx, f"writers:{a}", a, owners)
