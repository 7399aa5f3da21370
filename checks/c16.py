from vstat.compare import Observe

D = "optimization.deployment_rules:"
T = "common.topology_models.topology:Topology."


def run(ctx):
    obs = Observe(raises=None, kept=False)
    ctx.equiv(D + "find_angle_violating_link_pairs", "c16:pairs", keep=["common.geos:law_of_cosines_spherical"], obs=obs, what="every pair of wireless links leaving different sectors of a site is checked against both angle rules")
    ctx.equiv(D + "get_violating_link_ids", "c16:violating_ids", keep=[T + "get_link_by_site_ids"], obs=obs, what="both directions of both links of every reported triple")
    ctx.equiv(D + "find_sector_limit_violations", "c16:load", keep=[T + "sector_connectivity"], obs=obs, what="active DN sectors with more active peers than allowed")
