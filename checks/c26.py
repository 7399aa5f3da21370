from vstat.compare import Observe
from vstat.passes import wiring
from checks import con

G = "common.geos:"
L = "common.topology_models.link:Link."
GL = G + "GeoLocation."


def run(ctx):
    con.constants(ctx, "EARTH_RADIUS", "LAT_LON_EPSG", "FULL_ROTATION_ANGLE", "STRAIGHT_ANGLE")
    helpers = [G + n for n in ("haversine_distance", "translate_point", "bearing_in_degrees", "angle_delta", "lat_lon_to_utm_epsg", "_longitude_to_utm_zone", "_law_of_cosines", "_get_length_ratio",
                               "TransformerLib.get_tranformer")]
    pure = lambda e: e.kind == "call"

    def eq(fn, sp, what, keep=()):
        ctx.equiv(fn, "c26:" + sp, keep=[h for h in helpers if h != fn] + list(keep), obs=Observe(drop=pure), what=what)
    eq(G + "angle_delta", "delta", "signed difference in (-180, 180]")
    eq(G + "_longitude_to_utm_zone", "zone", "UTM zone")
    eq(G + "lat_lon_to_utm_epsg", "epsg", "northern or southern UTM system")
    eq(G + "haversine_distance", "haversine", "great-circle distance in meters")
    eq(G + "translate_point", "translate", "destination point")
    eq(G + "grid_deltas", "grid", "east step in longitude, north step in latitude")
    eq(G + "_law_of_cosines", "cosines", "angle between two sides")
    eq(G + "_get_length_ratio", "ratio", "longer over shorter")
    eq(G + "law_of_cosines_spherical", "cosines_spherical", "angle and ratio at point 0")
    eq(G + "law_of_cosines_utm", "cosines_utm", "angle at point 0")
    eq(G + "bearing_in_degrees", "bearing", "initial bearing from a to b, 0..360")
    eq(G + "lat_lon_to_geo_hash", "geohash", "interleaved bits, longitude first")
    eq(GL + "__init__", "location", "ranges and exactly one coordinate system")
    eq(GL + "copy", "copy_location", "each attribute keeps its own meaning", [GL + "__init__"])
    eq(GL + "_update_lat_lon", "to_lat_lon", "projected x,y to longitude, latitude")
    eq(GL + "_update_utm", "to_utm", "longitude, latitude to projected x, y", [GL + "latitude", GL + "longitude"])
    eq(G + "TransformerLib.get_tranformer", "transformer", "from/to systems, always x before y")
    upd = [GL + "_update_lat_lon", GL + "_update_utm", L + "_update_azimuth"]
    for f, s in (("latitude", "lat"), ("longitude", "lon"), ("utm_x", "x"), ("utm_y", "y"), ("utm_epsg", "epsg")):
        ctx.equiv(GL + f, "c26:lazy_" + s, keep=upd, what="computed on first use, then kept")
    ctx.equiv(L + "tx_beam_azimuth", "c26:lazy_tx", keep=upd, what="computed on first use, then kept")
    ctx.equiv(L + "rx_beam_azimuth", "c26:lazy_rx", keep=upd, what="computed on first use, then kept")
    eq(L + "distance", "distance", "length of the link in space")
    eq(L + "_update_azimuth", "azimuths", "bearing from transmitter to receiver and back")
    dev = [L + "tx_beam_azimuth", L + "rx_beam_azimuth", L + "distance", L + "link_type"]
    eq(L + "tx_dev", "tx_dev", "deviation of the link from the transmitting sector", dev)
    eq(L + "rx_dev", "rx_dev", "deviation of the link from the receiving sector", dev)
    eq(L + "el_dev", "el_dev", "elevation angle from transmitter to receiver", dev)
    eq(L + "link_channel", "channel", "the channel of both sectors of an active link")

    def lint(o):
        found, stat = wiring(ctx.p)
        o.measure = stat
        for what, where in found:
            o.bad(what, where)
        if stat["resolved_calls"] < 300:
            o.und("too few calls were resolved", "package")
    ctx.rule("argument-wiring", "every argument, assignment, sum, difference and comparison of the package keeps latitude/longitude, x/y, units and the two ends of a link apart", "package", lint)
