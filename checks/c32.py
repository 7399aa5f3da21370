B = "los.building:Building."
from checks import con
G = "los.building_group:BuildingGroup."
S = "common.topology_models.site:"
M = "los.elevation:Elevation."


def run(ctx):
    con.constants(ctx, "BUILDING_HEIGHT_THRESHOLD", "MINIMUM_BUILDING_AREA", "MIN_CORNER_ANGLE", "POLYGON_MINIMUM_VERTICES", "HALF_SIDE_LENGTH_FOR_ALTITUDE_SEARCH", "UNKNOWN_BUILDING_ID")
    law = "common.geos:law_of_cosines_utm"
    tr = "common.geos:TransformerLib.get_tranformer"
    ctx.equiv("los.building:detect_corners_from_polygon_vertices", "c32:sharp_corners", keep=[law], what="vertices whose angle lies between the limits")
    ctx.equiv(B + "detect_all_site_candidate_locations", "c32:everything", keep=[B + "detect_corners", B + "detect_center", B + "detect_highest"], what="each kind that is asked for")
    ctx.equiv(B + "detect_corners", "c32:corners", keep=["los.building:detect_corners_from_polygon_vertices", M + "get_value_matrix_within_bound", M + "get_value"], what="corners at the altitude of the roof")
    ctx.equiv(B + "detect_center", "c32:center", keep=[M + "get_value"], what="centroid, or a point inside the polygon")
    ctx.equiv(B + "detect_highest", "c32:highest", keep=[M + "get_value_list_within_bound", B + "detect_center"], what="highest cell on the building, else the center")
    ctx.equiv(G + "add_building", "c32:add", keep=[B + "__init__"], what="valid, non-empty buildings only")
    ctx.equiv(G + "preprocess", "c32:prepare", keep=[G + "add_building", tr], what="cut to the boundary, inside the selection, large enough, in UTM")
    ctx.equiv(G + "detect_site_candidates", "c32:candidates", keep=[B + "detect_corners", B + "detect_center", B + "detect_highest", tr, S + "DetectedSite.__init__", "common.geos:GeoLocation.__init__"], what="the sites of every building, at the mounting height, with its id")
    ctx.equiv(G + "to_dhm", "c32:heights", calls=[".polygon"], keep=[M + "__init__"], what="buildings drawn at their place and height")
    ctx.equiv(S + "DetectedSite.__init__", "c32:detected", keep=[S + "Site.__init__", "common.configuration.configs:DeviceData.__init__", "common.configuration.configs:SectorParams.__init__"], what="a rooftop candidate on its building")
    ctx.equiv(S + "DetectedSite.to_site", "c32:with_device", keep=[S + "Site.__init__"], what="the same site with a device")
