M = "los.elevation:Elevation."
from checks import con
K = "los.elevation:ElevationKDTree."
E = "common.data_io.elevation_loader:ElevationLoader."
EXC = {"DataException": []}


def run(ctx):
    con.constants(ctx, "NO_DATA_VALUE", "DEFAULT_RESOLUTION", "DEFAULT_ELEVATION_SEARCH_RADIUS", "MIN_RES_TO_OUTPUT_AS_LIST")
    ctx.equiv(M + "__init__", "c31:raster_init", what="a raster keeps the position and resolution it is given")
    ctx.equiv(M + "x_size", "c31:width", what="columns")
    ctx.equiv(M + "y_size", "c31:height", what="rows")
    ctx.equiv(M + "utm_to_idx", "c28:to_idx", what="cell nearest to a position, within the raster")
    ctx.equiv(M + "idx_to_utm", "c28:to_utm", what="position of a cell")
    ctx.equiv(M + "get_value", "c25:grid_value", keep=[M + "utm_to_idx", M + "find_closest_valid_elevation"], fields=EXC, what="value of the nearest cell, or the closest valid one")
    ctx.equiv(M + "get_data_as_list", "c25:grid_list", keep=[M + "idx_to_utm"], fields=EXC, what="positions and values of the cells with data")
    ctx.equiv(M + "find_closest_valid_elevation", "c31:closest_valid", keep=[M + "get_data_as_list", K + "__init__", K + "find_closest_valid_elevation"], what="searched among the cells with data, within the search radius")
    ctx.equiv(K + "__init__", "c31:tree_init", what="the tree holds every cell with data, and their average")
    ctx.equiv(K + "find_closest_valid_elevation", "c31:tree_closest", what="the closest cell in reach, else the average")
    ctx.equiv(M + "set_resolution", "c31:resample", keep=[M + "get_value"], what="nearest cell, over the whole bounding box")
    ctx.equiv("los.helper:upsample_to_same_resolution", "c31:upsample", keep=[M + "set_resolution"], what="the finer resolution of the two, each way")
    ctx.equiv(M + "get_value_list_within_bound", "c31:cells_within", keep=[M + "get_value"], what="every cell whose position lies within the bounds")
    ctx.equiv(M + "get_value_matrix_within_bound", "c31:matrix_within", keep=[M + "get_value"], what="the cells within the bounds, none from the other side")
    ctx.equiv(M + "get_all_obstructions", "c28:obstructions", keep=[M + "utm_to_idx", M + "idx_to_utm"], what="every cell of the raster inside the bounds")
    for n in ("add", "sub"):
        ctx.equiv(M + f"__{n}__", f"c31:grid_{n}", keep=[M + "_has_same_metadata", M + "__init__"], fields=EXC, what="cell by cell, on the same grid, no data where either has none")
    ctx.equiv(M + "_has_same_metadata", "c25:same_grid", what="same position, size, resolution and coordinate system")
    ctx.equiv(E + "read", "c25:read_elevation", keep=[E + "validate", M + "__init__"], fields=EXC, what="merged, converted to UTM, cropped, and placed where the file says")
    ctx.equiv(E + "write", "c31:write_raster", calls=[".Register", ".Create", ".SetGeoTransform", ".SetSpatialRef", ".WriteArray", ".SetNoDataValue", ".FlushCache"], fields=EXC, what="written where it is")
