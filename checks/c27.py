import ast
from vstat.compare import Observe
from checks import areas, con

D = "common.data_io."
K = D + "kml_library:"
C = D + "csv_library:"
U = D + "utils:"
S = D + "input_sites:InputSites."
L = D + "input_sites_loader:InputSitesLoader."


def titles(ctx, qual, o):
    """What the columns of the table are renamed to before they are matched."""
    f = ctx.find(qual)
    new = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rename":
            new.append((n, [a for a in n.args] + [k.value for k in n.keywords if k.arg == "columns"]))
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "columns" for t in n.targets):
            new.append((n, [n.value]))
    used = {x.attr for _, vs in new for v in vs for x in ast.walk(v) if isinstance(x, ast.Attribute)}
    o.measure = {"renames": len(new)}
    called = {x.id for _, vs in new for v in vs for x in ast.walk(v) if isinstance(x, ast.Name)}
    used |= {x.attr for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
             and any(isinstance(t, ast.Name) and t.id in called for t in (n.targets if isinstance(n, ast.Assign) else [n.target])) for x in ast.walk(n.value) if isinstance(x, ast.Attribute)}
    helpers = [c for _, vs in new for v in vs for c in ast.walk(v) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)]
    if not new or helpers:
        o.und("the titles are standardised in a way not understood", qual)
        return
    where = f"{f.module.path}:{new[0][0].lineno} ({f.qual})"
    if not used & {"strip"}:
        o.bad("a title with spaces around it is not recognised", where)
    if not used & {"casefold", "lower"}:
        o.bad("a title in another case is not recognised", where)


def run(ctx):
    con.constants(ctx, "SITE_LINK_DIST_THRESHOLD")
    con.input_names(ctx, "SiteKey")
    con.input_names(ctx, "LinkKey")
    F = [K + "_get_feature_field"]
    Z = K + "_get_kml_file_path_from_kmz"
    ctx.equiv(K + "_get_feature_field", "c27:field", what="value of the first data field with one of the names of the key")
    ctx.equiv(K + "extract_sites", "c27:sites", keep=F, what="sites of a KML folder")
    ctx.equiv(K + "extract_links", "c27:links", keep=F, what="links of a KML folder")
    ctx.equiv(K + "extract_demand_sites", "c27:demands", what="demand sites of a KML folder")
    ctx.equiv(Z, "c27:kml_in_kmz", calls=[".extractall"], what="the KML file of a KMZ file")
    ctx.equiv(K + "extract_raw_data_from_kml_file", "c27:kml_contents", keep=[K + "extract_sites", K + "extract_links", K + "extract_demand_sites", Z],
              what="folders of a KML file: the last status folder applies, CANDIDATE before any")
    ctx.equiv(K + "extract_polygons", "c27:polygons", keep=[Z], what="polygons of a KML file")
    ctx.equiv(K + "extract_boundary_polygon", "c27:boundary", keep=[K + "extract_polygons"], what="boundary and its UTM zone")

    V = C + "load_csv_and_validate"
    ctx.equiv(C + "dms_to_decimal", "c27:decimal_degrees", what="degrees with a direction")
    ctx.equiv(C + "_to_float", "c27:csv_number", what="a numeric cell")
    ctx.equiv(V, "c27:csv_table", keep=[C + "dms_to_decimal", C + "_to_float"], what="columns of a CSV file matched, converted and validated")
    ctx.rule("csv-titles", "column titles are matched whatever their case and surrounding spaces", V, lambda o: titles(ctx, V, o))
    for part in (["site_type", "status_type", "device_sku", "name", "latitude", "longitude"], ["location_type", "building_id", "latitude"], ["altitude", "height", "number_of_subscribers", "longitude"]):
        ctx.equiv(C + "load_input_sites_from_csv_file", "c27:csv_sites", keep=[V], fields={"RawSite": part}, name=f"load_input_sites_from_csv_file:{part[0]}", what="sites of a CSV file: " + ", ".join(part))
    ctx.equiv(C + "load_topology_link_csv", "c27:csv_links", keep=[V], what="links of a CSV file")

    A, T, N = U + "_add_link_between_sites", U + "_build_kd_tree", U + "_find_nearest_sites_to_loc"
    I = L + "get_input_sites"
    ctx.equiv(A, "c27:add_link", keep=["common.topology_models.topology:Topology.add_link", "common.topology_models.topology:Topology.get_link_by_site_ids"],
              what="link from one imported site to another: never from a CN, never twice, one status")
    ctx.equiv(T, "c27:kd_tree", what="index of the imported sites")
    ctx.equiv(N, "c27:nearest", what="sites at an end of an unnamed link")
    ctx.equiv(U + "map_input_sites_links_from_kml", "c27:map_links", keep=[A, T, N, S + "utm_epsg", S + "get_site_by_name"], what="links of a KML file: by names or by position, in both directions")
    ctx.equiv(U + "extract_topology_from_kml_file", "c27:from_kml", keep=[K + "extract_raw_data_from_kml_file", I, U + "map_input_sites_links_from_kml", "common.topology_models.topology:Topology.__init__"], what="topology of a KML file")
    ctx.equiv(U + "extract_topology_from_csv_files", "c27:from_csv", keep=[C + "load_input_sites_from_csv_file", C + "load_topology_link_csv", I, A, S + "get_site_by_name", "common.topology_models.topology:Topology.__init__"],
              what="topology of two CSV files")
    ctx.equiv(U + "extract_topology_from_file", "c27:from_file", calls=[".extractall"], keep=[U + "extract_topology_from_kml_file", U + "extract_topology_from_csv_files"], what="topology file by its extension")

    ctx.equiv(L + "__init__", "c27:loader", what="devices by SKU and by site type")
    ctx.equiv(L + "read_user_input", "c27:user_input", keep=[I, C + "load_input_sites_from_csv_file", K + "extract_raw_data_from_kml_file"], what="user input file by its extension")
    ctx.equiv(I, "c27:input_sites", keep=[S + "add_site"], what="sites built from what was read, inside the boundary, one per device when none is named")

    P = [S + "_is_duplicated_site", S + "_validate_site_name", S + "_append_device_sku_to_site_name"]
    ctx.equiv(S + "add_site", "c27:add_site", keep=P, what="a site is listed once")
    ctx.equiv(P[0], "c27:duplicated", what="what makes two imported sites the same")
    ctx.equiv(P[1], "c27:name_site", keep=P[2:], what="names: unique per device, device appended when several share one")
    ctx.equiv(P[2], "c27:append_sku", what="device appended to a name")
    ctx.equiv(S + "utm_epsg", "c27:zone", what="UTM zone of the imported sites")
    ctx.equiv(S + "get_site_by_name", "c27:by_name", what="site by its name")
    ctx.equiv(S + "get_site_by_id", "c27:by_id", what="site by its id")
    ctx.equiv(S + "__add__", "c27:combined", keep=[S + "add_site"], what="two lists of sites together")
    ctx.equiv("los.helper:infer_input_site_location", "c11:infer", what="altitude and location type of an input site")
    areas.inputs(ctx)
