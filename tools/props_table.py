TM = T + "common/topology_models/"
CF = T + "common/configuration/"
IO = T + "common/data_io/"
OP = T + "optimization/"
ILP = OP + "ilp_models/"

prop("C01", "Existing and unavailable elements never change status",
 "A site, sector or link whose status is EXISTING or UNAVAILABLE keeps that status for its whole life, and no element can be moved to either of them after it is created: every attempt to assign a status from or to one of them raises a topology error and leaves the element unchanged. Every other status change that is compatible with the element's site(s) takes effect exactly as requested, and no code changes a status behind the checked assignment (the POP proposal's own private copy of the topology excepted).",
 ["inputs", "histories"], "every old status x new status x element kind (and the statuses of the sites it hangs on), every writer in the package",
 "Unit tests assign a handful of statuses; nothing checks that every writer in the package goes through the checked assignment.",
 [TM + "site.py", TM + "sector.py", TM + "link.py", CF + "enums.py"],
 [("status_type setters", "Site/Sector/Link.status_type"), ("StatusType.immutable_status", "enums.py")],
 [("_status_type", "current status of the element", "Site, Sector, Link")],
 ["status_type after an assignment", "TopologyException"])

prop("C02", "Link and sector statuses stay compatible with their sites",
 "Creating a sector or link, or assigning its status, succeeds only if the status is compatible with the sites it hangs on: a sector on an active site is CANDIDATE, PROPOSED or EXISTING and otherwise has exactly its site's status; an EXISTING link joins two EXISTING sites, a link touching an UNAVAILABLE (UNREACHABLE) site is UNAVAILABLE (UNREACHABLE), and a link touching a CANDIDATE site is never active. Every incompatible combination raises a topology error before anything is changed.",
 ["inputs", "histories"], "all combinations of the statuses of both end sites, the current and the requested status",
 "The cross product has several hundred cases; tests sample a few of them.",
 [TM + "sector.py", TM + "link.py"],
 [("_check_compatible_status_type", "Sector"), ("_check_compatible_status", "Link")],
 [("_status_type", "status of the element", "Sector, Link")], ["constructors", "status assignment"])

prop("C03", "Links and sectors are structurally well formed",
 "A link's end sites always agree with its sectors (each sector belongs to the site at its own end), it has either both sectors or none, and it never transmits from a CN; a CN site carries exactly a CN device and every other site a DN device, and a building id is present exactly when the site is on a rooftop (the co-located POPs that POP proposal adds take the radio of their DN). The constructor or the assignment that would break this raises a topology error, and a link's type follows from wirelessness and the receiving site alone (wired: ETHERNET, wireless into a CN: WIRELESS_ACCESS, otherwise WIRELESS_BACKHAUL).",
 ["inputs"], "all constructor arguments and all later sector assignments",
 "Tests construct a few valid objects and a few invalid ones.",
 [TM + "link.py", TM + "site.py", TM + "sector.py"],
 [("Link.__init__ and tx_sector/rx_sector setters", "link.py"), ("Site.__init__", "site.py")])

prop("C04", "Topology indices agree after every add and remove",
 "After any sequence of add and remove operations the indices of a topology agree: both connectivity directions list exactly the links in the topology, the per-site sector index lists exactly the sectors in the topology, removing a site removes its sectors and every link from or to it, and removing a sector clears the sectors (both) of every link using it. Operations on unknown elements, and adding a duplicate site or sector or anything hanging on a missing site, raise and change nothing, and only the topology class itself modifies these indices.",
 ["histories"], "every sequence of add_/remove_ operations, every module of the package",
 "Tests run a few sequences and look at a few indices; remove followed by re-add was never run.",
 [TM + "topology.py"],
 [("add_/remove_ methods", "Topology"), ("site_connectivity / site_connectivity_reverse / site_id_to_sector_ids", "Topology")],
 [("site_connectivity", "tx site -> rx site -> link id", "Topology"), ("site_connectivity_reverse", "rx site -> tx site -> link id", "Topology"), ("site_id_to_sector_ids", "site -> its sector ids", "Topology")],
 ["the indices after any operation", "get_successor_sites/get_predecessor_sites/get_link_by_site_ids"])

prop("C05", "Element identity is fixed and deterministic",
 "A site's id depends on exactly its type, coordinates, altitude and device SKU, a sector's id on its site, node, position and type, a link's id on the ordered pair of its end sites, a demand site's id on its location; the same key attributes give the same id in every process and run. The attributes an id is made of cannot be changed after construction, and a link and its reverse share the hash links are counted and drawn by.",
 ["inputs", "histories"], "all attribute values, all processes (hash seeds), all later writes in the package",
 "A test run sees one process and cannot enumerate later writes.",
 [TM + "site.py", TM + "sector.py", TM + "link.py", TM + "demand_site.py", T + "common/utils.py"],
 [("deterministic_hash", "common/utils.py"), ("read-only properties", "Site, Sector, Link, DemandSite")])

prop("C06", "Out-of-range configuration is rejected with a configuration error",
 "Every bounded configuration parameter (radio, sector, device, LOS, financial, dimensioning, optimizer, system) is accepted exactly on its documented range and otherwise rejected with a configuration error when the configuration is built, before any planning starts. Conflicting or duplicate settings (duplicate device SKUs, base topology together with building outlines, no demand model) are rejected the same way, and an input file path with the wrong extension is rejected with a data error.",
 ["configurations"], "all values of every bounded parameter on either side of and exactly at each bound",
 "Tests try one bad value per parameter for a few parameters and never the exact boundary.",
 [CF + "configs.py"], [("planner_assert validations", "SectorParams, DeviceData, LOSParams, OptimizerParams, SystemParams")])

prop("C07", "Every documented parameter is read, defaulted and propagated",
 "Every field of the documented configuration template reaches the parameter object of the same name, an omitted or null field takes the documented default, an unknown field is reported rather than ignored, and the radio-level fields shared by all devices (carrier frequency, noise figure, thermal noise, rain rate, link availability) reach every device's sector parameters, as do the antenna, scan-pattern and MCS tables the configuration names. Every file loader that parses configuration uses a safe parser.",
 ["configurations"], "every field of the template and every subset of fields left out",
 "Tests load a few configurations and compare a few fields.",
 [CF + "configs.py", CF + "utils.py", T + "data/template.yaml"],
 [("ConfigParser.from_dict", "configs.py"), ("struct_objects_from_file, _detect_typo", "configuration/utils.py")])

prop("C08", "Text in KML output is always escaped",
 "A KML document the planner writes is well-formed: every piece of text that can come from user input (topology name, site name, device SKU, attribute values, demand names) is XML-escaped exactly once where it enters the document, every element is closed where it was opened, the file is encoded as its header declares, and every style a placemark refers to is defined in the document for every site type, link type and status.",
 ["inputs"], "all strings a user can put into names and attributes, all statuses and types",
 "Tests write names without special characters and mostly common statuses.",
 [IO + "topology_serializer.py", IO + "data_key.py"], [("xml escape", "topology_serializer.py"), ("SITE_STYLES / LINK_COLORS", "topology_serializer.py")])

prop("C09", "Files the planner writes are understood by its own readers",
 "Every site and link attribute the planner writes to KML under a data name that its KML reader consumes is recognised by the reader under exactly that name (case and spaces aside). Every site and every link of a topology, whatever its type and status, is written to KML with its own name, its own position (altitude 0, clamped to the ground, when it has none) and its own attributes. Every column declared for an output file is computed from the attribute of the object it is named after, and every site, sector and link of the topology has its row in the reports. A written building archive holds every outline, its coordinate system and all files of the shapefile.",
 ["inputs"], "all output keys against all input names; all statuses and types",
 "No test writes a file and reads it back.",
 [IO + "data_key.py", IO + "topology_serializer.py", IO + "kml_library.py", IO + "csv_library.py", IO + "utils.py", OP + "topology_report.py"],
 [("SiteKey/LinkKey/SectorKey tables", "data_key.py")])

prop("C10", "No LOS link bypasses the basic validity rules",
 "A candidate line of sight is accepted only if its two sites are at different horizontal positions, not on the same (known) building, between the minimum and the maximum LOS distance (inclusive), within the maximum elevation scan angle, and not crossing an exclusion zone, and only if its confidence level reaches the threshold; both LOS models apply the same rules. Nothing else rejects a pair before its confidence is computed.",
 ["inputs"], "all site pairs, both LOS models, values exactly at each limit",
 "Tests check a few pairs per model and not the boundaries.",
 [T + "los/base_los_validator.py", T + "los/cylindrical_los_validator.py", T + "los/ellipsoidal_los_validator.py", T + "los/helper.py"],
 [("_passes_simple_checks", "BaseLOSValidator"), ("compute_confidence", "validators")])

prop("C11", "Candidate links have the right direction and type",
 "Line of sight is tested for exactly the pairs of sites of which at least one is not part of the base topology and whose types can be linked: DN with DN or POP in both directions, POP/DN towards CN in that direction only, never between two POPs or two CNs and never from a CN. A clear line of sight between two DN/POP sites yields a candidate link in each direction with the same confidence, one into a CN yields exactly the link into the CN; the result of a pair is reused only for the same pair of sites. No link is created that is closer than the minimum LOS distance, farther than its device pair can serve (the distance at which the pair's capacity drops to zero, the larger of both directions, capped by the global limit) or steeper than the maximum elevation scan angle. Every link carries the confidence of its own pair, and new sites are linked with the sites of the base topology as well.",
 ["inputs"], "all pairs of site types and orders, all device lists",
 "Tests build a handful of pairs.",
 [T + "los/helper.py", T + "los/core.py"],
 [("get_los_topology / compute_los_batch / add_sites_to_topology / add_links_to_topology", "los/helper.py"), ("build_candidate_topology", "los/core.py")])

prop("C12", "The link budget follows the documented RF formulas",
 "Received power is transmit power plus both antenna gains minus both miscellaneous losses minus free-space, oxygen and rain losses; SNR is received power minus thermal noise minus noise figure; SINR degrades it by the sum of interference over noise in linear units; each transmitter-side quantity comes from the transmitting end and each receiver-side quantity from the receiving end, with consistent units (dB, GHz, km, Gbps).",
 ["inputs"], "all real-valued inputs",
 "Tests compare a few numbers and cannot show that every term enters with the right sign, end and unit.",
 [T + "common/rf/link_budget_calculator.py", OP + "topology_interference.py"],
 [("get_fspl_based_rsl, get_snr, fspl_based_estimation, fspl_based_estimation_interference", "link_budget_calculator.py")])

prop("C13", "Transmit power and MCS stay within device limits",
 "The transmit power of a link never exceeds the device maximum, the EIRP limit minus the antenna gain, or the backoff limit of the MCS in use, except that it is raised to the configured minimum transmit power where that is larger (the minimum always wins). The MCS and capacity chosen for an SNR are those of the highest table entry whose SNR requirement is met and that respects the minimum MCS, and the capacity is zero if there is none.",
 ["inputs"], "all SNRs, all MCS tables, with and without EIRP and minimum power",
 "Tests use one MCS table and a few SNRs.",
 [T + "common/rf/link_budget_calculator.py"],
 [("get_max_tx_power, adjust_tx_power_with_backoff, get_mcs_from_snr, get_link_capacity_from_mcs", "link_budget_calculator.py")])

prop("C14", "Interference counts exactly the links that can interfere",
 "A link's interference is the sum, in linear units, over every active interfering path into its receiving sector (both sectors active, sites of opposite or unassigned polarity, sectors on the same or an unassigned channel), of the mean received power over the links the transmitting sector really serves: its other active wireless non-redundant links. The victim's own transmitting sector never counts as an interferer, a path whose transmitter serves no such link contributes nothing, no path is counted twice, and the interfering received power is computed from the deviations and distance of the interfering path with the transmit power of the served link.",
 ["inputs"], "all sets of links, polarities, channels and sectors",
 "Tests use tiny topologies with one channel.",
 [OP + "topology_interference.py"], [("get_interfering_rsl / compute_link_interference / analyze_interference", "topology_interference.py")])

prop("C15", "Every link is attached to the sectors that serve it",
 "A backhaul link and its reverse (and an access link) are attached to sectors on both ends or on neither: on each end to the nearest sector of the site, provided the deviation from its boresight is strictly inside half the horizontal scan range (plus the tolerance); the reverse link uses the same pair of sectors mirrored, and an active wireless link for which no sectors are found is an error. Automatically created sectors follow the device (number of nodes times sectors per node on a DN, one node on a CN) and face the links of their site as documented, and user-provided sectors that contradict the device, exceed its node count or are not on the site they name are rejected with a planner error.",
 ["inputs"], "all link directions, device types and scan ranges",
 "Tests use a few azimuths.",
 [OP + "topology_preparation.py"], [("create_dn_sectors / create_cn_sectors / add_sectors_to_links / find_best_sectors", "topology_preparation.py")])

prop("C16", "Deployment-rule violations are reported exactly",
 "Two wireless links leaving one site through different sectors violate the angle rule exactly when the angle between them is at most the angle limit, and otherwise the near-far rule exactly when the angle is at most the near-far angle limit and their length ratio is at least the ratio limit; when only active components are considered, only active links on the same channel are compared. Every pair of outgoing wireless links of every site is examined once, and link-load violations are reported exactly when a sector serves more DNs or more peers in total than allowed.",
 ["inputs"], "all pairs of links on a site, all angles and ratios including the boundaries",
 "Tests use a few fixed geometries.",
 [OP + "deployment_rules.py"], [("find_angle_violating_link_pairs / ..", "deployment_rules.py")])

prop("C17", "Network analyses look at the active network only",
 "Reachability, hop counts, routing, disruption, availability and the reported metrics are computed on exactly the active sites and active links with capacity (plus demand sites attached to active sites); inactive, candidate and unreachable elements never contribute to a metric, a count or a cost.",
 ["inputs"], "all mixes of statuses",
 "Tests use topologies in which most elements share one status.",
 [OP + "topology_networkx.py", OP + "topology_component_counter.py", OP + "topology_report.py", OP + "topology_operations.py"],
 [("build_digraph", "topology_networkx.py")])

prop("C18", "Analyses leave the network they analyse unchanged",
 "Failure, redundancy, routing and availability analyses leave the graph and the topology they are given exactly as they found them (or work on a copy): every edge or node removed for a what-if is put back with all its attributes on every path, and every temporary status or parameter override in the optimizer is undone on every exit, including exceptions.",
 ["inputs", "fault_sequences"], "all paths, including exceptions from the solver",
 "Tests look at results, not at the state of the inputs afterwards, and never make the solver fail.",
 [OP + "topology_networkx.py", OP + "topology_availability.py", ILP + "network_optimization.py", ILP + "pop_proposal_optimization.py", ILP + "redundancy_optimization.py"],
 [("remove/add_edges pairs, deepcopy", "topology_networkx.py")])

prop("C19", "Availability simulation is reproducible and bounded",
 "With a non-negative seed the availability simulation gives the same result on every run, every random draw coming from the seeded generator; it stops at the simulated-time or wall-clock limit, and accounts exactly the simulated time during which each demand site is cut off from every POP.",
 ["inputs", "schedules"], "all seeds, topologies and limits",
 "Tests run one seed on small graphs.",
 [OP + "topology_availability.py"], [("seed handling", "compute_availability")])

prop("C20", "Demand sites attach only to sites that can serve them",
 "Each enabled demand model, and no other, contributes demand sites; a demand site is connected to every eligible site and only to those (the CNs at its place for CN demand; every site within the connection radius, inclusive, for uniform and manual demand; and the DNs and POPs at the same place or on the same known building as a connected CN), carries the configured demand, all CNs at one place share one demand site that counts as many demand sites as the first of them has subscribers, and a uniform demand site without any site in reach is not kept. Redundant co-located sites are dropped exactly when another site at the same place has a status or type that takes precedence.",
 ["inputs", "configurations"], "all combinations of models, statuses and site types",
 "Tests enable one model at a time on small topologies.",
 [OP + "topology_demand.py", OP + "topology_operations.py"], [("DemandModel classes", "topology_demand.py")])

prop("C21", "The optimizer's decisions become the plan, in a safe order",
 "The optimization pipeline prepares and validates the topology before any model is solved, applies solutions sites first, then sectors, then links, proposing exactly the elements the solution selects (and only elements whose status may change), and marks disconnected parts unreachable before reporting. A missing solution is an optimizer error, never a silently unchanged or partially updated plan.",
 ["inputs", "fault_sequences"], "all solver outcomes and configurations",
 "This module cannot even be imported without the commercial solver, so no test here runs it.",
 [OP + "topology_optimization.py", OP + "topology_preparation.py"], [("optimize_topology / update_topology_with_solution", "topology_optimization.py")])

prop("C22", "Each optimization model contains its documented constraints",
 "Every model the planner builds (minimum cost, maximum coverage, POP proposal, redundancy, interference, flow) contains, for every element the documentation quantifies over, the documented constraint families (flow balance, capacity, site and link selection, time division, polarity, co-location, point-to-multipoint, coverage, budget, adversarial links) with the documented direction and bounds, and defines every decision variable before it is used.",
 ["configurations", "inputs"], "every model, every configuration switch, every element of the topology",
 "No test can build a model without the commercial solver.",
 [ILP + "network_optimization.py", ILP + "site_optimization.py", ILP + "interference_optimization.py", ILP + "redundancy_optimization.py", ILP + "flow_optimization.py", ILP + "pop_proposal_optimization.py", ILP + "cost_optimization.py", ILP + "coverage_optimization.py"],
 [("create_*_constraints", "ilp_models/*")])

prop("C23", "Costs count every purchase once and nothing already built",
 "The cost of a plan is the site cost of every newly proposed site plus the node cost of every newly used node (once per node, however many sectors it has), by site type and device; elements that already exist cost nothing, and the optimizer's budget and objective use the same accounting as the report.",
 ["inputs"], "all mixes of statuses, multi-sector nodes and device types",
 "Tests use one sector per node and no existing sites.",
 [OP + "topology_operations.py", ILP + "site_optimization.py", OP + "topology_report.py"], [("compute_capex", "topology_operations.py")])

prop("C24", "Temporary files and pools are always released",
 "Every temporary directory, open file, archive and worker pool the planner acquires is released on every exit, including exceptions; a workspace's temporary directory is removed when its owner goes away and no owner outlives the call that made it, every path a workspace hands out lies in that directory and is handed out once; setting up logging drops the handlers of before; and the planner only deletes files and directories it created itself.",
 ["fault_sequences", "inputs"], "all exits of the acquiring code",
 "Tests exercise the success path.",
 [IO + "patterns.py", IO + "building_group_loader.py", IO + "utils.py", IO + "kml_library.py", T + "los/core.py"], [("DataWorkSpace", "patterns.py")])

prop("C25", "Bad input is reported as a planner error, never swallowed",
 "Anything wrong with an input file or a config file surfaces as one of the planner's own exceptions (configuration, data, topology, LOS, optimizer): every read of an input file happens under a handler that reports its errors, each validation of rasters, building outlines, antenna and scan patterns and MCS tables rejects exactly the documented faults, whatever the validations recorded is raised before LOS is computed, and no handler in the package swallows an error without raising or recording it (documented fallbacks excepted: a solver model rebuilt from scratch, and a confidence in a KML file that is not a number).",
 ["inputs", "fault_sequences"], "all handlers and raise sites",
 "Tests cover a few malformed files.",
 [T + "common/exceptions.py", IO + "csv_library.py", IO + "kml_library.py", IO + "elevation_loader.py"], [("planner_assert, PlannerException hierarchy", "exceptions.py")])

prop("C26", "Coordinates, units and paired arguments are never mixed up",
 "Wherever latitude and longitude, x and y, transmitter and receiver, or values of different units meet a function, each reaches the parameter of its own kind, everywhere in the package; and the geodesy and link-geometry functions (great-circle distance, bearings, translated points, UTM conversion, geo-hash, angle between two sides, deviations from a sector's boresight, link distance and azimuths) compute what they are named for, in the documented units and sign.",
 ["programs"], "every call site in the package",
 "A swapped pair gives plausible numbers on symmetrical test data.",
 [T + "common/geos.py", TM + "link.py", OP + "topology_preparation.py", T + "los/helper.py"], [("parameter naming convention", "whole package")])

prop("C27", "Imported sites and links keep what the user specified",
 "Every placemark or row of an imported KML, KMZ or CSV file becomes a site or link with the type, position, altitude or height, device, name, building, subscribers and confidence the file gives it. In a KML file the status is that of the last status folder before it and CANDIDATE before any, the type that of its folder; a data field that is empty counts as absent. Links go between the sites named, or between the sites at the same place as, and within 10 m of, the site nearest to each end, and are added in both directions, once, but never from a CN; two links between the same sites with different statuses, unknown names, unknown devices, duplicate names and malformed values are refused. Columns are recognised by any of their names, whatever the case and the spaces around them, and a site without device is offered with every device of its kind.",
 ["inputs"], "all combinations of folders, columns, data fields and missing values",
 "Tests use a few sample files.",
 [IO + "input_sites_loader.py", IO + "utils.py", IO + "input_sites.py", IO + "kml_library.py", IO + "csv_library.py"], [("extract_topology_from_*", "data_io/utils.py"), ("InputSitesLoader.get_input_sites", "data_io/input_sites_loader.py"), ("load_csv_and_validate", "data_io/csv_library.py")])

prop("C28", "Line-of-sight confidence follows the documented geometry",
 "The confidence of a line of sight is the clear share of its Fresnel zone over every raster cell in the footprint of the line and nothing but those cells: in the cylindrical model the smallest distance between the line and a column of terrain (columns beside the ends do not count) divided by the Fresnel radius, in the ellipsoidal model the smallest radius of an ellipsoid through an obstruction divided by the radius of the outer zone; it is 0 as soon as a cell obstructs the zone scaled by the confidence threshold, and 1 without elevation data. Positions convert to raster cells and back consistently, and the raster is never read outside its bounds.",
 ["inputs"], "all terrains, site positions and altitudes, both models, thresholds from 0 to 1",
 "Tests evaluate a few small rasters and cannot show that every cell counts and every term of the formulas has the right sign and axis.",
 [T + "los/cylindrical_los_validator.py", T + "los/ellipsoidal_los_validator.py", T + "los/fresnel_zone.py", T + "los/elevation.py", T + "los/base_los_validator.py"], [("compute_confidence", "validators"), ("FresnelZone", "los/fresnel_zone.py"), ("Elevation.get_all_obstructions, utm_to_idx, idx_to_utm", "los/elevation.py")])

prop("C29", "The solver returns the optimum within the configured gap and time",
 "Each optimization phase returns a solution within the configured relative gap of the optimum, or stops at the configured time limit, and gives the same plan on every run.",
 ["inputs", "configurations"], "all topologies",
 "Depends on the commercial solver.",
 [ILP + "optimization_setup.py"], [("xpress controls", "optimization_setup.py")])

prop("C30", "Every solve runs under the limits of its own phase",
 "Each optimization phase (minimum cost, maximum coverage, maximum common bandwidth, interference, redundancy, POP proposal) solves a model built for it on the network it is given, with the relative gap and the time limit configured for that phase (never another phase's), with the configured number of threads, and sees the demand each site's own model computes. A solution is used only when the solver reports one: a solve that ended without an integer solution yields no plan, the time limit is recognised as such, and a failed solve never passes as a success.",
 ["configurations", "inputs"], "all optimizer parameters and solver outcomes",
 "The solver is absent from the test environment: no test ever executes a phase's solve.",
[ILP + f + ".py" for f in ("optimization_setup", "cost_optimization", "coverage_optimization", "flow_optimization", "interference_optimization", "network_optimization", "pop_proposal_optimization", "redundancy_optimization", "site_optimization")],
 [("OptimizationSetup.create_model", "optimization_setup.py"), ("*.build_model, *.solve", "ilp_models")])

prop("C31", "Elevation rasters keep their georeference and their gaps",
 "A raster read from file keeps its position, resolution and coordinate system: the value at a position is the value of the cell whose centre is nearest to it, and, where that cell has no data, that of the closest valid cell within the search radius (else the average of the valid ones). Resampling, cropping, adding, subtracting and writing keep every value where it was; two rasters are only combined cell by cell on the same grid, after resampling to the finer resolution of the two; a cell without data in either of them has no data in the result; and values within bounds are exactly those of the cells inside the bounds, never of the opposite side of the raster.",
 ["inputs"], "all rasters, positions, bounds, resolutions and patterns of missing data",
 "Tests use a few small rasters, mostly without gaps and already on the same grid.",
 [T + "los/elevation.py", IO + "elevation_loader.py", T + "los/helper.py"], [("Elevation", "los/elevation.py"), ("ElevationLoader.read, write", "data_io/elevation_loader.py")])

prop("C32", "Site detection puts candidates where the building is, at the right height",
 "Candidate sites are detected on every valid building inside the boundary and the selection that is large enough, and on nothing else: at the corners whose angle lies between the limits (the first vertex when there is none), at the centre (or a point inside the polygon when the centroid is not) and at the highest cell on the building, each kind only when it is asked for. Every detected site lies on its building, converted to latitude and longitude in the right zone, at the altitude of the roof plus the mounting height, as a DN or CN candidate tied to its building; drawing the buildings back as a height map puts each at its place with its height.",
 ["inputs"], "all building outlines, rasters and detection parameters",
 "Tests use rectangular buildings on flat rasters.",
 [T + "los/building.py", T + "los/building_group.py", TM + "site.py"], [("Building.detect_*", "los/building.py"), ("BuildingGroup", "los/building_group.py"), ("DetectedSite", "site.py")])

prop("C33", "Every input and every configured parameter reaches the candidate graph",
 "Generating a candidate graph uses every input it is given: the sites of the file and the detected ones, the base topology, the boundary, surface and exclusion zones; each step works on the results of the steps before it, with the parameter configured for it (radius, frequency, distances, elevation deviation, thresholds, model, number of processors) and no other's. Every candidate pair is decided in exactly one batch with the same validator settings, sites out of reach of any POP are dropped only by the documented reachability rule, and additional DNs are picked only where they connect a CN that is not connected.",
 ["inputs", "configurations"], "all LOS parameters and input combinations, any number of processors",
 "Tests run a few configurations; a parameter that is swapped or dropped gives a plausible graph.",
 [T + "los/core.py", T + "los/helper.py", T + "los/base_los_validator.py"], [("generate_candidate_topology", "los/core.py"), ("compute_los, compute_los_batch", "los/core.py, los/helper.py"), ("get_site_connectable_status, select_additional_dns", "los/helper.py")])

prop("C34", "Resilience planning works on the network in use",
 "The most disruptive links are sought only in the network in use: none when it has no active wireless backhaul link or the configured ratio is 0, otherwise, in the order of the demand lost when each is gone, links whose loss (together with those already picked) cuts no demand off the reachable network, in both directions, until that ratio (rounded up) of the active wireless backhaul links is reached. The redundancy pool is exactly what node-disjoint paths use, over reachable distribution sites and links of positive capacity, from each active POP of the base network to each active DN and between active DNs within two steps of the Delaunay triangulation. POP proposal duplicates each DN of the solution as one candidate POP at the same place and of the same device, with equivalent sectors, with links in both directions of the same link budget, serving the demand its DN serves.",
 ["inputs", "configurations"], "all networks, statuses and ratios",
 "The modules concerned need the solver and are never imported by a test.",
 [ILP + "interference_optimization.py", ILP + "redundancy_optimization.py", ILP + "pop_proposal_optimization.py", OP + "topology_operations.py"], [("find_most_disruptive_links", "topology_operations.py"), ("compute_candidate_edges_for_redundancy", "redundancy_optimization.py"), ("add_duplicate_pop_to_dn_site", "pop_proposal_optimization.py")])

prop("C35", "Every result is written where the configuration says",
 "Every table, every metric and every network a plan produces is written, complete and under its documented name, below the configured output directory: results always, intermediate networks and solver problem files only in debug mode and in the debug directory. Every directory is created, with its parents, before something is written to it. The system parameters of the configuration file take effect (the output directory, the debug flag, the log level and log file), and messages of the configured level go where they are configured to, once.",
 ["configurations", "inputs"], "all system parameters and working directories",
 "Tests write into existing temporary directories with the default parameters.",
 [T + "common/utils.py", IO + "topology_serializer.py", T + "optimization/topology_report.py", T + "common/configuration/utils.py"], [("analyze_with_dump, dump_df_to_csv, dump_metrics_to_yaml", "topology_report.py"), ("dump_topology_to_kml", "topology_serializer.py"), ("set_system_control_with_config_file, set_root_logger", "common/utils.py")])
