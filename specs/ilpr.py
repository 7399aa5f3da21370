"""Reference semantics of redundancy, POP proposal and the model set-up (only parsed, never imported)."""
from copy import deepcopy

import xpress as xp

from terragraph_planner.common.configuration.enums import DebugFile, LinkType, PolarityType, SectorType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.structs import GeoPoint
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.constants import DEMAND, DEMAND_SECTOR, IMAGINARY_SECTOR_TYPES, IMAGINARY_SITE_TYPES, SUPERSOURCE, SUPERSOURCE_SECTOR, UNASSIGNED_CHANNEL
from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization
from terragraph_planner.optimization.ilp_models.optimization_setup import OptimizationSetup
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork
from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork, _compute_access_candidate_topology
from terragraph_planner.optimization.ilp_models.site_optimization import SiteOptimization
from terragraph_planner.optimization.structs import OptimizationSolution, RedundancyParams, RedundancySolution
from terragraph_planner.optimization.topology_demand import connect_demand_to_colocated_sites
from terragraph_planner.optimization.topology_operations import mark_unreachable_components
from terragraph_planner.optimization.topology_preparation import validate_topology_status

DIST = {SiteType.POP, SiteType.DN}
INACTIVE = {StatusType.UNAVAILABLE, StatusType.UNREACHABLE}
ACTIVE = {StatusType.EXISTING, StatusType.PROPOSED}


# ------------------------------------------------------------------ redundancy
def r_init(self: RedundantNetwork, topology: Topology, params: OptimizerParams, redundancy_params: RedundancyParams, restricted_links=None):
    own = deepcopy(params)
    own.maximize_common_bandwidth = False
    SiteOptimization.__init__(self, topology, own, set())
    self.dns = [x for x in self.locations if self.location_to_type[x] == SiteType.DN and (x in self.existing_sites or x in self.proposed_sites)]
    keep = set()
    for i, j in self.links:
        if self.link_capacities[i, j] <= 0:
            continue
        if self.location_to_type[i] not in {SiteType.POP, SiteType.DN, SUPERSOURCE} or self.location_to_type[j] not in {SiteType.POP, SiteType.DN, SUPERSOURCE}:
            continue
        if i == SUPERSOURCE or j == SUPERSOURCE or restricted_links is None or (i, j) in restricted_links:
            keep.add((i, j))
    self.restricted_links = keep
    ends = set()
    for i, j in keep:
        ends.add(i)
        ends.add(j)
    self.restricted_sites = ends
    if not set(self.dns).issubset(ends):
        raise OptimizerException("")
    self.problem = None
    self.site_vars = None
    self.odd = None
    self.flow = None
    self.shortage = None
    self.pop_node_capacity = redundancy_params.pop_node_capacity
    self.dn_node_capacity = redundancy_params.dn_node_capacity
    self.sink_node_capacity = redundancy_params.sink_node_capacity


def r_skeleton(self: RedundantNetwork, shortage_decisions: bool):
    self.create_model(rel_stop=self.params.redundancy_rel_stop, max_time=self.params.redundancy_max_time)
    self.create_site_decisions()
    self.create_polarity_decisions()
    self.create_flow_decisions()
    if shortage_decisions:
        self.create_shortage_decisions()
    self.create_decided_site_constraints()
    self.create_inactive_link_flow_constraints()
    self.create_colocated_site_relationship()
    self.create_flow_site_relationship()
    self.create_flow_balance_with_shortage()
    self.create_flow_polarity_constraints()


def r_sites(self: RedundantNetwork):
    d = {}
    for loc in self.locations:
        if self.location_to_type[loc] not in IMAGINARY_SITE_TYPES and loc in self.restricted_sites:
            d[loc] = xp.var(vartype=xp.binary)
    self.site_vars = d
    self.problem.addVariable(d)


def r_polarity(self: RedundantNetwork):
    if not self.params.ignore_polarities:
        d = {loc: xp.var(vartype=xp.binary) for loc in self.locations if self.location_to_type[loc] in DIST and loc in self.restricted_sites}
        self.odd = d
        self.problem.addVariable(d)


def r_flow(self: RedundantNetwork):
    d = {}
    for dn in self.dns:
        for i, j in self.links:
            if (i, j) in self.restricted_links:
                d[i, j, dn] = xp.var(ub=self.pop_node_capacity if SUPERSOURCE in (i, j) else 1)
    self.flow = d
    self.problem.addVariable(d)


def r_shortage(self: RedundantNetwork):
    d = {dn: xp.var(ub=self.sink_node_capacity) for dn in self.dns}
    self.shortage = d
    self.problem.addVariable(d)


def r_decided(self: RedundantNetwork):
    for loc in self.locations:
        if loc in self.restricted_sites:
            if loc in self.existing_sites or loc in self.proposed_sites:
                self.problem.addConstraint(self.site_vars[loc] == 1)
            elif loc in self.inactive_sites or self.location_to_type[loc] == SiteType.POP:
                self.problem.addConstraint(self.site_vars[loc] == 0)


def r_inactive(self: RedundantNetwork):
    for i, j in self.links:
        if (i, j) in self.inactive_links and (i, j) in self.restricted_links:
            for dn in self.dns:
                self.problem.addConstraint(self.flow[i, j, dn] == 0)


def r_colocated(self: RedundantNetwork):
    for group in self.colocated_locations.values():
        dist = [x for x in group if x in self.site_vars and self.location_to_type[x] in DIST]
        if dist:
            self.problem.addConstraint(xp.Sum(self.site_vars[x] for x in dist) <= 1)


def r_flow_site(self: RedundantNetwork):
    for loc in self.locations:
        if loc in self.restricted_sites:
            for dn in self.dns:
                inc = [self.flow[i, j, dn] for i, j in set(self.incoming_links[loc]) if (i, j) in self.restricted_links]
                if not inc:
                    continue
                if self.location_to_type[loc] == SiteType.POP:
                    self.problem.addConstraint(xp.Sum(inc) <= self.pop_node_capacity * self.site_vars[loc])
                elif loc == dn:
                    self.problem.addConstraint(xp.Sum(inc) <= self.sink_node_capacity * self.site_vars[loc])
                else:
                    self.problem.addConstraint(xp.Sum(inc) <= self.dn_node_capacity * self.site_vars[loc])


def r_balance(self: RedundantNetwork):
    for loc in self.locations:
        if loc in self.restricted_sites:
            for dn in self.dns:
                inc = [self.flow[i, j, dn] for i, j in set(self.incoming_links[loc]) if (i, j) in self.restricted_links]
                out = [self.flow[i, j, dn] for i, j in set(self.outgoing_links[loc]) if (i, j) in self.restricted_links]
                if not inc and not out:
                    continue
                net = (xp.Sum(inc) if inc else 0) - (xp.Sum(out) if out else 0)
                if loc == SUPERSOURCE:
                    self.problem.addConstraint(net >= self.shortage[dn] - self.sink_node_capacity)
                elif loc == dn:
                    self.problem.addConstraint(net >= self.sink_node_capacity - self.shortage[dn])
                else:
                    self.problem.addConstraint(net == 0)


def r_flow_polarity(self: RedundantNetwork):
    if self.params.ignore_polarities:
        return
    for i, j in self.links:
        if (i, j) in self.restricted_links and (i, j) not in self.wired_links:
            if (i, j) in self.existing_links or (i, j) in self.proposed_links:
                self.problem.addConstraint(self.odd[i] == 1 - self.odd[j])
            else:
                for dn in self.dns:
                    self.problem.addConstraint(self.flow[i, j, dn] <= self.odd[i] + self.odd[j])
                    self.problem.addConstraint(self.flow[i, j, dn] <= 2 - self.odd[i] - self.odd[j])


def r_cost(self: RedundantNetwork):
    cost = 0
    for loc in self.locations:
        if loc in self.restricted_sites and self.location_to_type[loc] not in IMAGINARY_SITE_TYPES and loc not in self.existing_sites:
            cost += self.cost_site[self.location_to_type[loc]] * self.site_vars[loc]
            for s in self.location_sectors[loc]:
                if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES:
                    cost += self.cost_sector[loc][s] * self.site_vars[loc]
    self.problem.setObjective(cost, sense=xp.minimize)


def r_shortage_objective(self: RedundantNetwork):
    self.problem.setObjective(xp.Sum(self.shortage), sense=xp.minimize)


def r_shortage_solve(self: RedundantNetwork):
    self.setup_problem_skeleton(shortage_decisions=True)
    self.create_shortage_objective()
    self.dump_problem_file_for_debug_mode(DebugFile.REDUNDANT_MIN_SHORTAGE_OPTIMIZATION)
    self.problem.solve()
    if self.problem.attributes.mipsols > 0:
        self.shortage = self._extract_flat_dictionary(self.problem.getSolution(), self.shortage, binary=False)
    else:
        self.shortage = None


def r_solve(self: RedundantNetwork):
    self.shortage_solve()
    if self.shortage is None:
        return None
    self.problem.reset()
    self.setup_problem_skeleton(shortage_decisions=False)
    self.create_cost_objective()
    self.dump_problem_file_for_debug_mode(DebugFile.REDUNDANT_MIN_COST_OPTIMIZATION)
    self.problem.solve()
    return self.extract_redundancy_solution()


def r_extract(self: RedundantNetwork):
    if self.problem.attributes.mipsols == 0:
        return None
    values = self.problem.getSolution()
    sites = self._extract_flat_dictionary(values, self.site_vars)
    given = self.proposed_sites | self.existing_sites
    for i, j in self.proposed_links | self.existing_links:
        given.add(i)
        given.add(j)
    for loc in self.locations:
        if self.location_to_type[loc] in IMAGINARY_SITE_TYPES:
            continue
        if self.location_to_type[loc] == SiteType.CN:
            if loc not in given:
                sites[loc] = 0
                continue
            place = self.location_to_geoloc[loc]
            if len(self.colocated_locations.get(place, [])) <= 1:
                sites[loc] = 1
            else:
                upgraded = any(self.location_to_type[x] in DIST and x in sites and sites[x] == 1 for x in self.colocated_locations[place])
                sites[loc] = 0 if upgraded else 1
        elif self.location_to_type[loc] in DIST and loc not in sites:
            sites[loc] = 1 if loc in given else 0
    odd = {}
    if not self.params.ignore_polarities:
        odd = self._extract_flat_dictionary(values, self.odd)
        for loc in self.locations:
            if self.location_to_type[loc] in DIST and loc not in odd:
                odd[loc] = 1 if sites[loc] == 1 and loc in self.site_polarities[PolarityType.ODD] else 0
    even = {}
    for loc, decision in odd.items():
        if sites[loc] == 0:
            odd[loc] = 0
            even[loc] = 0
        else:
            even[loc] = 1 - decision
    flow = self._extract_flat_dictionary(values, self.flow, binary=False)
    sectors = self.get_sector_decisions_from_sites(sites)
    links = self.get_link_decisions_from_sectors_and_polarity(sites, None if self.params.ignore_polarities else odd, sectors)
    return RedundancySolution(
        site_decisions=sites, sector_decisions=sectors, link_decisions=links, odd_site_decisions=odd, even_site_decisions=even,
        channel_decisions={k: 0 if v == 1 else UNASSIGNED_CHANNEL for k, v in sectors.items()},
        flow_decisions=flow, shortage_decisions=self.shortage, objective_value=self.problem.getObjVal(), cost=self._extract_cost(sites, sectors))


# ------------------------------------------------------------------ POP proposal
def p_init(self: POPProposalNetwork, topology: Topology, params: OptimizerParams):
    self.input_topology = topology
    own = deepcopy(params)
    own.ignore_polarities = True
    own.always_active_pops = False
    own.maximize_common_bandwidth = False
    SiteOptimization.__init__(self, _compute_access_candidate_topology(topology), own, set())


def p_access(topology: Topology):
    t = deepcopy(topology)
    stay = set()
    for group in t.get_colocated_sites().values():
        if any(t.sites[s].site_type == SiteType.POP for s in group):
            for s in group:
                if t.sites[s].site_type == SiteType.DN:
                    stay.add(s)
    for site in t.sites.values():
        if site.site_type == SiteType.DN and site.site_id not in stay:
            site._site_type = SiteType.POP
    gone = []
    for link in t.links.values():
        if t.sites[link.rx_site.site_id].site_type != SiteType.CN:
            gone.append(link.link_id)
    for x in gone:
        t.remove_link(x)
    mark_unreachable_components(t, maximum_hops=None)
    return t


def p_constraint(self: POPProposalNetwork):
    given = 0
    for s in self.input_topology.sites.values():
        if s.site_type == SiteType.POP and s.status_type not in INACTIVE:
            given += 1
    candidates = 0
    for s in self.topology.sites.values():
        if s.site_type == SiteType.POP and s.status_type not in INACTIVE:
            candidates += 1
    n = min(candidates, given + self.params.number_of_extra_pops)
    if n != 0:
        self.problem.addConstraint(xp.Sum(self.site_vars[x] for x in self.locations if self.location_to_type[x] == SiteType.POP) == n)
    return None


def p_model(self: POPProposalNetwork):
    self.create_pop_constraint()
    self.create_coverage_objective()


def p_solve(self: POPProposalNetwork):
    for s in self.input_topology.sites.values():
        if s.site_type == SiteType.POP and s.status_type not in INACTIVE:
            self.proposed_sites.add(s.site_id)
            if s.status_type != StatusType.EXISTING:
                self.topology.sites[s.site_id].status_type = StatusType.PROPOSED
    self.set_up_problem_skeleton(rel_stop=self.params.pop_proposal_rel_stop, max_time=self.params.pop_proposal_max_time)
    self.add_pop_constraint_coverage_objective()
    self.dump_problem_file_for_debug_mode(DebugFile.POP_PROPOSAL_OPTIMIZATION)
    self.problem.solve()
    return self.extract_solution()


# ------------------------------------------------------------------ set-up
def o_init(self: OptimizationSetup, topology: Topology, params: OptimizerParams):
    self.topology = topology
    validate_topology_status(topology)
    self.params = deepcopy(params)
    self.cost_site = {SiteType.POP: params.pop_site_capex, SiteType.DN: params.dn_site_capex, SiteType.CN: params.cn_site_capex}
    self.extract_fixed_inputs()
    self.set_up_topology_input()
    self.create_links()


def o_fixed(self: OptimizationSetup):
    t = self.topology
    self.existing_sites = t.get_site_ids(status_filter={StatusType.EXISTING})
    self.proposed_sites = t.get_site_ids(status_filter={StatusType.PROPOSED})
    self.inactive_sites = t.get_site_ids(status_filter=INACTIVE)
    self.existing_links = t.get_link_site_id_pairs({StatusType.EXISTING})
    self.proposed_links = t.get_link_site_id_pairs({StatusType.PROPOSED})
    self.inactive_links = t.get_link_site_id_pairs(INACTIVE) | t.get_sectorless_links()
    self.proposed_sectors = t.get_sector_ids(status_filter={StatusType.PROPOSED})
    self.site_polarities = t.get_site_polarities()


def o_wired(self: OptimizationSetup):
    wired = []
    for link in self.topology.links.values():
        if link.link_type == LinkType.ETHERNET:
            wired.append((link.tx_site.site_id, link.rx_site.site_id))
    for link in self.outgoing_links[SUPERSOURCE]:
        wired.append(link)
    for loc in self.locations:
        if self.location_to_type[loc] == DEMAND:
            for link in self.incoming_links[loc]:
                wired.append(link)
    return wired


def n_init(self: NetworkOptimization, topology: Topology, params: OptimizerParams):
    OptimizationSetup.__init__(self, topology, params)
    self.check_pop_feasibility(topology)
    self.check_demand_feasibility(topology)
    self.max_throughput = sum(self.demand_at_location[x] for x in self.locations if self.location_to_type[x] == DEMAND)
    self.number_of_channels = self.params.number_of_channels
    self.problem = None
    self.site_vars = None
    self.sector_vars = None
    self.flow = None
    self.tdm = None
    self.odd = None
    self.shortage = None
    self.common_bandwidth = None
    self.connected_demand_sites = None
    self.coverage_constraint = None
    self.coverage_obj = None
    self.demand_vars = None
    self.ignore_links = set()
    self.ignore_sites = set()


def o_links(self: OptimizationSetup):
    self.links = list(self.link_capacities.keys())
    inc = {}
    out = {}
    for loc in self.locations:
        inc[loc] = []
        out[loc] = []
    for i, j in self.links:
        inc[j].append((i, j))
        out[i].append((i, j))
    self.incoming_links = inc
    self.outgoing_links = out
    self.wired_links = self._get_wired_links()


def o_input(self: OptimizationSetup):
    t = self.topology
    self.location_to_type = {}
    self.location_to_geoloc = {}
    self.type_sets = {k: set() for k in set(SiteType) | {DEMAND, SUPERSOURCE}}
    self.locations = []
    self.location_sectors = {}
    self.sector_to_type = {}
    self.demand_at_location = {}
    self.cost_sector = {}
    self.link_to_sectors = {}
    self.link_to_azimuth = {}
    self.link_capacities = {}
    self.sku_location = {}
    self.link_weights = {}
    longest = 1.0
    if len(t.links) > 0:
        longest = max(link.distance for link in t.links.values())

    self.locations.append(SUPERSOURCE)
    self.location_to_type[SUPERSOURCE] = SUPERSOURCE
    self.sku_location[SUPERSOURCE] = ""
    self.type_sets[SUPERSOURCE].add(SUPERSOURCE)

    for k, site in t.sites.items():
        self.locations.append(k)
        self.location_to_type[k] = site.site_type
        self.location_to_geoloc[k] = GeoPoint(site.longitude, site.latitude, site.altitude)
        self.type_sets[site.site_type].add(k)
        self.demand_at_location[k] = 0
        self.sku_location[k] = site.device.device_sku
        if site.site_type == SiteType.POP:
            self.link_to_sectors[SUPERSOURCE, k] = (None, k + "_super")
            self.link_to_azimuth[SUPERSOURCE, k] = (None, None)
            self.link_capacities[SUPERSOURCE, k] = self.params.pop_capacity
            self.link_weights[SUPERSOURCE, k] = 1 if longest == 0 else 1 + (longest - longest) / longest
            self.location_sectors.setdefault(k, []).append(k + "_super")
            self.sector_to_type[k + "_super"] = SUPERSOURCE_SECTOR

    self.colocated_locations = t.get_colocated_sites()

    seen = set()
    for k, sector in t.sectors.items():
        loc = sector.site.site_id
        self.location_sectors.setdefault(loc, []).append(k)
        self.sector_to_type[k] = sector.sector_type
        self.cost_sector.setdefault(loc, {})[k] = 0 if (loc, sector.node_id) in seen else sector.node_capex
        seen.add((loc, sector.node_id))

    most = max(link.capacity for link in t.links.values()) if len(t.links) > 0 else self.params.pop_capacity
    for d, site in t.demand_sites.items():
        if site.demand is None or site.demand < 0:
            raise OptimizerException("")
        if site.num_sites < 1:
            raise OptimizerException("")
        for n in range(site.num_sites):
            k = d if n == 0 else d + "_" + str(n)
            self.demand_at_location[k] = site.demand / self.params.oversubscription
            self.locations.append(k)
            self.location_to_type[k] = DEMAND
            self.sku_location[k] = ""
            self.type_sets[DEMAND].add(k)
            for s in site.connected_sites:
                i = s.site_id
                self.link_capacities[i, k] = most
                self.link_weights[i, k] = 1 if longest == 0 else 1 + (longest - longest) / longest
                self.link_to_sectors[i, k] = (i + "_demand", None)
                self.link_to_azimuth[i, k] = (None, None)
                self.location_sectors.setdefault(i, []).append(i + "_demand")
                self.sector_to_type[i + "_demand"] = DEMAND_SECTOR

    for link in t.links.values():
        i = link.tx_site.site_id
        j = link.rx_site.site_id
        if i == j:
            raise OptimizerException("")
        if (link.tx_sector is None) != (link.rx_sector is None):
            raise OptimizerException("")
        self.link_capacities[i, j] = link.capacity
        if link.tx_sector is not None:
            self.link_weights[i, j] = 1 if longest == 0 else 1 + (longest - link.distance) / longest
        else:
            self.link_weights[i, j] = 1
        self.link_to_sectors[i, j] = (link.tx_sector.sector_id if link.tx_sector is not None else None, link.rx_sector.sector_id if link.rx_sector is not None else None)
        self.link_to_azimuth[i, j] = (link.tx_beam_azimuth, link.rx_beam_azimuth)
    for loc in self.locations:
        if loc not in self.location_sectors:
            self.location_sectors[loc] = []
