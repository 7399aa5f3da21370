"""Reference semantics of site, cost, coverage and flow optimization (only parsed)."""
import math

import xpress as xp

from terragraph_planner.common.configuration.enums import SiteType, StatusType, DebugFile
from terragraph_planner.common.exceptions import OptimizerException, planner_assert
from terragraph_planner.optimization.constants import DEMAND, EPSILON, IMAGINARY_SECTOR_TYPES, IMAGINARY_SITE_TYPES, SUPERSOURCE, UNASSIGNED_CHANNEL
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
from terragraph_planner.optimization.ilp_models.flow_optimization import MaxFlowNetwork
from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization
from terragraph_planner.optimization.ilp_models.site_optimization import SiteOptimization
from terragraph_planner.optimization.structs import FlowSolution, OptimizationSolution
from terragraph_planner.optimization.topology_operations import compute_max_pop_capacity_of_topology


def s_init(self: SiteOptimization, topology, params, adversarial_links):
    NetworkOptimization.__init__(self, topology, params)
    self.number_of_channels = 1
    self.adversarial_links = adversarial_links
    if self.params.maximize_common_bandwidth:
        self.connected_demand_sites = self._compute_connectable_demand_sites()


def connectable(self: SiteOptimization):
    found = None
    if not self.params.ignore_polarities:
        found = self._get_reachable_demand_sites_with_constraints()
    if found is None:
        return self._get_reachable_demand_sites_without_constraints()
    return found


def s_ignore_links(self: SiteOptimization):
    out = NetworkOptimization._get_ignore_links(self)
    for link in self.links:
        if link in self.adversarial_links:
            out.add(link)
    return out


def s_ignore_sites(self: SiteOptimization):
    out = set()
    given = self.proposed_sites | self.existing_sites
    for locs in self.colocated_locations.values():
        here = given.intersection(set(locs))
        if len(here) == 0:
            continue
        top = SiteType.CN
        for loc in here:
            if self.location_to_type[loc] == SiteType.POP:
                top = SiteType.POP
            elif self.location_to_type[loc] == SiteType.DN and top != SiteType.POP:
                top = SiteType.DN
        for loc in locs:
            t = self.location_to_type[loc]
            ok = t in {SiteType.CN, SiteType.DN, SiteType.POP} if top == SiteType.CN else t == SiteType.DN if top == SiteType.DN else t == SiteType.POP
            if not ok or t == top and loc not in given:
                out.add(loc)
    return out


def s_sector_decisions(self: SiteOptimization):
    d = {}
    for loc in self.location_sectors:
        for s in self.location_sectors[loc]:
            if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES:
                d[loc, s, 0] = self.site_vars[loc]
    self.sector_vars = d


def adversarial_flow(self: SiteOptimization):
    for link in self.links:
        if link in self.adversarial_links:
            self.problem.addConstraint(self.flow[link] == 0)


def compatible(self: SiteOptimization, loc1: str, loc2: str, odd_site_decisions):
    if (loc1, loc2) in self.existing_links or (loc1, loc2) in self.proposed_links or (loc1, loc2) in self.wired_links:
        return True
    if self.location_to_type[loc1] in {SiteType.POP, SiteType.DN} and self.location_to_type[loc2] in {SiteType.POP, SiteType.DN}:
        return odd_site_decisions.get(loc1, 0) != odd_site_decisions.get(loc2, 0)
    return True


def sectors_from_sites(self: SiteOptimization, site_decisions):
    return {(loc, s): site_decisions[loc] for loc in self.locations if self.location_to_type[loc] not in IMAGINARY_SITE_TYPES for s in self.location_sectors[loc] if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES}


def link_decisions(self: SiteOptimization, site_decisions, odd_site_decisions, sector_decisions):
    out = {link: 0 for link in self.links}
    for link in self.links:
        i, j = link
        if self.location_to_type[i] in IMAGINARY_SITE_TYPES or self.location_to_type[j] in IMAGINARY_SITE_TYPES:
            continue
        if link in self.inactive_links or self.link_capacities[link] <= 0:
            continue
        if odd_site_decisions is not None and not self._compatible_polarity(i, j, odd_site_decisions):
            continue
        if site_decisions[i] != 1 or site_decisions[j] != 1:
            continue
        if link in self.wired_links:
            out[link] = 1
            continue
        tx, rx = self.link_to_sectors.get(link, (None, None))
        planner_assert(tx is not None and rx is not None, "sector", OptimizerException)
        out[link] = 1 if sector_decisions.get((i, tx), 0) + sector_decisions.get((j, rx), 0) == 2 else 0
    return out


def s_extract(self: SiteOptimization):
    if self.problem.attributes.mipsols <= 0:
        return None
    polar = not self.params.ignore_polarities
    x = self.problem.getSolution()
    site = self._extract_flat_dictionary(x, self.site_vars)
    odd = self._extract_flat_dictionary(x, self.odd) if polar else {}
    even = {}
    for loc, d in odd.items():
        if site[loc] == 0:
            odd[loc] = 0
            even[loc] = 0
        else:
            even[loc] = 1 - d
    flow = self.prune_loops(self._extract_flat_dictionary(x, self.flow, binary=False))
    if math.isclose(sum(flow.values()), 0, abs_tol=EPSILON):
        planner_assert(self.common_bandwidth is None or x[self.problem.getIndex(self.common_bandwidth)] == 0, "flow", OptimizerException)
        return None
    forced = set(self.proposed_sites) | set(self.existing_sites)
    for i, j in self.proposed_links | self.existing_links:
        forced.add(i)
        forced.add(j)
    for loc in self.locations:
        if self.location_to_type[loc] in IMAGINARY_SITE_TYPES or site[loc] == 0 or loc in forced:
            continue
        if math.isclose(sum(flow[k] for k in self.incoming_links[loc]), 0, abs_tol=EPSILON) and math.isclose(sum(flow[k] for k in self.outgoing_links[loc]), 0, abs_tol=EPSILON):
            site[loc] = 0
            if polar:
                even[loc] = 0
                odd[loc] = 0
    sector = self.get_sector_decisions_from_sites(site)
    channel = {k: 0 if d == 1 else UNASSIGNED_CHANNEL for k, d in sector.items()}
    link = self.get_link_decisions_from_sectors_and_polarity(site, odd if polar else None, sector)
    with_links = self.get_sectors_with_active_links(link)
    linked = self.get_sites_with_active_links(link)
    for i, j in self.links:
        if self.location_to_type[j] == DEMAND and site[i] == 1:
            linked.add(i)
    for loc in self.locations:
        if self.location_to_type[loc] in IMAGINARY_SITE_TYPES:
            continue
        if loc not in linked:
            site[loc] = 0
            if polar:
                odd[loc] = 0
                even[loc] = 0
        for s in self.location_sectors[loc]:
            if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES and s not in with_links.get(loc, set()):
                sector[(loc, s)] = 0
    tdm_channel = self._extract_flat_dictionary(x, self.tdm, binary=False)
    tdm = {}
    for (i, j, c), d in tdm_channel.items():
        planner_assert(c == 0, "channel", OptimizerException)
        tdm[(i, j)] = d
    shortage = self._extract_flat_dictionary(x, self.shortage, binary=False)
    return OptimizationSolution(site_decisions=site, sector_decisions=sector, link_decisions=link, odd_site_decisions=odd, even_site_decisions=even, channel_decisions=channel,
                                tdm_decisions=tdm, flow_decisions=flow, shortage_decisions=shortage, objective_value=self.problem.getObjVal(), cost=self._extract_cost(site, sector))


def s_skeleton(self: SiteOptimization, rel_stop: float, max_time: float):
    self.create_model(rel_stop=rel_stop, max_time=max_time)
    self.create_site_decisions()
    self.create_sector_decisions()
    self.create_flow_decisions()
    self.create_tdm_decisions()
    self.create_shortage_decisions()
    self.create_polarity_decisions()
    self.create_colocated_site_relationship()
    self.create_tdm_flow_relationship()
    self.create_tdm_sector_relationship()
    self.create_pop_load_constraints()
    self.create_flow_balance_with_shortage()
    self.create_flow_site_relationship()
    self.create_adversarial_restrictions()
    self.create_tdm_polarity_relationship()
    self.create_decided_site_constraints()
    self.create_active_link_polarity_constraints()
    self.create_inactive_link_flow_constraints()


def s_demand_model(self: SiteOptimization):
    self.create_connected_demand_model(max_time=self.params.demand_site_max_time)
    self.create_unit_flow_decisions()
    self.create_polarity_decisions()
    self.create_demand_site_decisions()
    self.create_ignore_link_flow_constraints()
    self.create_tdm_polarity_relationship()
    self.create_active_link_polarity_constraints()
    self.create_unit_flow_balance_constraints()
    self.create_demand_site_objective()


def s_unit_flow(self: SiteOptimization):
    NetworkOptimization.create_unit_flow_decisions(self)
    self.tdm = {(i, j, 0): self.flow[(i, j)] for (i, j) in self.flow}


def s_reset(self: SiteOptimization):
    self.problem.reset()
    self.site_vars = None
    self.flow = None
    self.tdm = None
    self.odd = None
    self.demand_vars = None


def s_cost_cov(self: SiteOptimization):
    self.create_cost_constraint()
    self.create_coverage_objective()


def s_cov_cost(self: SiteOptimization):
    self.create_coverage_constraint()
    self.create_cost_objective()


# ------------------------------------------------------------------ minimum cost
def c_build(self: MinCostNetwork):
    self.set_up_problem_skeleton(rel_stop=self.params.min_cost_rel_stop, max_time=self.params.min_cost_max_time)
    self.add_coverage_constraint_cost_objective()
    self.model_built = True


def c_solve(self: MinCostNetwork, coverage_percentage: float):
    self.params.coverage_percentage = coverage_percentage
    limit = compute_max_pop_capacity_of_topology(topology=self.topology, pop_capacity=self.params.pop_capacity, status_filter=StatusType.reachable_status())
    if limit < self.max_throughput * coverage_percentage:
        return None
    if not self.model_built:
        self.build_model()
    else:
        try:
            if self.coverage_constraint is not None:
                self.problem.delConstraint(self.coverage_constraint)
                self.create_coverage_constraint()
        except Exception:
            self.problem.reset()
            self.build_model()
    self.dump_problem_file_for_debug_mode(DebugFile.COST_OPTIMIZATION)
    self.problem.solve()
    return self.extract_solution()


# ------------------------------------------------------------------ maximum coverage
def v_build(self: MaxCoverageNetwork):
    self.set_up_problem_skeleton(rel_stop=self.params.max_coverage_rel_stop, max_time=self.params.max_coverage_max_time)
    self.add_cost_constraint_coverage_objective()


def v_solve(self: MaxCoverageNetwork):
    if self.params.budget <= 0:
        return None
    self.build_model()
    self.dump_problem_file_for_debug_mode(DebugFile.COVERAGE_OPTIMIZATION)
    self.problem.solve()
    return self.extract_solution()


# ------------------------------------------------------------------ maximum flow
NO_SOLUTION = {0, 2, 5, 7, 8}


def f_init(self: MaxFlowNetwork, topology, params):
    NetworkOptimization.__init__(self, topology, params)
    self.number_of_channels = 1
    self.inactive_sites.update(self.topology.get_site_ids(status_filter={StatusType.CANDIDATE}))
    self.inactive_links.update(self.topology.get_link_site_id_pairs(status_filter={StatusType.CANDIDATE}))
    self.max_throughput = len(self.type_sets[SiteType.POP]) * self.params.pop_capacity
    self.connected_demand_sites = self._get_reachable_demand_sites_without_constraints(status_filter=StatusType.active_status())
    self.buffer_var = None
    for link in self.topology.links.values():
        self.link_capacities[(link.tx_site.site_id, link.rx_site.site_id)] = 0 if link.is_redundant else link.capacity


def f_ignore_links(self: MaxFlowNetwork):
    out = NetworkOptimization._get_ignore_links(self)
    for link in self.topology.links.values():
        if link.is_redundant:
            out.add((link.tx_site.site_id, link.rx_site.site_id))
    return out


def f_skeleton(self: MaxFlowNetwork):
    self.create_model(rel_stop=-1, max_time=60)
    self.create_site_decisions()
    self.create_sector_decisions()
    self.create_flow_decisions()
    self.create_tdm_decisions()
    self.create_tdm_sector_relationship()
    self.create_tdm_flow_relationship()
    self.create_flow_site_relationship()
    self.create_inactive_link_flow_constraints()
    self.create_pop_load_constraints()
    self.create_buffer_var()
    self.create_flow_balance_with_buffer()
    self.create_maximum_buffer_objective()


def f_sites(self: MaxFlowNetwork):
    on = {}
    for loc in self.locations:
        if self.location_to_type[loc] not in IMAGINARY_SITE_TYPES:
            on[loc] = 1 if loc in self.proposed_sites or loc in self.existing_sites else 0
    self.site_vars = on


def f_sectors(self: MaxFlowNetwork):
    on = {}
    for loc in self.locations:
        for s in self.location_sectors[loc]:
            if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES:
                on[loc, s, 0] = 1 if s in self.proposed_sectors.get(loc, set()) else 0
    self.sector_vars = on


def f_buffer(self: MaxFlowNetwork):
    self.buffer_var = xp.var(lb=0)
    self.problem.addVariable(self.buffer_var)


def f_objective(self: MaxFlowNetwork):
    self.problem.setObjective(self.buffer_var, sense=xp.maximize)


def f_balance(self: MaxFlowNetwork):
    for loc in self.locations:
        if not self.incoming_links[loc] and not self.outgoing_links[loc]:
            continue
        net = xp.Sum(self.flow[k] for k in self.incoming_links[loc]) - xp.Sum(self.flow[k] for k in self.outgoing_links[loc])
        if self.location_to_type[loc] == DEMAND:
            if loc in self.connected_demand_sites:
                self.problem.addConstraint(net == self.buffer_var)
            else:
                self.problem.addConstraint(net == 0)
        elif self.location_to_type[loc] == SUPERSOURCE:
            self.problem.addConstraint(net <= 0)
        else:
            self.problem.addConstraint(net == 0)


def f_extract(self: MaxFlowNetwork):
    if self.problem.attributes.lpstatus in NO_SOLUTION:
        return None
    x = self.problem.getSolution()
    flow = self.prune_loops(self._extract_flat_dictionary(x, self.flow, binary=False))
    tdm = {}
    for (i, j, c), d in self._extract_flat_dictionary(x, self.tdm, binary=False).items():
        planner_assert(c == 0, "channel", OptimizerException)
        tdm[(i, j)] = d
    return FlowSolution(flow_decisions=flow, tdm_decisions=tdm, buffer_decision=x[self.problem.getIndex(self.buffer_var)], connected_demand_sites=self.connected_demand_sites)


def f_solve(self: MaxFlowNetwork):
    self.set_up_problem_skeleton()
    self.dump_problem_file_for_debug_mode(DebugFile.COMMON_BUFFER_OPTIMIZATION)
    self.problem.solve()
    return self.extract_flow_solution()


def c_init(self: MinCostNetwork, topology, params):
    SiteOptimization.__init__(self, topology, params, set())
    self.model_built = False


def v_init(self: MaxCoverageNetwork, topology, params, adversarial_links):
    SiteOptimization.__init__(self, topology, params, adversarial_links)
