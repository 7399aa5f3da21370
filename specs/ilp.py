"""Reference semantics of the optimization models (only parsed, never imported)."""
from itertools import combinations

import xpress as xp

from terragraph_planner.common.configuration.enums import SectorType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.constants import DEMAND, EPSILON, IMAGINARY_SECTOR_TYPES, IMAGINARY_SITE_TYPES, SUPERSOURCE
from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization
from terragraph_planner.optimization.topology_operations import get_reachable_demand_sites

REAL = {SiteType.POP, SiteType.DN, SiteType.CN}


# ------------------------------------------------------------------ decisions
def site_decisions(self: NetworkOptimization):
    d = {}
    for loc in self.locations:
        if self.location_to_type[loc] in IMAGINARY_SITE_TYPES:
            continue
        d[loc] = xp.var(vartype=xp.binary)
    self.site_vars = d
    self.problem.addVariable(d)


def flow_decisions(self: NetworkOptimization):
    d = {link: xp.var() for link in self.links}
    self.flow = d
    self.problem.addVariable(d)


def tdm_decisions(self: NetworkOptimization):
    d = {}
    for i, j in self.links:
        if self.location_to_type[i] in IMAGINARY_SITE_TYPES or self.location_to_type[j] in IMAGINARY_SITE_TYPES or (i, j) in self.wired_links:
            continue
        for c in range(self.number_of_channels):
            d[i, j, c] = xp.var(lb=0, ub=1)
    self.tdm = d
    self.problem.addVariable(d)


def polarity_decisions(self: NetworkOptimization):
    if not self.params.ignore_polarities:
        d = {loc: xp.var(vartype=xp.binary) for loc in self.locations if self.location_to_type[loc] in {SiteType.POP, SiteType.DN}}
        self.odd = d
        self.problem.addVariable(d)


def shortage_decisions(self: NetworkOptimization):
    d = {loc: xp.var(ub=self.demand_at_location[loc]) for loc in self.locations if self.location_to_type[loc] == DEMAND}
    self.shortage = d
    self.problem.addVariable(d)


def sector_decisions(self: NetworkOptimization):
    d = {}
    for loc, sectors in self.location_sectors.items():
        for s in sectors:
            if self.sector_to_type[s] in IMAGINARY_SECTOR_TYPES:
                continue
            for c in range(self.number_of_channels if self.sector_to_type[s] == SectorType.DN else 1):
                d[loc, s, c] = xp.var(vartype=xp.binary)
    self.sector_vars = d
    self.problem.addVariable(d)


# ------------------------------------------------------------------ sectors
def sector_channel(self: NetworkOptimization):
    if self.number_of_channels == 1:
        return
    for loc in self.location_sectors:
        for s in self.location_sectors[loc]:
            if self.sector_to_type[s] == SectorType.DN and self.number_of_channels > 1:
                self.problem.addConstraint(xp.Sum(self.sector_vars[loc, s, c] for c in range(self.number_of_channels)) <= 1)


def sector_active(self: NetworkOptimization, loc: str, s: str):
    """The sector is on, on whichever channel."""
    return xp.Sum(self.sector_vars[loc, s, c] for c in range(self.number_of_channels) if (loc, s, c) in self.sector_vars)


def always_active_sector(self: NetworkOptimization):
    for loc in self.locations:
        if loc in self.proposed_sectors:
            for s in self.proposed_sectors[loc]:
                self.problem.addConstraint(sector_active(self, loc, s) == 1)


def sector_site(self: NetworkOptimization):
    for loc in self.locations:
        for s in self.location_sectors[loc]:
            if self.location_to_type[loc] not in IMAGINARY_SITE_TYPES and self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES:
                self.problem.addConstraint(self.site_vars[loc] - sector_active(self, loc, s) >= 0)


def same_node(self: NetworkOptimization):
    nodes = {}
    for loc in self.locations:
        for s in self.location_sectors[loc]:
            if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES and (loc, s, 0) in self.sector_vars:
                nodes.setdefault((loc, self.topology.sectors[s].node_id), []).append((loc, s))
    for group in nodes.values():
        for (l1, s1), (l2, s2) in combinations(group, 2):
            self.problem.addConstraint(sector_active(self, l1, s1) == sector_active(self, l2, s2))


def tdm_sector(self: NetworkOptimization):
    for i in self.locations:
        if self.location_to_type[i] in IMAGINARY_SITE_TYPES:
            continue
        for s in self.location_sectors[i]:
            for c in range(self.number_of_channels):
                if (i, s, c) not in self.sector_vars:
                    continue
                out = [self.tdm[i, j, c] for _, j in self.outgoing_links[i] if self.link_to_sectors[i, j][0] is not None and self.link_to_sectors[i, j][0] == s and (i, j, c) in self.tdm]
                inc = [self.tdm[j, i, c] for j, _ in self.incoming_links[i] if self.link_to_sectors[j, i][1] is not None and self.link_to_sectors[j, i][1] == s and (j, i, c) in self.tdm]
                if out:
                    self.problem.addConstraint(xp.Sum(out) <= self.sector_vars[i, s, c])
                if inc:
                    self.problem.addConstraint(xp.Sum(inc) <= self.sector_vars[i, s, c])


# ------------------------------------------------------------------ flow
def pop_load(self: NetworkOptimization):
    for loc in self.locations:
        if self.location_to_type[loc] == SiteType.POP and self.outgoing_links[loc]:
            self.problem.addConstraint(xp.Sum(self.flow[k] for k in self.outgoing_links[loc]) <= self.params.pop_capacity)


def tdm_flow(self: NetworkOptimization):
    for link in self.links:
        i, j = link
        if (i, j, 0) in self.tdm:
            self.problem.addConstraint(self.flow[link] <= self.link_capacities[link] * xp.Sum(self.tdm[i, j, c] for c in range(self.number_of_channels)))
        else:
            self.problem.addConstraint(self.flow[link] <= min(self.link_capacities[link], self.max_throughput))


def tdm_polarity(self: NetworkOptimization):
    if self.params.ignore_polarities:
        return
    for link in self.links:
        i, j = link
        if link in self.proposed_links or link in self.existing_links or link in self.wired_links:
            continue
        if self.location_to_type[i] in {SiteType.POP, SiteType.DN} and self.location_to_type[j] in {SiteType.POP, SiteType.DN}:
            t = xp.Sum(self.tdm[i, j, c] for c in range(self.number_of_channels))
            self.problem.addConstraint(t <= self.odd[i] + self.odd[j])
            self.problem.addConstraint(t <= 2 - self.odd[i] - self.odd[j])


def flow_site(self: NetworkOptimization):
    for loc in self.locations:
        bound = self.max_throughput * (1 if self.location_to_type[loc] in IMAGINARY_SITE_TYPES else self.site_vars[loc])
        if self.incoming_links[loc]:
            self.problem.addConstraint(xp.Sum(self.flow[k] for k in self.incoming_links[loc]) <= bound)
        if self.outgoing_links[loc]:
            self.problem.addConstraint(xp.Sum(self.flow[k] for k in self.outgoing_links[loc]) <= bound)


def flow_balance(self: NetworkOptimization):
    for loc in self.locations:
        if not self.incoming_links[loc] and not self.outgoing_links[loc]:
            continue
        net = xp.Sum(self.flow[k] for k in self.incoming_links[loc]) - xp.Sum(self.flow[k] for k in self.outgoing_links[loc])
        if self.location_to_type[loc] == DEMAND:
            self.problem.addConstraint(net == self.demand_at_location[loc] - self.shortage[loc])
        elif self.location_to_type[loc] == SUPERSOURCE:
            self.problem.addConstraint(net == xp.Sum(self.shortage[d] for d in self.locations if self.location_to_type[d] == DEMAND) - self.max_throughput)
        else:
            self.problem.addConstraint(net == 0)


def inactive_flow(self: NetworkOptimization):
    for link in self.links:
        if link in self.inactive_links:
            self.problem.addConstraint(self.flow[link] == 0)


# ------------------------------------------------------------------ sites given by the user
def colocated(self: NetworkOptimization):
    given = set(self.proposed_sites) | set(self.existing_sites)
    for i, j in self.proposed_links | self.existing_links:
        given.add(i)
        given.add(j)
    if self.params.always_active_pops:
        for i in self.locations:
            if self.location_to_type[i] == SiteType.POP and i not in self.inactive_sites:
                given.add(i)
    for locs in self.colocated_locations.values():
        if len(locs) <= 1:
            continue
        here = given.intersection(set(locs))
        if len(here) == 0:
            self.problem.addConstraint(xp.Sum(self.site_vars[loc] for loc in locs) <= 1)
            continue
        top = SiteType.CN
        for loc in here:
            if self.location_to_type[loc] == SiteType.POP:
                top = SiteType.POP
            elif self.location_to_type[loc] == SiteType.DN and top != SiteType.POP:
                top = SiteType.DN
        self.problem.addConstraint(xp.Sum(self.site_vars[loc] for loc in locs) == 1)
        out = []
        for loc in locs:
            t = self.location_to_type[loc]
            ok = t in {SiteType.CN, SiteType.DN, SiteType.POP} if top == SiteType.CN else t == SiteType.DN if top == SiteType.DN else t == SiteType.POP
            if not ok or t == top and loc not in given:
                out.append(self.site_vars[loc])
        if len(out) > 0:
            self.problem.addConstraint(xp.Sum(out) == 0)


def decided_site(self: NetworkOptimization):
    for loc in self.locations:
        if loc in self.inactive_sites:
            self.problem.addConstraint(self.site_vars[loc] == 0)
        elif self.params.always_active_pops and self.location_to_type[loc] == SiteType.POP or loc in self.proposed_sites or loc in self.existing_sites:
            if len(self.colocated_locations.get(self.location_to_geoloc[loc], [])) <= 1:
                self.problem.addConstraint(self.site_vars[loc] == 1)


def active_link_polarity(self: NetworkOptimization):
    if not self.params.ignore_polarities:
        for link in self.links:
            i, j = link
            if (link in self.proposed_links or link in self.existing_links) and i in self.odd and j in self.odd:
                self.problem.addConstraint(self.odd[i] + self.odd[j] == 1)


# ------------------------------------------------------------------ cost
def total_cost(self: NetworkOptimization):
    """Sites and sectors of every location that is not already built."""
    cost = 0
    for i in self.locations:
        if self.location_to_type[i] in IMAGINARY_SITE_TYPES or i in self.existing_sites:
            continue
        cost += self.cost_site[self.location_to_type[i]] * self.site_vars[i]
        for a in self.location_sectors[i]:
            if self.sector_to_type[a] not in IMAGINARY_SECTOR_TYPES:
                cost += self.cost_sector[i][a] * sector_active(self, i, a)
    return cost


def cost_constraint(self: NetworkOptimization):
    cost = total_cost(self)
    if any(self.location_to_type[i] not in IMAGINARY_SITE_TYPES and i not in self.existing_sites for i in self.locations):
        self.problem.addConstraint(cost <= self.params.budget)


def cost_objective(self: NetworkOptimization):
    self.problem.setObjective(total_cost(self))


def extract_cost(self: NetworkOptimization, site_decisions, sector_decisions):
    cost = 0
    for i in self.locations:
        if self.location_to_type[i] not in IMAGINARY_SITE_TYPES and i not in self.existing_sites:
            cost += self.cost_site[self.location_to_type[i]] * site_decisions[i]
            cost += sum(self.cost_sector[i][a] * sector_decisions[i, a] for a in self.location_sectors[i] if self.sector_to_type[a] not in IMAGINARY_SECTOR_TYPES)
    return cost


# ------------------------------------------------------------------ coverage
def coverage_constraint(self: NetworkOptimization):
    if len(self.type_sets[DEMAND]) == 0:
        return
    if self.params.maximize_common_bandwidth:
        if len(self.connected_demand_sites) == 0:
            return
        least = min([self.demand_at_location[d] for d in self.locations if d in self.connected_demand_sites])
        self.coverage_constraint = [self.demand_at_location[d] - self.shortage[d] >= self.params.coverage_percentage * least for d in self.locations if d in self.connected_demand_sites]
    else:
        total = sum(self.demand_at_location[d] for d in self.locations if self.location_to_type[d] == DEMAND)
        self.coverage_constraint = xp.Sum(self.shortage[d] for d in self.locations if self.location_to_type[d] == DEMAND) <= (1 - self.params.coverage_percentage) * total
    self.problem.addConstraint(self.coverage_constraint)


def coverage_objective(self: NetworkOptimization):
    obj = 0
    if self.params.maximize_common_bandwidth:
        if len(self.connected_demand_sites) > 0:
            self.common_bandwidth = xp.var(lb=0, ub=min([self.demand_at_location[d] for d in self.connected_demand_sites]))
            self.problem.addVariable(self.common_bandwidth)
            for d in self.locations:
                if d in self.connected_demand_sites:
                    self.problem.addConstraint(self.common_bandwidth + self.shortage[d] <= self.demand_at_location[d])
            obj = -self.common_bandwidth
    elif len(self.type_sets[DEMAND]) > 0:
        obj = xp.Sum(self.shortage)
    self.coverage_obj = obj
    self.problem.setObjective(obj, sense=xp.minimize)


# ------------------------------------------------------------------ connectable demand
def ignore_links(self: NetworkOptimization):
    return {(link.tx_site.site_id, link.rx_site.site_id) for link in self.topology.links.values() if link.capacity <= 0}


def reachable_with(self: NetworkOptimization):
    self.ignore_links = self._get_ignore_links()
    self.ignore_sites = self._get_ignore_sites()
    return self.solve_connected_demand()


def reachable_without(self: NetworkOptimization, status_filter=None):
    served = get_reachable_demand_sites(self.topology, StatusType.reachable_status() if status_filter is None else status_filter, ignore_sites=self._get_ignore_sites(), ignore_links=self._get_ignore_links())
    out = set()
    for demand_id, demand in self.topology.demand_sites.items():
        if demand_id not in served:
            continue
        for n in range(demand.num_sites):
            out.add(demand_id if n == 0 else demand_id + "_" + str(n))
    return out


def unit_flow(self: NetworkOptimization):
    d = {link: xp.var(lb=0, ub=1) for link in self.links}
    self.flow = d
    self.problem.addVariable(d)


def demand_decisions(self: NetworkOptimization):
    d = {loc: xp.var(vartype=xp.binary) for loc in self.locations if self.location_to_type[loc] == DEMAND}
    self.demand_vars = d
    self.problem.addVariable(d)
    on = {}
    for loc in self.locations:
        if self.location_to_type[loc] not in IMAGINARY_SITE_TYPES:
            on[loc] = 1 if loc not in self.inactive_sites and loc not in self.ignore_sites else 0
    self.site_vars = on


def ignore_link_flow(self: NetworkOptimization):
    for link in self.links:
        if link in self.inactive_links:
            self.problem.addConstraint(self.flow[link] == 0)
    for link in self.links:
        if link in self.ignore_links:
            self.problem.addConstraint(self.flow[link] == 0)


def unit_balance(self: NetworkOptimization):
    for loc in self.locations:
        inc = xp.Sum(self.flow[k] for k in self.incoming_links[loc])
        out = xp.Sum(self.flow[k] for k in self.outgoing_links[loc])
        if self.location_to_type[loc] not in IMAGINARY_SITE_TYPES:
            if self.site_vars[loc] == 0:
                if self.incoming_links[loc]:
                    self.problem.addConstraint(inc == 0)
                if self.outgoing_links[loc]:
                    self.problem.addConstraint(out == 0)
            elif self.incoming_links[loc] or self.outgoing_links[loc]:
                self.problem.addConstraint(inc == out)
        elif self.location_to_type[loc] == SUPERSOURCE:
            if self.outgoing_links[loc]:
                self.problem.addConstraint(out >= 0)
        elif self.location_to_type[loc] == DEMAND:
            self.problem.addConstraint(self.demand_vars[loc] <= 10 * len(self.type_sets[DEMAND]) * inc)


def demand_objective(self: NetworkOptimization):
    self.problem.setObjective(xp.Sum(self.demand_vars), sense=xp.maximize)


def solve_demand(self: NetworkOptimization):
    self.problem = None
    self.build_connected_demand_model()
    if self.problem is None:
        return None
    self.problem.solve()
    if self.problem.attributes.mipsols == 0:
        return None
    out = set()
    x = self.problem.getSolution()
    for loc, v in self.demand_vars.items():
        if x[self.problem.getIndex(v)] > 1 - EPSILON:
            out.add(loc)
    self.reset_connected_demand_model()
    return out


def pop_feasible(self: NetworkOptimization, topology):
    if not any(self.location_to_type[p] == SiteType.POP and sum(self.link_capacities[k] for k in self.outgoing_links[p]) > 0 and len(self.outgoing_links[p]) > 0 for p in self.locations):
        raise OptimizerException("no POP")


def demand_feasible(self: NetworkOptimization, topology):
    if not any(len(self.incoming_links[s.site_id]) > 0 and sum(self.link_capacities[k] for k in self.incoming_links[s.site_id]) > 0 for d in topology.demand_sites.values() for s in d.connected_sites):
        raise OptimizerException("no demand")


# ------------------------------------------------------------------ solutions
def timeout(self: NetworkOptimization):
    return self.problem is not None and self.problem.getAttrib("mipstatus") in {1, 2, 3, 4}


def flat(self: NetworkOptimization, solution_vector, variable_dict, binary=True):
    out = {}
    for key in variable_dict:
        x = solution_vector[self.problem.getIndex(variable_dict[key])]
        out[key] = x if not binary else 1 if x > 1 - EPSILON else 0
    return out


def sites_with_links(self: NetworkOptimization, link_decisions):
    out = set()
    for link in self.links:
        if link_decisions.get(link, 0) == 1:
            out.add(link[0])
            out.add(link[1])
    return out


def sectors_with_links(self: NetworkOptimization, link_decisions):
    out = {}
    for link in self.links:
        if link_decisions.get(link, 0) != 1:
            continue
        tx, rx = self.link_to_sectors[link]
        for loc, s in [(link[0], tx), (link[1], rx)]:
            if s is None or self.sector_to_type[s] in IMAGINARY_SECTOR_TYPES:
                continue
            for other in self.location_sectors[loc]:
                if self.sector_to_type[other] not in IMAGINARY_SECTOR_TYPES and self.topology.sectors[s].node_id == self.topology.sectors[other].node_id:
                    out.setdefault(loc, set()).add(other)
    return out


def create_model(self: NetworkOptimization, rel_stop: float, max_time: float):
    self.problem = xp.problem()
    self.problem.setprobname(self.__class__.__name__)
    if rel_stop > 0:
        self.problem.setControl("miprelstop", rel_stop)
    self.problem.setControl("maxtime", -abs(max_time) * 60)
    self.problem.setControl("treememorylimit", 15000)
    if self.params.num_threads is not None:
        self.problem.setControl("threads", self.params.num_threads)


def demand_model(self: NetworkOptimization, max_time: float):
    self.problem = xp.problem()
    self.problem.setprobname(self.__class__.__name__)
    self.problem.setControl("maxtime", -abs(max_time) * 60)
    self.problem.setControl("treememorylimit", 15000)
    if self.params.num_threads is not None:
        self.problem.setControl("threads", self.params.num_threads)
