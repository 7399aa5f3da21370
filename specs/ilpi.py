"""Reference semantics of the interference model (only parsed, never imported)."""
import math
from copy import deepcopy

import xpress as xp

from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.constants import FULL_ROTATION_ANGLE, SECTOR_LINK_ANGLE_TOLERANCE
from terragraph_planner.common.configuration.enums import DebugFile, SectorType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.geos import angle_delta
from terragraph_planner.common.rf.link_budget_calculator import log_to_linear, mbps_to_gbps
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.optimization.constants import DEMAND, EPSILON, IMAGINARY_SECTOR_TYPES, IMAGINARY_SITE_TYPES, UNASSIGNED_CHANNEL
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork
from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization
from terragraph_planner.optimization.structs import OptimizationSolution

DIST = {SiteType.POP, SiteType.DN}


def i_init(self: MinInterferenceNetwork, topology: Topology, params: OptimizerParams, angle_limit_violating_links, interfering_rsl):
    NetworkOptimization.__init__(self, topology, params)
    self.proposed_sectors.clear()
    self.proposed_links.clear()
    self.angle_limit_violating_links = angle_limit_violating_links
    scan = {}
    for k, site in topology.sites.items():
        scan[k] = site.device.sector_params.horizontal_scan_range
    self.horizontal_scan_range = scan
    rsl = {}
    interference = {}
    for link in topology.links.values():
        ends = (link.tx_site.site_id, link.rx_site.site_id)
        rsl[ends] = log_to_linear(link.rsl_dbm)
        interference[ends] = log_to_linear(interfering_rsl[ends]) if ends in interfering_rsl else 0
    self.rsl_linear = rsl
    self.interfering_rsl_linear = interference
    self.noise_linear = {}
    self.snr_linear_inverse = {}
    self.cap_gbps = {}
    for d in self.params.device_list:
        self.noise_linear[d.device_sku] = log_to_linear(d.sector_params.noise_figure + d.sector_params.thermal_noise_power)
        self.snr_linear_inverse[d.device_sku] = []
        self.cap_gbps[d.device_sku] = []
        for row in d.sector_params.mcs_map:
            self.snr_linear_inverse[d.device_sku].append(1 / log_to_linear(row.snr))
            self.cap_gbps[d.device_sku].append(mbps_to_gbps(row.mbps))
    if self.params.maximize_common_bandwidth:
        self.connected_demand_sites = self._compute_connectable_demand_sites()
    self.active_link = None
    self.deployment_link = None
    self.link_capacity_vars = None
    self.zero_cap_prod_vars = None
    self.tdm_compatible_polarity = None


def i_connectable(self: MinInterferenceNetwork):
    found = self._get_reachable_demand_sites_with_constraints()
    if found is None:
        return self._get_reachable_demand_sites_without_constraints()
    return found


def i_ignore_sites(self: MinInterferenceNetwork):
    out = set()
    active = self._get_active_sites()
    for k, site in self.topology.sites.items():
        if site.status_type == StatusType.CANDIDATE:
            out.add(k)
        if site.status_type in {StatusType.EXISTING, StatusType.PROPOSED} and k not in active:
            out.add(k)
    return out


def i_skeleton(self: MinInterferenceNetwork):
    self.create_model(self.params.interference_rel_stop, self.params.interference_max_time)
    self.create_site_decisions()
    self.create_polarity_decisions()
    self.create_flow_decisions()
    self.create_shortage_decisions()
    self.create_active_link_decisions()
    self.create_deployment_link_decisions()
    self.create_sector_decisions()
    self.create_tdm_decisions()
    self.create_tdm_flow_relationship()
    self.create_tdm_link_relationship()
    self.create_flow_balance_with_shortage()
    self.create_pop_load_constraints()
    self.create_flow_link_relationship()
    self.create_symmetric_link_constraints()
    self.create_sector_constraints()
    self.create_sector_link_constraints()
    self.create_cn_link_constraints()
    self.create_polarity_link_relationship()
    self.create_fixed_input_constraints_with_sectors()
    self.create_multi_point_contstraints()
    self.create_deployment_link_constraints()
    self.create_angle_limit_guideline_constraints()
    self.create_exact_capacity_constraints()


def i_demand_model(self: MinInterferenceNetwork):
    self.create_connected_demand_model(max_time=self.params.demand_site_max_time)
    self.create_unit_flow_decisions()
    self.create_active_link_decisions()
    self.create_deployment_link_decisions()
    self.create_sector_decisions()
    self.create_polarity_decisions()
    self.create_demand_site_decisions()
    self.create_ignore_link_flow_constraints()
    self.create_polarity_link_relationship()
    self.create_active_link_polarity_constraints()
    self.create_unit_flow_balance_constraints()
    self.create_decided_link_constraints()
    self.create_sector_site_relationship()
    self.create_same_node_sector_relationship()
    self.create_always_active_sector_constraints()
    self.create_sector_channel_constraints()
    self.create_sector_link_constraints()
    self.create_symmetric_link_constraints()
    self.create_multi_point_contstraints()
    self.create_cn_link_constraints()
    self.create_deployment_link_constraints()
    self.create_angle_limit_guideline_constraints()
    self.create_unit_flow_link_relationship()
    self.create_demand_site_objective()


def i_fixed(self: MinInterferenceNetwork):
    self.create_decided_link_constraints()
    self.create_active_link_polarity_constraints()
    self.create_inactive_link_flow_constraints()


def i_reset(self: MinInterferenceNetwork):
    self.problem.reset()
    self.site_vars = None
    self.flow = None
    self.tdm = None
    self.odd = None
    self.active_link = None
    self.deployment_link = None
    self.sector_vars = None
    self.link_capacity_vars = None
    self.tdm_compatible_polarity = None
    self.demand_vars = None


def i_solve(self: MinInterferenceNetwork):
    if len(self.proposed_sites) + len(self.existing_sites) == 0:
        return None
    if self.problem is not None:
        self.problem.reset()
    self.setup_problem_skeleton()
    self.create_coverage_and_weighted_link_objective()
    self.dump_problem_file_for_debug_mode(DebugFile.INTERFERENCE_OPTIMIZATION)
    self.problem.solve()
    if self.problem.attributes.mipsols > 0 and self.common_bandwidth is not None:
        values = self.problem.getSolution()
        if values[self.problem.getIndex(self.common_bandwidth)] == 0:
            self.params.maximize_common_bandwidth = False
            try:
                self.problem.delVariable(self.common_bandwidth)
            except Exception:
                self.problem.reset()
                self.setup_problem_skeleton()
            self.common_bandwidth = None
            self.create_coverage_and_weighted_link_objective()
            self.problem.solve()
    return self.extract_solution()


def i_active_sites(self: MinInterferenceNetwork):
    out = set()
    given = self.proposed_sites | self.existing_sites
    for x in self.locations:
        if x in given and len(self.colocated_locations.get(self.location_to_geoloc[x], [])) <= 1:
            out.add(x)
    for group in self.colocated_locations.values():
        if len(group) > 1:
            here = given.intersection(set(group))
            if len(here) > 0:
                top, _ = self._get_max_and_valid_site_types_from_colocated_sites(here)
                for x in group:
                    if x in given and self.location_to_type[x] == top:
                        out.add(x)
    return out


def i_sites(self: MinInterferenceNetwork):
    active = self._get_active_sites()
    self.site_vars = {x: 1 if x in active else 0 for x in self.locations if self.location_to_type[x] not in IMAGINARY_SITE_TYPES}


def i_links(self: MinInterferenceNetwork):
    d = {}
    for i, j in self.links:
        if self.link_capacities[i, j] <= 0 or (i, j) in self.wired_links:
            continue
        if not all(self.link_to_sectors.get((i, j), (None, None))):
            continue
        if self.location_to_type[i] not in IMAGINARY_SITE_TYPES and self.location_to_type[j] not in IMAGINARY_SITE_TYPES:
            d[i, j] = xp.var(vartype=xp.binary)
    self.active_link = d
    self.problem.addVariable(d)


def i_deployment(self: MinInterferenceNetwork):
    if self.number_of_channels != 1:
        pairs = []
        for i, j, k in self.angle_limit_violating_links:
            if (i, j) in self.active_link and (i, k) in self.active_link:
                pairs.append((i, j))
                pairs.append((i, k))
        d = {(i, j, c): xp.var(vartype=xp.binary) for i, j in pairs for c in range(self.number_of_channels)}
        self.deployment_link = d
        self.problem.addVariable(d)


def i_decided(self: MinInterferenceNetwork):
    for i, j in self.links:
        if (i, j) in self.proposed_links or (i, j) in self.existing_links:
            if self.site_vars[i] == 0 or self.site_vars[j] == 0:
                continue
            if (i, j) in self.active_link:
                self.problem.addConstraint(self.active_link[i, j] == 1)
            s1, s2 = self.link_to_sectors.get((i, j), (None, None))
            if s1 is None and s2 is None and (i, j) not in self.wired_links:
                raise OptimizerException("")
            if s1:
                self.problem.addConstraint(xp.Sum(self.sector_vars[i, s1, c] for c in range(self.number_of_channels) if (i, s1, c) in self.sector_vars) == 1)
            if s2:
                self.problem.addConstraint(xp.Sum(self.sector_vars[j, s2, c] for c in range(self.number_of_channels) if (j, s2, c) in self.sector_vars) == 1)
    for i, j in self.links:
        if (i, j) in self.inactive_links and (i, j) in self.active_link:
            self.problem.addConstraint(self.active_link[i, j] == 0)


def i_p2mp(self: MinInterferenceNetwork):
    for i in self.locations:
        if self.location_to_type[i] in DIST:
            for s in self.location_sectors[i]:
                dn = 0
                both = 0
                n_dn = 0
                n_both = 0
                for _, j in self.outgoing_links[i]:
                    tx = self.link_to_sectors[i, j][0]
                    if tx is None or tx != s or (i, j) not in self.active_link:
                        continue
                    if self.location_to_type[j] in DIST:
                        dn = dn + self.active_link[i, j]
                        n_dn += 1
                        both = both + self.active_link[i, j]
                        n_both += 1
                    elif self.location_to_type[j] == SiteType.CN:
                        both = both + self.active_link[i, j]
                        n_both += 1
                if n_dn >= self.params.dn_dn_sector_limit:
                    self.problem.addConstraint(dn <= self.params.dn_dn_sector_limit * xp.Sum(self.sector_vars[i, s, c] for c in range(self.number_of_channels)))
                if n_both >= self.params.dn_total_sector_limit:
                    self.problem.addConstraint(both <= self.params.dn_total_sector_limit * xp.Sum(self.sector_vars[i, s, c] for c in range(self.number_of_channels)))


def i_flow_link(self: MinInterferenceNetwork):
    for link in self.flow:
        if link in self.active_link:
            self.problem.addConstraint(self.flow[link] <= self.link_capacities[link] * self.active_link[link])


def i_unit_flow(self: MinInterferenceNetwork):
    for link in self.flow:
        if link in self.active_link:
            self.problem.addConstraint(self.flow[link] <= self.active_link[link])


def i_cn(self: MinInterferenceNetwork):
    for x in self.locations:
        if self.location_to_type[x] == SiteType.CN:
            inc = [link for link in self.incoming_links[x] if link in self.active_link]
            if inc:
                self.problem.addConstraint(xp.Sum(self.active_link[link] for link in inc) <= 1)


def i_sector_link(self: MinInterferenceNetwork):
    for i, j in self.active_link:
        s1, s2 = self.link_to_sectors.get((i, j), (None, None))
        if (i, s1, 0) in self.sector_vars:
            self.problem.addConstraint(self.active_link[i, j] <= xp.Sum(self.sector_vars[i, s1, c] for c in range(self.number_of_channels) if (i, s1, c) in self.sector_vars))
        if (j, s2, 0) in self.sector_vars:
            self.problem.addConstraint(self.active_link[i, j] <= xp.Sum(self.sector_vars[j, s2, c] for c in range(self.number_of_channels) if (j, s2, c) in self.sector_vars))
        if self.number_of_channels != 1 and self.location_to_type[j] != SiteType.CN:
            for c in range(self.number_of_channels):
                self.problem.addConstraint(self.active_link[i, j] <= self.sector_vars[i, s1, c] - self.sector_vars[j, s2, c] + 1)
                self.problem.addConstraint(self.active_link[i, j] <= self.sector_vars[j, s2, c] - self.sector_vars[i, s1, c] + 1)


def i_tdm_link(self: MinInterferenceNetwork):
    for i, j in self.links:
        if (i, j, 0) in self.tdm and (i, j) in self.active_link:
            self.problem.addConstraint(xp.Sum(self.tdm[i, j, c] for c in range(self.number_of_channels)) <= self.active_link[i, j])


def i_polarity(self: MinInterferenceNetwork):
    if self.params.ignore_polarities:
        return
    for i, j in self.links:
        if (i, j) in self.proposed_links | self.existing_links or (i, j) not in self.active_link:
            continue
        if self.location_to_type[i] in DIST and self.location_to_type[j] in DIST:
            self.problem.addConstraint(self.active_link[i, j] <= self.odd[i] + self.odd[j])
            self.problem.addConstraint(self.active_link[i, j] <= 2 - self.odd[i] - self.odd[j])


def i_symmetric(self: MinInterferenceNetwork):
    for i, j in self.active_link:
        if (j, i) in self.active_link:
            self.problem.addConstraint(self.active_link[i, j] == self.active_link[j, i])


def i_deployment_constraints(self: MinInterferenceNetwork):
    if self.number_of_channels == 1:
        return
    for i, j, c in self.deployment_link:
        s1, s2 = self.link_to_sectors[i, j]
        tx = self.sector_vars[i, s1, c]
        rx = self.sector_vars[j, s2, c] if (j, s2, c) in self.sector_vars else self.sector_vars[j, s2, 0]
        self.problem.addConstraint(self.deployment_link[i, j, c] <= self.active_link[i, j])
        self.problem.addConstraint(self.deployment_link[i, j, c] <= tx)
        self.problem.addConstraint(self.deployment_link[i, j, c] <= rx)
        self.problem.addConstraint(self.deployment_link[i, j, c] >= self.active_link[i, j] + tx + rx - 2)


def i_angles(self: MinInterferenceNetwork):
    given = self.proposed_links | self.existing_links
    for i, j, k in self.angle_limit_violating_links:
        if (i, j) not in self.active_link or (i, k) not in self.active_link or ((i, j) in given and (i, k) in given):
            continue
        if self.number_of_channels == 1:
            self.problem.addConstraint(self.active_link[i, j] + self.active_link[i, k] <= 1)
        else:
            for c in range(self.number_of_channels):
                self.problem.addConstraint(self.deployment_link[i, j, c] + self.deployment_link[i, k, c] <= 1)


def i_interfering(self: MinInterferenceNetwork, tx_site: str, rx_site: str, rx_sector: str):
    out = []
    cn = self.location_to_type[rx_site] == SiteType.CN
    for path in self.incoming_links[rx_site]:
        los = path[0]
        if (los, rx_site) not in self.active_link or self.site_vars[los] == 0 or los == tx_site:
            continue
        if not cn and self.link_to_sectors[path][1] != rx_sector:
            continue
        if cn and self.horizontal_scan_range[rx_site] < FULL_ROTATION_ANGLE:
            apart = abs(angle_delta(self.link_to_azimuth[path][1], self.link_to_azimuth[tx_site, rx_site][1]))
            if apart >= self.horizontal_scan_range[rx_site] / 2 + SECTOR_LINK_ANGLE_TOLERANCE:
                continue
        for other in self.outgoing_links[los]:
            if (los, other[1]) in self.active_link and self.link_to_sectors[other][0] == self.link_to_sectors[path][0] and self.site_vars[other[1]] != 0 and other[1] != rx_site:
                out.append(other)
    return out


def i_rsl(self: MinInterferenceNetwork, tx_site: str, rx_site: str, rx_sector: str, channel: int):
    terms = []
    most = 0.0
    for k, l in self.get_interferering_links(tx_site, rx_site, rx_sector):
        share = self.tdm[k, l, channel] if self.params.ignore_polarities else self.tdm_compatible_polarity[tx_site, k, l, channel]
        terms.append(self.interfering_rsl_linear[k, rx_site] * share)
        most += self.interfering_rsl_linear[k, rx_site]
    return xp.Sum(terms), most


def i_compatible(self: MinInterferenceNetwork):
    if self.params.ignore_polarities:
        return
    self.tdm_compatible_polarity = {}
    for i, j in self.active_link:
        if self.site_vars[i] == 0 or self.site_vars[j] == 0:
            continue
        for k, l in self.get_interferering_links(i, j, self.link_to_sectors[i, j][1]):
            for c in range(self.number_of_channels):
                if (i, k, l, c) not in self.tdm_compatible_polarity:
                    v = xp.var(lb=0, ub=1)
                    self.problem.addVariable(v)
                    self.tdm_compatible_polarity[i, k, l, c] = v
                    self.problem.addConstraint(v <= 1 + self.odd[k] - self.odd[i])
                    self.problem.addConstraint(v <= 1 - self.odd[k] + self.odd[i])
                    self.problem.addConstraint(v <= self.tdm[k, l, c])
                    self.problem.addConstraint(v >= self.tdm[k, l, c] + self.odd[k] + self.odd[i] - 2)
                    self.problem.addConstraint(v >= self.tdm[k, l, c] - self.odd[i] - self.odd[k])


def i_capacity(self: MinInterferenceNetwork):
    gbps = deepcopy(self.cap_gbps)
    inverse = deepcopy(self.snr_linear_inverse)
    zero = {}
    for sku, row in gbps.items():
        if 0 not in row:
            gbps[sku].append(0)
            inverse[sku].append(0)
        zero[sku] = gbps[sku].index(0)
    self.link_capacity_vars = {}
    for i, j in self.active_link:
        if self.site_vars[i] == 0 or self.site_vars[j] == 0:
            continue
        for c in range(self.number_of_channels):
            self.link_capacity_vars[i, j, c] = {n: xp.var(vartype=xp.binary) for n in range(len(inverse[self.sku_location[j]]))}
    self.problem.addVariable(self.link_capacity_vars)
    self.create_tdm_compatible_polarity_decisions()
    for i, j in self.active_link:
        if self.site_vars[i] == 0 or self.site_vars[j] == 0:
            continue
        sku = self.sku_location[j]
        classes = len(inverse[sku])
        power = self.rsl_linear[i, j]
        for c in range(self.number_of_channels):
            noise, most = self.get_interfering_rsl_expr(i, j, self.link_to_sectors[i, j][1], c)
            if power != 0:
                ratio = (noise + self.noise_linear[sku]) / power
                inverse[sku][zero[sku]] = (most + self.noise_linear[sku]) / power
            else:
                ratio = 0
                inverse[sku][zero[sku]] = 0
            self.problem.addConstraint(ratio <= xp.Sum(inverse[sku][n] * self.link_capacity_vars[i, j, c][n] for n in range(classes)))
            self.problem.addConstraint(xp.Sum(self.link_capacity_vars[i, j, c][n] for n in range(classes)) <= 1)
            if self.number_of_channels > 1:
                self.problem.addConstraint(self.tdm[i, j, c] <= 1 - self.link_capacity_vars[i, j, c][zero[sku]])
        if self.number_of_channels > 1:
            self.problem.addConstraint(xp.Sum(self.link_capacity_vars[i, j, c][zero[sku]] for c in range(self.number_of_channels)) >= self.number_of_channels - 1)
        self.problem.addConstraint(self.flow[i, j] <= xp.Sum(gbps[sku][n] * self.link_capacity_vars[i, j, c][n] for n in range(classes) for c in range(self.number_of_channels)))


def i_objective(self: MinInterferenceNetwork):
    self.coverage_obj = self._create_coverage_objective_expr()
    if self.params.maximize_common_bandwidth:
        self.coverage_obj *= len(self.shortage)
    self.problem.setObjective(self.max_throughput * self.coverage_obj - xp.Sum(self.link_weights[x] * self.active_link[x] for x in self.active_link), sense=xp.minimize)


def i_link_decisions(self: MinInterferenceNetwork, sol, flow_decisions):
    out = self._extract_flat_dictionary(sol, self.active_link)
    for x in self.flow.keys() - self.active_link.keys():
        if self.location_to_type[x[0]] not in IMAGINARY_SITE_TYPES and self.location_to_type[x[1]] not in IMAGINARY_SITE_TYPES:
            out[x] = 0 if math.isclose(flow_decisions[x], 0, abs_tol=EPSILON) else 1
    for i, j in self.wired_links:
        if self.location_to_type[i] not in IMAGINARY_SITE_TYPES and self.location_to_type[j] not in IMAGINARY_SITE_TYPES:
            if self.site_vars[i] == 1 and self.site_vars[j] == 1:
                out[i, j] = 1
    return out


def i_sector_decisions(self: MinInterferenceNetwork, sol, link_decisions):
    values = self._extract_flat_dictionary(sol, self.sector_vars)
    sectors = {}
    channels = {}
    for i in self.location_sectors:
        for s in self.location_sectors[i]:
            if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES:
                per_channel = [values[i, s, c] for c in range(self.number_of_channels) if (i, s, c) in values]
                if len(per_channel) == 0:
                    raise OptimizerException("")
                if sum(per_channel) > 1:
                    raise OptimizerException("")
                sectors[i, s] = sum(per_channel)
                if self.sector_to_type[s] == SectorType.DN:
                    channels[i, s] = per_channel.index(1) if sum(per_channel) == 1 else UNASSIGNED_CHANNEL
    for i in self.location_sectors:
        for s in self.location_sectors[i]:
            if self.sector_to_type[s] == SectorType.CN:
                if sectors[i, s] == 0:
                    channels[i, s] = UNASSIGNED_CHANNEL
                    continue
                n = 0
                for link in self.incoming_links[i]:
                    if link in self.active_link and link_decisions[link] != 0:
                        tx, rx = self.link_to_sectors[link]
                        if rx == s:
                            channels[i, s] = channels[link[0], tx]
                            n += 1
                if n > 1:
                    raise OptimizerException("")
                if n == 0:
                    sectors[i, s] = 0
                    channels[i, s] = UNASSIGNED_CHANNEL
    return sectors, channels


def i_extract(self: MinInterferenceNetwork):
    if self.problem.attributes.mipsols <= 0:
        return None
    sol = self.problem.getSolution()
    sites = self.site_vars
    shortage = self._extract_flat_dictionary(sol, self.shortage, binary=False)
    shares = self._extract_flat_dictionary(sol, self.tdm, binary=False)
    tdm = {}
    for i, j in self.links:
        if (i, j, 0) in shares:
            per_channel = [shares[i, j, c] for c in range(self.number_of_channels)]
            if sum(0 if math.isclose(d, 0, abs_tol=EPSILON) else 1 for d in per_channel) > 1:
                raise OptimizerException("")
            tdm[i, j] = sum(per_channel)
    odd = {} if self.params.ignore_polarities else self._extract_flat_dictionary(sol, self.odd)
    even = {}
    for x, v in odd.items():
        if sites[x] == 0:
            odd[x] = 0
            even[x] = 0
        else:
            even[x] = 1 - v
    flow = self.prune_loops(self._extract_flat_dictionary(sol, self.flow, binary=False))
    if math.isclose(sum(flow.values()), 0, abs_tol=EPSILON):
        if self.common_bandwidth is not None and sol[self.problem.getIndex(self.common_bandwidth)] != 0:
            raise OptimizerException("")
        return None
    links = self.get_link_decisions(sol, flow)
    sectors, channels = self.get_sector_and_channel_decisions(sol, links)
    used_sectors = self.get_sectors_with_active_links(links)
    used_sites = self.get_sites_with_active_links(links)
    for i, j in self.links:
        if self.location_to_type[j] == DEMAND and sites[i] == 1:
            used_sites.add(i)
    for x in self.locations:
        if self.location_to_type[x] in IMAGINARY_SITE_TYPES:
            continue
        if x not in used_sites:
            sites[x] = 0
            if not self.params.ignore_polarities:
                odd[x] = 0
                even[x] = 0
            for s in self.location_sectors[x]:
                sectors[x, s] = 0
                channels[x, s] = UNASSIGNED_CHANNEL
        for s in self.location_sectors[x]:
            if self.sector_to_type[s] not in IMAGINARY_SECTOR_TYPES and s not in used_sectors.get(x, set()):
                sectors[x, s] = 0
                channels[x, s] = UNASSIGNED_CHANNEL
    return OptimizationSolution(
        link_decisions=links, flow_decisions=flow, site_decisions=sites, odd_site_decisions=odd, even_site_decisions=even, sector_decisions=sectors,
        channel_decisions=channels, tdm_decisions=tdm, shortage_decisions=shortage, objective_value=self.problem.getObjVal(), cost=self._extract_cost(sites, sectors))


def types_at(self: NetworkOptimization, sites):
    top = SiteType.CN
    for x in sites:
        if self.location_to_type[x] == SiteType.POP:
            top = SiteType.POP
        elif self.location_to_type[x] == SiteType.DN and top != SiteType.POP:
            top = SiteType.DN
    if top == SiteType.CN:
        return top, {SiteType.CN, SiteType.DN, SiteType.POP}
    if top == SiteType.DN:
        return top, {SiteType.DN}
    return top, {SiteType.POP}
