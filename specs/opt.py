"""Reference semantics of topology_optimization (only parsed, never imported)."""
from itertools import chain
from typing import Dict, Optional, Tuple, Union

from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.constants import OPTIMIZATION
from terragraph_planner.common.data_io.topology_serializer import dump_topology_to_kml
from terragraph_planner.common.configuration.enums import DebugFile, PolarityType, RedundancyLevel, SiteType, StatusType
from terragraph_planner.common.configuration.utils import struct_objects_from_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.common.utils import set_system_control_with_config_file
from terragraph_planner.los.core import generate_candidate_topology_with_config_file
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork
from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork, add_duplicate_pop_to_dn_site
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork, compute_candidate_edges_for_redundancy
from terragraph_planner.optimization.structs import OptimizationSolution, RedundancyParams, RedundancySolution
from terragraph_planner.optimization.topology_interference import compute_link_interference
from terragraph_planner.optimization.topology_operations import (
    compute_capex, compute_max_pop_capacity_of_topology, get_adversarial_links, hops_from_pops, mark_unreachable_components, readjust_sectors_post_opt)
from terragraph_planner.optimization.topology_preparation import prepare_topology_for_optimization
from terragraph_planner.optimization.topology_report import analyze_with_dump
from terragraph_planner.optimization.topology_optimization import (
    _run_interference_step, _run_max_coverage_step, _run_min_cost_step, _run_propose_extra_pops_step, _run_redundancy_step,
    optimize_and_report_topology, optimize_topology, pre_opt_check, update_topology_with_solution)

PRIVATE = {'_run_interference_step': 'interference_step', '_run_max_coverage_step': 'coverage_step', '_run_min_cost_step': 'cost_step', '_run_propose_extra_pops_step': 'pops_step', '_run_redundancy_step': 'redundancy_step'}


def whole(topology: Topology, params: OptimizerParams):
    pre_opt_check(topology, params)
    prepare_topology_for_optimization(topology, params)
    optimize_topology(topology, params)
    analyze_with_dump(topology, params)


def from_file(config_file_path: str):
    set_system_control_with_config_file(config_file_path)
    params: OptimizerParams = struct_objects_from_file(OPTIMIZATION, config_file_path)
    if params.candidate_topology_file_path is None:
        topology = generate_candidate_topology_with_config_file(config_file_path)
    else:
        topology = extract_topology_from_file(params.candidate_topology_file_path, params.device_list, None)
    optimize_and_report_topology(topology, params)
    return topology


def check(topology: Topology, params: OptimizerParams):
    if params.number_of_extra_pops <= 0 and not any(s.site_type == SiteType.POP for s in topology.sites.values()):
        raise OptimizerException("no POP")
    if not params.enable_uniform_demand and not params.enable_manual_demand and not any(s.site_type == SiteType.CN for s in topology.sites.values()):
        raise OptimizerException("no demand")


def plan(topology: Topology, params: OptimizerParams):
    topology.sort()
    _run_propose_extra_pops_step(topology, params)
    mark_unreachable_components(topology, maximum_hops=params.maximum_number_hops)
    dump_topology_to_kml(topology, DebugFile.PREPARED_TOPOLOGY)
    params.ignore_polarities = False
    _run_min_cost_step(topology, params)
    dump_topology_to_kml(topology, DebugFile.MIN_COST_TOPOLOGY)
    if params.enable_legacy_redundancy_method:
        _run_max_coverage_step(topology, params)
        dump_topology_to_kml(topology, DebugFile.MAX_COVERAGE_TOPOLOGY)
    else:
        _run_redundancy_step(topology, params)
        dump_topology_to_kml(topology, DebugFile.REDUNDANT_TOPOLOGY)
    _run_interference_step(topology, params)
    dump_topology_to_kml(topology, DebugFile.MIN_INTERFERENCE_TOPOLOGY)
    readjust_sectors_post_opt(topology, params)
    dump_topology_to_kml(topology, DebugFile.OPTIMIZED_TOPOLOGY)


def cost_step(topology: Topology, params: OptimizerParams):
    network = MinCostNetwork(topology, params)
    share = 1.0
    solution = None
    late = False
    while solution is None and share >= 0.5:
        solution = network.solve(coverage_percentage=share)
        late = network.did_problem_timeout()
        share -= 0.1
    if solution is None:
        raise OptimizerException("no solution")
    update_topology_with_solution(solution, topology)
    return solution


def pops_step(topology: Topology, params: OptimizerParams):
    if params.number_of_extra_pops == 0:
        if len([s.site_id for s in topology.sites.values() if s.site_type == SiteType.POP]) == 0:
            raise OptimizerException("no POP")
        return None
    network = POPProposalNetwork(topology, params)
    solution = network.propose_pops()
    if solution is None:
        return None
    add_duplicate_pop_to_dn_site(topology, solution)
    return solution


def coverage_step(topology: Topology, params: OptimizerParams):
    if params.budget - compute_capex(topology, params).proposed_capex <= 0:
        return None
    links = get_adversarial_links(topology, params.backhaul_link_redundancy_ratio)
    network = MaxCoverageNetwork(topology, params, links)
    solution = network.solve()
    if solution is None:
        return None
    update_topology_with_solution(solution, topology)
    return solution


def redundancy_step(topology: Topology, params: OptimizerParams):
    several = len(topology.get_site_ids(status_filter={StatusType.PROPOSED, StatusType.EXISTING}, site_type_filter={SiteType.POP})) > 1
    level = params.redundancy_level
    if level == RedundancyLevel.LOW:
        capacity = RedundancyParams(2, 2, 2)
    elif level == RedundancyLevel.MEDIUM:
        capacity = RedundancyParams(1, 1, 2) if several else RedundancyParams(2, 1, 2)
    elif level == RedundancyLevel.HIGH:
        capacity = RedundancyParams(2, 1, 4) if several else RedundancyParams(3, 1, 3)
    else:
        return None
    links = compute_candidate_edges_for_redundancy(topology=topology, pop_source_capacity=4.0, dn_source_capacity=2.0)
    ends = set(chain(*links))
    links |= {
        (l.tx_site.site_id, l.rx_site.site_id)
        for l in topology.links.values()
        if l.tx_site.site_id in ends and l.rx_site.site_id in ends and l.status_type in {StatusType.PROPOSED, StatusType.EXISTING}
    }
    network = RedundantNetwork(topology, params, capacity, links)
    solution = network.solve()
    if solution is None:
        return None
    update_topology_with_solution(solution, topology)
    return solution


def interference_step(topology: Topology, params: OptimizerParams):
    pairs = find_angle_violating_link_pairs(topology, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, active_components=False)
    rsl = compute_link_interference(topology, params.maximum_eirp)
    network = MinInterferenceNetwork(topology, params, pairs.diff_sector_list + pairs.near_far_list, rsl)
    solution = network.solve()
    if solution is None:
        raise OptimizerException("no solution")
    update_topology_with_solution(solution, topology)
    return solution


def update(solution: Union[OptimizationSolution, RedundancySolution], topology: Topology):
    fixed = {StatusType.EXISTING, StatusType.UNAVAILABLE, StatusType.UNREACHABLE}
    for k, s in topology.sites.items():
        if s.status_type not in fixed:
            s.status_type = StatusType.PROPOSED if solution.site_decisions.get(k, 0) == 1 else StatusType.CANDIDATE
        odd = solution.odd_site_decisions.get(k, 0) == 1
        even = solution.even_site_decisions.get(k, 0) == 1
        if odd and even:
            raise OptimizerException("both")
        if odd:
            s.polarity = PolarityType.ODD
        elif even:
            s.polarity = PolarityType.EVEN
        else:
            s.polarity = PolarityType.UNASSIGNED
    for k, x in topology.sectors.items():
        key = (x.site.site_id, k)
        if x.status_type not in fixed:
            x.status_type = StatusType.PROPOSED if solution.sector_decisions.get(key, 0) == 1 else StatusType.CANDIDATE
        x.channel = solution.channel_decisions.get(key, -1)
    for l in topology.links.values():
        if l.status_type not in fixed:
            l.status_type = StatusType.PROPOSED if solution.link_decisions.get((l.tx_site.site_id, l.rx_site.site_id), 0) == 1 else StatusType.CANDIDATE
    hops = hops_from_pops(topology, status_filter={StatusType.PROPOSED, StatusType.EXISTING})
    for x in topology.sectors.values():
        if x.site.site_id in hops:
            continue
        if x.site.status_type not in fixed:
            x.site.status_type = StatusType.CANDIDATE
        if x.status_type not in fixed:
            x.status_type = StatusType.CANDIDATE
    for l in topology.links.values():
        if l.status_type == StatusType.PROPOSED and (l.tx_site.status_type == StatusType.CANDIDATE or l.rx_site.status_type == StatusType.CANDIDATE):
            l.status_type = StatusType.CANDIDATE
