From 423d6531c0672991b8f91391598e4e2fed332792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 01/58] fix: forget the sector index and self link of a removed
 site

Topology.remove_site left the site's entry in site_id_to_sector_ids behind,
so removing the site again raised a KeyError instead of a TopologyException
and a re-added site started with ids of deleted sectors; a link from a site to
itself was removed twice.
---
 terragraph_planner/common/topology_models/topology.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..a782738 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
@@ -119,7 +119,9 @@ class Topology:
         for link_id in self.site_connectivity.get(site_id, {}).values():
             link_to_remove.append(link_id)
         for link_id in self.site_connectivity_reverse.get(site_id, {}).values():
-            link_to_remove.append(link_id)
+            # A link from the site to itself is found in both directions
+            if link_id not in link_to_remove:
+                link_to_remove.append(link_id)
         for link_id in link_to_remove:
             self.remove_link(link_id)
 
-- 
2.43.0


From fbcb3a9dca1686f1191a4872a75f369763bab4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 02/58] fix: validate max_coverage_max_time and raise
 ConfigException for availability_max_time

---
 terragraph_planner/common/configuration/configs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..813e3e3 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -681,6 +681,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             min_cost_max_time > 0
             and redundancy_max_time > 0
+            and max_coverage_max_time > 0
             and interference_max_time > 0
             and pop_proposal_max_time > 0
             and demand_site_max_time > 0,
@@ -690,6 +691,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             availability_max_time > 0,
             "Maximum availability solver time must be positive",
+            ConfigException,
         )
         if candidate_topology_file_path is not None:
             assert_file_extension(
-- 
2.43.0


From dfa7338f401fbf1f0f806f2fe9d760c29f08696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 03/58] fix: count the cost of a node by its active sectors

A node whose first sector is inactive was marked as seen, so the cost of
its proposed sectors was left out of the CAPEX of the plan.
---
 .../optimization/topology_operations.py       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..cb8c377 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -473,18 +473,29 @@ def compute_capex(topology: Topology, params: OptimizerParams) -> Capex:
     proposed_capex: float = 0
     existing_capex: float = 0
 
+    # A node with an existing sector has already been purchased
+    existing_nodes = {
+        (sector.site.site_id, sector.node_id)
+        for sector in topology.sectors.values()
+        if sector.status_type == StatusType.EXISTING
+    }
+
     seen_nodes = set()
     for sector in topology.sectors.values():
-        # Only add node capex for one sector per node
-        if (sector.site.site_id, sector.node_id) in seen_nodes:
+        if sector.status_type not in StatusType.active_status():
             continue
 
-        seen_nodes.add((sector.site.site_id, sector.node_id))
+        # Only add node capex for one active sector per node
+        node_key = (sector.site.site_id, sector.node_id)
+        if node_key in seen_nodes:
+            continue
 
-        if sector.status_type == StatusType.PROPOSED:
-            proposed_capex += sector.site.device.node_capex
-        elif sector.status_type == StatusType.EXISTING:
+        seen_nodes.add(node_key)
+
+        if node_key in existing_nodes:
             existing_capex += sector.site.device.node_capex
+        else:
+            proposed_capex += sector.site.device.node_capex
 
     site_type_to_cost = {
         SiteType.POP: params.pop_site_capex,
-- 
2.43.0


From 698ba8e8121e045acf775753d294249a5e5f4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 04/58] fix: do not require sectors on active wired links

Wired links have no sectors, so every plan with an active wired link was
rejected by validate_topology_status and could not be reported on.
---
 terragraph_planner/optimization/topology_preparation.py | 7 +++++--
 terragraph_planner/optimization/topology_report.py      | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..6f20865 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1028,8 +1028,10 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Existing link {link.link_id} must be connected to existing sites.",
                 TopologyException,
             )
+            # Wired links do not use any sectors
             planner_assert(
-                link.tx_sector is not None
+                link.link_type == LinkType.ETHERNET
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 == StatusType.EXISTING
                 and link.rx_sector is not None
@@ -1047,7 +1049,8 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
+                link.link_type == LinkType.ETHERNET
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 in StatusType.active_status()
                 and link.rx_sector is not None
diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..3c0ecb1 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -414,7 +414,11 @@ def get_topology_metrics(
         and s.status_type in StatusType.active_status()
     }
     for link in topology.links.values():
-        if link.status_type in StatusType.active_status():
+        # Wired links do not use any sectors
+        if (
+            link.status_type in StatusType.active_status()
+            and link.link_type != LinkType.ETHERNET
+        ):
             tx_sector = none_throws(link.tx_sector)
             rx_sector = none_throws(link.rx_sector)
 
-- 
2.43.0


From fe8b475a410115091f5f4920ab70efc12fa9bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 05/58] fix: restore the edge data removed by disjoint_paths

The edges were put back without their link_type and link_cost, so the
failure and availability analyses of the same graph took wired and access
links for wireless backhaul links.
---
 .../optimization/topology_networkx.py              | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..b17214c 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -422,26 +422,20 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        removed_edges = []
         for n in range(1, len(shortest_path) - 2):
             tail_site_id = shortest_path[n + 1]
             if topology.sites[tail_site_id].site_type == SiteType.CN:
                 break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            removed_edges.append((*edge, graph.edges[edge]))
+            graph.remove_edge(*edge)
 
         if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
             demand_with_disjoint_paths.add(demand_id)
 
         # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
+        graph.add_edges_from(removed_edges)
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From 83c7ab951f86179a1ed5dad5bc9a20f6a8a6091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 06/58] fix: find adversarial links when an active link has no
 capacity

The edge of such a link is not in the candidate graph and removing it
raised a NetworkXError.
---
 .../optimization/topology_networkx.py               | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index b17214c..0e61a02 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -257,12 +257,17 @@ def find_most_disruptive_links(
         elif (u, v) in disruptive_edges:
             continue
 
+        # Edges without capacity are not in the candidate graph
+        has_fwd = candidate_graph.has_edge(u, v)
         has_rev = candidate_graph.has_edge(v, u)
+        if not has_fwd and not has_rev:
+            continue
 
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
         # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
+        if has_fwd:
+            candidate_graph_copy.remove_edge(u, v)
         if has_rev:
             candidate_graph_copy.remove_edge(v, u)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
@@ -270,11 +275,13 @@ def find_most_disruptive_links(
         candidate_disruptions = candidate_connected_demands - descendents
 
         if len(candidate_disruptions) == 0:
-            disruptive_edges.add((u, v))
+            if has_fwd:
+                disruptive_edges.add((u, v))
             if has_rev:
                 disruptive_edges.add((v, u))
         else:
-            candidate_graph_copy.add_edge(u, v)
+            if has_fwd:
+                candidate_graph_copy.add_edge(u, v)
             if has_rev:
                 candidate_graph_copy.add_edge(v, u)
     end = time.time()
-- 
2.43.0


From 08f1d2ca6d9a0ccdff3ac2f065ea97ab97322a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 07/58] fix: report the metrics of a plan without active links

The statistics of the link utilization divided by zero.
---
 terragraph_planner/optimization/topology_report.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 3c0ecb1..29fd22b 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -379,9 +379,15 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                min=min(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
             ),
         )
     else:
-- 
2.43.0


From 7df4741e22ea40ebe1eb97e90a20bf2b98300f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 08/58] fix: report the disruptions of a link and its reverse

Disruptions are keyed by the sorted pair of sites, so only one direction
of a link showed the demand sites its failure disconnects.
---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 29fd22b..6073077 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -298,7 +298,10 @@ def add_statistics_to_topology(
                 if routing_solution
                 else 0.0
             )
-            link.breakdowns = len(edge_failure_disruptions.get(link_key, []))
+            # An edge and its reverse fail together
+            link.breakdowns = len(
+                edge_failure_disruptions.get(link.sorted_site_ids, [])
+            )
 
     for site in topology.sites.values():
         site.breakdowns = (
-- 
2.43.0


From 95efbd286e6e2fd4d6d6593002ff76e8c82a602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 09/58] fix: give sectors on unavailable sites the status of
 the site

Preparing a topology with an unavailable site that has wireless links
raised a TopologyException, because candidate sectors were created on it.
---
 terragraph_planner/optimization/topology_preparation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 6f20865..15811fe 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -196,7 +196,9 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +249,9 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
-- 
2.43.0


From f618378ca9e107b11e298aeac2b21838826536a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 10/58] fix: place uniform demand next to the antimeridian

---
 terragraph_planner/optimization/topology_demand.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..869fff5 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -147,6 +147,14 @@ def _add_uniform_demand_sites(
     bottom -= dy
     top += dy
 
+    # The buffer can cross the antimeridian even if the sites do not
+    if left < -180:
+        left += 360
+        antimeridian = True
+    if right > 180:
+        right -= 360
+        antimeridian = True
+
     longitude = left
     while longitude <= right or (antimeridian and longitude >= left):
         latitude = bottom
-- 
2.43.0


From 7dfbd9a7710a1c03c92b808c0b33930dbb24d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 11/58] fix: report the metrics of a plan without active POPs

The average disruption of a POP failure divided by zero.
---
 terragraph_planner/optimization/topology_report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 6073077..65e2041 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -542,7 +542,9 @@ def get_topology_metrics(
 
     pop_failures = [len(v) for v in pop_failure_disruptions.values()]
     pop_fail_effect = MetricStatistics(
-        avg=sum(pop_failures) / component_counts.active_pop_sites,
+        avg=sum(pop_failures) / component_counts.active_pop_sites
+        if component_counts.active_pop_sites > 0
+        else 0,
         max=max(pop_failures) if len(pop_failures) > 0 else 0,
         min=min(pop_failures)
         if len(pop_failures) > 0
-- 
2.43.0


From 912a71fd743f10f5f0e56c5cb6e3393e2d76d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 12/58] fix: find connectable demand without touching the
 topology

---
 .../ilp_models/network_optimization.py        | 30 ++++---------------
 .../optimization/topology_operations.py       | 25 ++++++++++++++--
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..fdaeb36 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -155,31 +154,14 @@ class NetworkOptimization(OptimizationSetup):
         """
         if status_filter is None:
             status_filter = StatusType.reachable_status()
-        ignore_links = self._get_ignore_links()
-        ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
+        # The topology itself is left untouched: the statuses of existing and
+        # unavailable elements cannot be changed
         reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+            self.topology,
+            status_filter,
+            ignore_sites=self._get_ignore_sites(),
+            ignore_links=self._get_ignore_links(),
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index cb8c377..1562c7c 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -57,14 +57,21 @@ logger: logging.Logger = logging.getLogger(__name__)
 def hops_from_pops(
     topology: Topology,
     status_filter: Optional[Set[StatusType]],
+    ignore_sites: Optional[Set[str]] = None,
+    ignore_links: Optional[Set[Tuple[str, str]]] = None,
 ) -> Dict[str, int]:
     if status_filter is None:
         status_filter = set(StatusType)
+    ignore_sites = ignore_sites or set()
+    ignore_links = ignore_links or set()
     hop_counts = {}
     current_site_ids = topology.get_site_ids(
         status_filter=status_filter,
         site_type_filter={SiteType.POP},
     )
+    current_site_ids = {
+        site_id for site_id in current_site_ids if site_id not in ignore_sites
+    }
     site_count = len(current_site_ids)
     if site_count == 0:
         logger.info("No POP sites in topology using the given status filter")
@@ -82,6 +89,8 @@ def hops_from_pops(
             if (
                 link.tx_site.site_id in current_site_ids
                 and link.status_type in status_filter
+                and (link.tx_site.site_id, link.rx_site.site_id)
+                not in ignore_links
             )
         ]
         new_ids = {
@@ -91,6 +100,7 @@ def hops_from_pops(
             if (
                 topology.sites[site_id].status_type in status_filter
                 and site_id not in current_site_ids
+                and site_id not in ignore_sites
             )
         }
         if len(new_ids) > 0:
@@ -103,12 +113,21 @@ def hops_from_pops(
 
 
 def get_reachable_demand_sites(
-    topology: Topology, status_filter: Set[StatusType]
+    topology: Topology,
+    status_filter: Set[StatusType],
+    ignore_sites: Optional[Set[str]] = None,
+    ignore_links: Optional[Set[Tuple[str, str]]] = None,
 ) -> Set[str]:
     """
-    Get all demand sites that can be reached from any POP.
+    Get all demand sites that can be reached from any POP without the ignored
+    sites and links.
     """
-    hops_counts = hops_from_pops(topology, status_filter=status_filter)
+    hops_counts = hops_from_pops(
+        topology,
+        status_filter=status_filter,
+        ignore_sites=ignore_sites,
+        ignore_links=ignore_links,
+    )
     reachable_demand_sites = set()
     for demand_site in topology.demand_sites.values():
         for site in demand_site.connected_sites:
-- 
2.43.0


From 408607b3088c21812841c0f34cdb2361122e0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 13/58] fix: leave the caller's optimizer parameters untouched

---
 .../optimization/ilp_models/pop_proposal_optimization.py | 9 +--------
 .../optimization/ilp_models/redundancy_optimization.py   | 6 ++----
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..3c2a68a 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -194,20 +194,13 @@ class POPProposalNetwork(SiteOptimization):
         # Do not propose all POPs
         # Connected demand site optimization is not currently set up to handle
         # POP constraints, so do not run common bandwidth
-        ignore_polarities = params.ignore_polarities
-        always_active_pops = params.always_active_pops
-        maximize_common_bandwidth = params.maximize_common_bandwidth
+        params = deepcopy(params)
         params.ignore_polarities = True
         params.always_active_pops = False
         params.maximize_common_bandwidth = False
 
         super(POPProposalNetwork, self).__init__(access_topology, params, set())
 
-        # Restore parameter values
-        params.ignore_polarities = ignore_polarities
-        params.always_active_pops = always_active_pops
-        params.maximize_common_bandwidth = maximize_common_bandwidth
-
     def create_pop_constraint(self) -> None:
         num_input_pops = len(
             [
diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index a8568a9..6d558a3 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -7,6 +7,7 @@
 import logging
 import math
 import time
+from copy import deepcopy
 from itertools import product
 from typing import Any, List, Optional, Set, Tuple
 
@@ -66,14 +67,11 @@ class RedundantNetwork(SiteOptimization):
     ) -> None:
         # Maximize common bandwidth is not relevant for redundancy
         # Set to false for site optimization initialization
-        maximize_common_bandwidth = params.maximize_common_bandwidth
+        params = deepcopy(params)
         params.maximize_common_bandwidth = False
 
         super(RedundantNetwork, self).__init__(topology, params, set())
 
-        # Restore parameter value
-        params.maximize_common_bandwidth = maximize_common_bandwidth
-
         # Collect all the DNs for which redundancy is being built
         self.dns: List[str] = [
             loc
-- 
2.43.0


From 9b1120abc78fac96921431829f66376e4363d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 14/58] fix: copy the attributes of the incoming link to the
 duplicated POP

---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 3c2a68a..27a412c 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -124,8 +124,8 @@ def add_duplicate_pop_to_dn_site(
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From 09d4e5581c71a324c165c4d83d565baa971a54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 15/58] fix: propose extra POPs in networks with existing POPs

---
 .../optimization/ilp_models/pop_proposal_optimization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 27a412c..5e11978 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -259,10 +259,11 @@ class POPProposalNetwork(SiteOptimization):
             ):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
-                # but do it just to be consistent
-                self.topology.sites[
-                    site.site_id
-                ].status_type = StatusType.PROPOSED
+                # but do it just to be consistent (existing POPs stay existing)
+                if site.status_type != StatusType.EXISTING:
+                    self.topology.sites[
+                        site.site_id
+                    ].status_type = StatusType.PROPOSED
 
         self.set_up_problem_skeleton(
             rel_stop=self.params.pop_proposal_rel_stop,
-- 
2.43.0


From 94e7eb16a0cf857883071c08a29c0910336aea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 16/58] fix: activate all sectors of a node together

---
 .../optimization/ilp_models/network_optimization.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index fdaeb36..c6819e0 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -387,7 +387,7 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
@@ -402,7 +402,7 @@ class NetworkOptimization(OptimizationSetup):
                     == xp.Sum(
                         self.sector_vars[loc2, sec2, channel]
                         for channel in range(self.number_of_channels)
-                        if (loc1, sec1, channel) in self.sector_vars
+                        if (loc2, sec2, channel) in self.sector_vars
                     )
                 )
 
-- 
2.43.0


From 36e44977e221c94b140830e996d74925c7e8423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 17/58] fix: never select an inactive POP

---
 .../optimization/ilp_models/network_optimization.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index c6819e0..3165dc7 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -827,14 +827,15 @@ class NetworkOptimization(OptimizationSetup):
         # links because topology validation ensures their connected sites are
         # already active
         for loc in self.locations:
-            if (
+            if loc in self.inactive_sites:
+                self.problem.addConstraint(self.site_vars[loc] == 0)
+            elif (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
             ):
+                # Colocated sites handled in create_colocated_site_relationship
                 if (
-                    loc not in self.inactive_sites
-                    # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
@@ -853,8 +854,6 @@ class NetworkOptimization(OptimizationSetup):
                     <= 1
                 ):
                     self.problem.addConstraint(self.site_vars[loc] == 1)
-            elif loc in self.inactive_sites:
-                self.problem.addConstraint(self.site_vars[loc] == 0)
 
     def create_active_link_polarity_constraints(self) -> None:
         if self.params.ignore_polarities:
-- 
2.43.0


From a9e1980727c515cbdcc71a036dabc4e98b6cd921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 18/58] fix: accept existing wired links in the interference
 model

---
 .../optimization/ilp_models/interference_optimization.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..45fdf70 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -370,7 +370,9 @@ class MinInterferenceNetwork(NetworkOptimization):
             # Ensure one of the sectors are active if the link is active
             (sector1, sector2) = self.link_to_sectors.get((i, j), (None, None))
             planner_assert(
-                sector1 is not None or sector2 is not None,
+                (i, j) in self.wired_links
+                or sector1 is not None
+                or sector2 is not None,
                 f"No sector found for link {i}-{j}",
                 OptimizerException,
             )
-- 
2.43.0


From 4acee505c5f733f75f55a3aa7fe71f70a6b18fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 19/58] fix: coverage constraint without connectable demand
 sites

---
 .../optimization/ilp_models/network_optimization.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 3165dc7..36053c0 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -745,6 +745,9 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            # Without any connectable demand sites, there is nothing to cover
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
-- 
2.43.0


From 78e2372e2057d732d87b97e5ac8f87abf4734ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 20/58] fix: sites on unknown buildings are not on the same
 building

---
 terragraph_planner/los/base_los_validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..60cf0b5 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -108,6 +111,8 @@ class BaseLOSValidator(ABC):
             site1.location_type
             == site2.location_type
             == LocationType.ROOFTOP.value
+            and site1.building_id is not None
+            and site1.building_id > UNKNOWN_BUILDING_ID
             and site1.building_id == site2.building_id
         )
 
-- 
2.43.0


From 675fd3a935e46d1977a62012388ddd5a15b89a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 21/58] fix: link new sites to the sites of the base topology

---
 terragraph_planner/los/helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..43ef70d 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -897,6 +897,9 @@ def add_sites_to_topology(
             if site.site_id not in topology.sites:
                 topology.add_site(site)
                 site_map[site_idx] = [site]
+            # Sites of the base topology are already in the topology
+            elif topology.sites[site.site_id] is site:
+                site_map[site_idx] = [site]
         else:
             detected_site = site
             # If the site is detected at the building rooftop by the planner
-- 
2.43.0


From a3baba734dc326d4c324a00301c35167db72dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 22/58] fix: reuse LOS results only for pairs on the same
 buildings

---
 terragraph_planner/los/helper.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 43ef70d..0b28d0c 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,13 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From d42b48813782ae273be97883098455bc39209394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 23/58] fix: escape the topology name in KML output

---
 terragraph_planner/common/data_io/topology_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..ebfaeaa 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -475,7 +475,7 @@ def _set_styles(markup_string: StringIO, topology_name: Optional[str]) -> None:
         <kml xmlns="http://www.opengis.net/kml/2.2"
              xmlns:gx="http://www.google.com/kml/ext/2.2">
         <Document>
-        <name>{topology_name or "topology"}</name>
+        <name>{escape(topology_name or "topology")}</name>
         <Schema name="site_metadata" id="site_metadata">
             <SimpleField name="description" type="string"></SimpleField>
             <SimpleField name="site_hash" type="string"></SimpleField>
-- 
2.43.0


From cc72341f0fb20ddcf137cb42ebd564afb3837428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 24/58] fix: define the style of unreachable POPs

---
 terragraph_planner/common/data_io/topology_serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index ebfaeaa..7467642 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -37,6 +37,7 @@ from terragraph_planner.optimization.constants import UNASSIGNED_CHANNEL
 SITE_STYLES: Dict[str, Dict[str, Tuple[str, str, float]]] = {
     "POP": {
         "UNAVAILABLE": ("placemark_square", "ffe1b9f7", 1.0),
+        "UNREACHABLE": ("placemark_square", "ffe1b9f7", 1.0),
         "CANDIDATE": ("placemark_square", "ffe1b9f7", 1.0),
         "PROPOSED": ("placemark_square", "ffe1b9f7", 1.0),
         "EXISTING": ("placemark_square", "ffe1b9f7", 1.0),
-- 
2.43.0


From 765332c874a4f7291fd743f495c4f22f192d4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 25/58] fix: take the first matching data field of a KML
 feature

---
 terragraph_planner/common/data_io/kml_library.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..5d16106 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -35,14 +35,12 @@ def _get_feature_field(
     Get the value from the corresponding filed of an ogr feature.
     Only the first field in the feature would be returned if multiple matches.
     """
-    try:
-        feature_key_set = {k.casefold() for k in feature.keys()}
-        field = feature.GetField(
-            (feature_key_set & input.value.possible_input_names).pop()
-        )
-        return field if field is not None else ""
-    except:
-        return ""
+    for idx, key in enumerate(feature.keys()):
+        if key.casefold() in input.value.possible_input_names:
+            field = feature.GetField(idx)
+            if field is not None:
+                return str(field)
+    return ""
 
 
 def _get_site_altitude_height(
-- 
2.43.0


From f3748f4d67d1c4e24872b0fda8ffa934e77b6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 26/58] fix: read fractional confidence levels of KML links

---
 terragraph_planner/common/data_io/kml_library.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 5d16106..64aed59 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -43,6 +43,16 @@ def _get_feature_field(
     return ""
 
 
+def _to_float(value: str) -> Optional[float]:
+    """
+    Convert the value of a data field to float, or None if it's not a number.
+    """
+    try:
+        return float(value)
+    except ValueError:
+        return None
+
+
 def _get_site_altitude_height(
     altitude_mode: str, altitude: Optional[float]
 ) -> Tuple[Optional[float], Optional[float]]:
@@ -142,9 +152,7 @@ def extract_links(
         link = RawLink(
             status_type=status_type,
             link_type=link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=_to_float(confidence_level),
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From 5a34c668af13b8f1bc882049a1f7ddbd6ff9260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 27/58] fix: fall back to the link type of the KML folder

---
 terragraph_planner/common/data_io/kml_library.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 64aed59..a876534 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -141,17 +141,15 @@ def extract_links(
     for feature in layer:
         geometry = feature.GetGeometryRef()
         link_type_str = _get_feature_field(feature, LinkKey.LINK_TYPE)
-        link_type = (
-            LinkType[link_type_str.upper()]
-            if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
+        link_type_in_field = LinkType.__members__.get(
+            link_type_str.upper(), link_type
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
         link = RawLink(
             status_type=status_type,
-            link_type=link_type,
+            link_type=link_type_in_field,
             confidence_level=_to_float(confidence_level),
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
-- 
2.43.0


From 2ae70704f962691ad776cea0590270f83cead466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 28/58] fix: locate the sites of KML links without site names

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 terragraph_planner/common/structs.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index a876534..193686b 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -151,10 +151,10 @@ def extract_links(
             status_type=status_type,
             link_type=link_type_in_field,
             confidence_level=_to_float(confidence_level),
-            tx_site_name=tx_site_name,
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
             rx_latitude=geometry.GetPoint(1)[1],
             rx_longitude=geometry.GetPoint(1)[0],
         )
diff --git a/terragraph_planner/common/structs.py b/terragraph_planner/common/structs.py
index 4fdd8b6..3f06aa9 100644
--- a/terragraph_planner/common/structs.py
+++ b/terragraph_planner/common/structs.py
@@ -83,10 +83,10 @@ class RawLink(NamedTuple):
     link_type: LinkType
     status_type: StatusType
     confidence_level: Optional[float]
-    tx_site_name: str
+    tx_site_name: Optional[str]
     tx_latitude: float
     tx_longitude: float
-    rx_site_name: str
+    rx_site_name: Optional[str]
     rx_latitude: float
     rx_longitude: float
 
-- 
2.43.0


From d6600292646bf587d835093db433041aa4fb4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 29/58] fix: accept rooftop sites without building id in
 topology files

---
 terragraph_planner/common/data_io/input_sites_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..cdb5199 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,9 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            # The building id is not necessarily provided in the topology file
+            if location_type == LocationType.ROOFTOP and building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From acae8205931bcdf010d4bac3297637d6c3eb9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 30/58] fix: treat blank device SKUs in CSV files as not
 provided

---
 terragraph_planner/common/data_io/csv_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..2fe00da 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -197,7 +197,7 @@ def load_input_sites_from_csv_file(
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-- 
2.43.0


From 4c978fc7fa0b98c4279dd0694004cf549aecc3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 31/58] fix: accept blank altitudes and heights in CSV files

---
 terragraph_planner/common/data_io/csv_library.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 2fe00da..b0d2d73 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -62,6 +62,16 @@ def dms_to_decimal(dms: str) -> float:
         return 0
 
 
+def _to_float(value: str) -> Optional[float]:
+    """
+    Convert a cell of a numeric column to float, or None if it's blank.
+    """
+    try:
+        return float(value) if len(value.strip()) > 0 else None
+    except ValueError:
+        raise DataException(f"Provided input contains a malformed number: {value}.")
+
+
 def load_csv_and_validate(
     csv_file_path: str,
     input_key_list: List[DataKey],
@@ -151,6 +161,9 @@ def load_csv_and_validate(
                 df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
                     row[SiteKey.NUMBER_OF_SUBSCRIBERS]
                 )
+        for input_key in (SiteKey.ALTITUDE, SiteKey.HEIGHT):
+            if input_key in row and isinstance(row[input_key], str):
+                df.loc[idx, input_key] = _to_float(row[input_key])
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
-- 
2.43.0


From ac0e3f5f10abb0b3f038f552d8f92f794710f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 32/58] fix: read the location type of sites in CSV files

---
 terragraph_planner/common/data_io/csv_library.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index b0d2d73..6a41745 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -207,6 +207,11 @@ def load_input_sites_from_csv_file(
         longitude = site_row[SiteKey.LONGITUDE]
         if latitude is None or longitude is None:
             continue
+        location_type = LocationType.__members__.get(
+            site_row.get(SiteKey.LOCATION_TYPE, "").upper(),
+            LocationType.UNKNOWN,
+        )
+        building_id = site_row.get(SiteKey.BUILDING_ID, "")
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
@@ -216,8 +221,10 @@ def load_input_sites_from_csv_file(
             longitude=longitude,
             altitude=site_row.get(SiteKey.ALTITUDE, None),
             height=site_row.get(SiteKey.HEIGHT, None),
-            location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            location_type=location_type,
+            building_id=int(building_id)
+            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            else None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From ab3b80de1e87faa6729f399c11ab182863dcab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 33/58] fix: read the collection time of GeoTIFF files

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..70fbe11 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -147,7 +147,7 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
+            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
             if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
             else None,
         )
-- 
2.43.0


From 54d2e5b3b66b9516c13de33decff2b33861a9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 34/58] fix: ignore the case of the file extension when
 choosing the reader

---
 terragraph_planner/common/data_io/building_group_loader.py | 2 +-
 terragraph_planner/common/data_io/utils.py                 | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 1f92809..c064604 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -42,7 +42,7 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
 
     def read(self, file_path: str) -> BuildingGroup:
         try:
-            if file_path.endswith("zip"):
+            if file_path.casefold().endswith("zip"):
                 return self._read_from_shapefile(file_path)
             else:
                 return self._read_from_kml(file_path)
diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index 2f9e40b..df752ee 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -277,9 +277,7 @@ def extract_topology_from_file(
         ]
     ],
 ) -> Topology:
-    if topology_file_path.endswith(".kml") or topology_file_path.endswith(
-        ".kmz"
-    ):
+    if topology_file_path.casefold().endswith((".kml", ".kmz")):
         return extract_topology_from_kml_file(
             topology_file_path, device_list, infer_input_site_location
         )
-- 
2.43.0


From 9018dd5926cc04a9dd157579a66d580c092dab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 35/58] fix: find the shapefile in zip files with folders

---
 .../common/data_io/building_group_loader.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index c064604..472443f 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -15,6 +15,7 @@ from shapely import geometry, wkt
 
 from terragraph_planner.common.constants import LAT_LON_EPSG
 from terragraph_planner.common.data_io.building_group_rules import (
+    MAC_RESOURCE_FORK_DIR,
     BuildingGroupRules,
     ZippedShpFileRules,
 )
@@ -60,13 +61,20 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             self.validate_shp_file(zip_ref.namelist())
             zip_ref.extractall(unzipped_dir)
             dir_names = [
-                ref.filename for ref in zip_ref.infolist() if ref.is_dir()
+                ref.filename
+                for ref in zip_ref.infolist()
+                if ref.is_dir()
+                and os.path.dirname(ref.filename) != MAC_RESOURCE_FORK_DIR
             ]
             if len(dir_names) > 1:
                 raise DataException(
                     "Zip folder that contains shape files must not contain any other folders."
                 )
-        dir_name = unzipped_dir if len(dir_names) == 0 else dir_names[0]
+        dir_name = (
+            unzipped_dir
+            if len(dir_names) == 0
+            else os.path.join(unzipped_dir, dir_names[0])
+        )
 
         # Get input layer and CRS
         shp_file_path = glob.glob(os.path.join(dir_name, "*.shp"))[0]
-- 
2.43.0


From 909414a1d7a323bb3bc2e662c088c02c16ad6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 36/58] fix: release the topology zip file and its temporary
 directory on errors

---
 terragraph_planner/common/data_io/utils.py | 31 ++++++++--------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index df752ee..f5a7635 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -4,7 +4,6 @@
 # LICENSE file in the root directory of this source tree.
 
 import os
-import shutil
 import tempfile
 from collections import defaultdict
 from itertools import product
@@ -282,27 +281,19 @@ def extract_topology_from_file(
             topology_file_path, device_list, infer_input_site_location
         )
     else:
-        zip_ref = ZipFile(topology_file_path, "r")
-        planner_assert(
-            "sites.csv" in zip_ref.namelist()
-            and "links.csv" in zip_ref.namelist(),
-            'A "sites.csv" file and a "links.csv" file must be contained at'
-            "the top level of the zipped candidate file.",
-            DataException,
-        )
-        tmp_dir = tempfile.mkdtemp()
-        zip_ref.extractall(tmp_dir)
-        try:
-            topology = extract_topology_from_csv_files(
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            with ZipFile(topology_file_path, "r") as zip_ref:
+                planner_assert(
+                    "sites.csv" in zip_ref.namelist()
+                    and "links.csv" in zip_ref.namelist(),
+                    'A "sites.csv" file and a "links.csv" file must be contained at'
+                    "the top level of the zipped candidate file.",
+                    DataException,
+                )
+                zip_ref.extractall(tmp_dir)
+            return extract_topology_from_csv_files(
                 os.path.join(tmp_dir, "sites.csv"),
                 os.path.join(tmp_dir, "links.csv"),
                 device_list,
                 infer_input_site_location,
             )
-        except Exception as e:
-            shutil.rmtree(tmp_dir)
-            zip_ref.close()
-            raise e
-        shutil.rmtree(tmp_dir)
-        zip_ref.close()
-        return topology
-- 
2.43.0


From baf8d89fff25881b85efc661ffb9cfe85dbada48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 37/58] fix: close the building outline zip file on errors

---
 .../common/data_io/building_group_loader.py       | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 472443f..fe271d9 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -153,14 +153,13 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             prj_file.close
 
         # Compressed as a zip file
-        output_zf = zipfile.ZipFile(dest_file_path, "w")
-        for output_file in glob.glob(os.path.join(output_dir, "*")):
-            output_zf.write(
-                output_file,
-                arcname=os.path.basename(output_file),
-                compress_type=zipfile.ZIP_DEFLATED,
-            )
-        output_zf.close()
+        with zipfile.ZipFile(dest_file_path, "w") as output_zf:
+            for output_file in glob.glob(os.path.join(output_dir, "*")):
+                output_zf.write(
+                    output_file,
+                    arcname=os.path.basename(output_file),
+                    compress_type=zipfile.ZIP_DEFLATED,
+                )
         logger.info(
             f"The building outline data has been saved to {dest_file_path}."
         )
-- 
2.43.0


From 5f7319c9cadf7f85e610f37f13ba6cb2347a39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 38/58] fix: report unreadable topology zip files as data
 errors

---
 terragraph_planner/common/data_io/utils.py | 23 ++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index f5a7635..828b910 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -8,7 +8,7 @@ import tempfile
 from collections import defaultdict
 from itertools import product
 from typing import Callable, Dict, List, Optional, Tuple
-from zipfile import ZipFile
+from zipfile import BadZipFile, ZipFile
 
 from pyproj import Transformer
 from pyre_extensions import none_throws
@@ -282,15 +282,18 @@ def extract_topology_from_file(
         )
     else:
         with tempfile.TemporaryDirectory() as tmp_dir:
-            with ZipFile(topology_file_path, "r") as zip_ref:
-                planner_assert(
-                    "sites.csv" in zip_ref.namelist()
-                    and "links.csv" in zip_ref.namelist(),
-                    'A "sites.csv" file and a "links.csv" file must be contained at'
-                    "the top level of the zipped candidate file.",
-                    DataException,
-                )
-                zip_ref.extractall(tmp_dir)
+            try:
+                with ZipFile(topology_file_path, "r") as zip_ref:
+                    planner_assert(
+                        "sites.csv" in zip_ref.namelist()
+                        and "links.csv" in zip_ref.namelist(),
+                        'A "sites.csv" file and a "links.csv" file must be contained at'
+                        "the top level of the zipped candidate file.",
+                        DataException,
+                    )
+                    zip_ref.extractall(tmp_dir)
+            except (OSError, BadZipFile):
+                raise DataException(f"Could not read from {topology_file_path}.")
             return extract_topology_from_csv_files(
                 os.path.join(tmp_dir, "sites.csv"),
                 os.path.join(tmp_dir, "links.csv"),
-- 
2.43.0


From 030cdfd9cb5a59d7c8cf8fe66c432e8c3062a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 39/58] fix: report invalid enum values as configuration errors

---
 terragraph_planner/common/configuration/enums.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/configuration/enums.py b/terragraph_planner/common/configuration/enums.py
index d650534..80cfcdc 100644
--- a/terragraph_planner/common/configuration/enums.py
+++ b/terragraph_planner/common/configuration/enums.py
@@ -7,6 +7,8 @@ import logging
 from enum import Enum
 from typing import List, Set, Union
 
+from terragraph_planner.common.exceptions import ConfigException
+
 
 class EnumParser(Enum):
     def to_string(self) -> str:
@@ -15,11 +17,14 @@ class EnumParser(Enum):
     # To make the name case-insensitive
     @classmethod
     def from_string(cls, label: Union[str, int]) -> "EnumParser":
-        if isinstance(label, str):
-            return cls[label.upper()]
-        elif isinstance(label, int):
-            return cls(label)
-        raise Exception(f"Invalid input: {label}")
+        try:
+            if isinstance(label, str):
+                return cls[label.upper()]
+            elif isinstance(label, int):
+                return cls(label)
+        except (KeyError, ValueError):
+            pass
+        raise ConfigException(f"Invalid input: {label}")
 
     @classmethod
     def names(cls) -> List[str]:
-- 
2.43.0


From 6d65166759fcaa7d522c6568cc41d280f5de79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 40/58] fix: report malformed configuration files as
 configuration errors

---
 terragraph_planner/common/configuration/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/common/configuration/utils.py b/terragraph_planner/common/configuration/utils.py
index c33c81f..1be40dc 100644
--- a/terragraph_planner/common/configuration/utils.py
+++ b/terragraph_planner/common/configuration/utils.py
@@ -78,12 +78,15 @@ def _load_dict_from_file(
         "Only JSON or YAML file is supported.",
         ConfigException,
     )
-    if file_path.endswith(".json"):
-        with open(file_path) as f:
-            data = json.load(f)
-    else:
-        with open(file_path, "r") as f:
-            data = yaml.safe_load(f)
+    try:
+        if file_path.endswith(".json"):
+            with open(file_path) as f:
+                data = json.load(f)
+        else:
+            with open(file_path, "r") as f:
+                data = yaml.safe_load(f)
+    except (ValueError, yaml.YAMLError) as err:
+        raise ConfigException(f"file {file_path} is malformed: {err}")
     with open(TEMPLATE_YAML_FILE_PATH, "r") as fi:
         origin = yaml.safe_load(fi)
         _detect_typo(data, origin)
-- 
2.43.0


From 12a74addf3a660b044831669ba15c3151f7fabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 41/58] fix: report malformed numbers of subscribers as data
 errors

---
 terragraph_planner/common/data_io/csv_library.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6a41745..200a463 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -158,9 +158,14 @@ def load_csv_and_validate(
             if df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] == "":
                 df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = None
             elif isinstance(row[SiteKey.NUMBER_OF_SUBSCRIBERS], str):
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
-                    row[SiteKey.NUMBER_OF_SUBSCRIBERS]
-                )
+                try:
+                    df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
+                        row[SiteKey.NUMBER_OF_SUBSCRIBERS]
+                    )
+                except ValueError:
+                    raise DataException(
+                        "Provided input contains a malformed number of subscribers."
+                    )
         for input_key in (SiteKey.ALTITUDE, SiteKey.HEIGHT):
             if input_key in row and isinstance(row[input_key], str):
                 df.loc[idx, input_key] = _to_float(row[input_key])
-- 
2.43.0


From 39d3631d10c46ea95bc05890bb22820b939e713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 42/58] fix: report malformed scan patterns as data errors

---
 terragraph_planner/common/data_io/csv_library.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 200a463..0133158 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -371,17 +371,17 @@ def read_scan_pattern_data(
     pattern_data = {}
     try:
         df = pd.read_csv(pattern_file_path, index_col=0)
+        df_dict = df.to_dict("index")
+        pattern_data = {
+            float(hor): {float(ver): float(v) for ver, v in row.items()}
+            for hor, row in df_dict.items()
+        }
     except Exception:
         planner_assert(
             False,
             "Imported scan pattern file is not in the expected .csv format!",
             DataException,
         )
-    df_dict = df.to_dict("index")
-    pattern_data = {
-        float(hor): {float(ver): float(v) for ver, v in row.items()}
-        for hor, row in df_dict.items()
-    }
     return pattern_data
 
 
-- 
2.43.0


From ab1608f645aed7601e63e7f463e20932aa37e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 43/58] fix: read antenna patterns with blank rows

---
 terragraph_planner/common/data_io/csv_library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 0133158..350dc8a 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -321,6 +321,7 @@ def read_antenna_pattern_data(
         data = data.replace("", pd.NA)
         # drop columns and rows filled with NA values
         data = data.dropna(axis=1, how="all").dropna(axis=0, how="all")
+        data = data.reset_index(drop=True)
     except Exception:
         planner_assert(
             False,
-- 
2.43.0


From 4aa40377372219af485b550d86c09e6a326413f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 44/58] fix: report antenna patterns without sections as data
 errors

---
 terragraph_planner/common/data_io/csv_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 350dc8a..5df3079 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -329,15 +329,15 @@ def read_antenna_pattern_data(
             DataException,
         )
     idx = data[data[0] == "NAME"].index
-    if len(idx) == 0:
+    az_startlist = data[data[0] == "HORIZONTAL"].index
+    el_startlist = data[data[0] == "VERTICAL"].index
+    if len(idx) == 0 or not len(idx) == len(az_startlist) == len(el_startlist):
         planner_assert(
             False,
             "Imported antenna pattern file is not in the typical .pln format!",
             DataException,
         )
 
-    az_startlist = data[data[0] == "HORIZONTAL"].index
-    el_startlist = data[data[0] == "VERTICAL"].index
     for i in range(len(idx)):
         az_start = az_startlist[i]
         el_start = el_startlist[i]
-- 
2.43.0


From 7b47dc0d2809f500c918e04b8adb2b7bb4d8b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 45/58] fix: refer only to defined styles for highly utilized
 links in KML

---
 terragraph_planner/common/data_io/topology_serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index 7467642..aa915a5 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -358,6 +358,7 @@ def _link_markup(
     if (
         max(util, reverse_util) > HIGH_UTIL_THRES
         and link.link_type.is_wireless()
+        and link.status_type.to_string() in HIGH_UTIL_LINK_COLORS
     ):
         high_util_string = HIGH_UTIL_STR
 
-- 
2.43.0


From 35a9ea1fc3c7e4b593e369cb6ac1cfefedf96eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 46/58] fix: write sites without altitude with valid KML
 coordinates

---
 .../common/data_io/topology_serializer.py            | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index aa915a5..56ba778 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -288,7 +288,7 @@ def _site_markup(
         </ExtendedData>
         <Point>
             <altitudeMode>{altitude_mode}</altitudeMode>
-            <coordinates>{site.longitude},{site.latitude},{site.altitude}</coordinates>
+            <coordinates>{_coordinates(site)}</coordinates>
         </Point>
     </Placemark>
     """
@@ -372,14 +372,20 @@ def _link_markup(
         </ExtendedData>
         <LineString>
             <altitudeMode>{tx_altitude_mode}</altitudeMode>
-            <coordinates> {tx_site.longitude},{tx_site.latitude},{tx_site.altitude}
-            {rx_site.longitude},{rx_site.latitude},{rx_site.altitude}
+            <coordinates> {_coordinates(tx_site)}
+            {_coordinates(rx_site)}
             </coordinates>
         </LineString>
     </Placemark>
     """
 
 
+def _coordinates(site: "Site") -> str:
+    # KML ignores the altitude of what is clamped to the ground
+    altitude = 0 if site.altitude is None else site.altitude
+    return f"{site.longitude},{site.latitude},{altitude}"
+
+
 def _data_field_markup(field_name: str, field_value: str) -> str:
     return f"""
         <Data name="{field_name}">
-- 
2.43.0


From c500d5878c09f30e173cd7e4d57f6eb55c8aa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 47/58] fix: write KML files in the encoding they declare

---
 terragraph_planner/common/data_io/topology_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index 56ba778..dbff3a0 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -157,7 +157,7 @@ def write_to_kml_file(
     kml = markup_string.getvalue()
     markup_string.close()
 
-    with open(kml_file_path, "w") as kfile:
+    with open(kml_file_path, "w", encoding="utf-8") as kfile:
         kfile.write(kml)
 
 
-- 
2.43.0


From 0601b1ddb45a9dcadc0064e85ceecbe8a80a6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 48/58] fix: report unexpected values in config files as
 ConfigException

---
 terragraph_planner/common/configuration/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/configuration/utils.py b/terragraph_planner/common/configuration/utils.py
index 1be40dc..7a40c93 100644
--- a/terragraph_planner/common/configuration/utils.py
+++ b/terragraph_planner/common/configuration/utils.py
@@ -95,8 +95,8 @@ def _load_dict_from_file(
 
 
 def struct_objects_from_file(obj_name: str, file_path: str) -> ConfigParser:
-    data_dict = _load_dict_from_file(file_path)
     try:
+        data_dict = _load_dict_from_file(file_path)
         if obj_name == SYSTEM:
             # If system parameters are missing in the config file, the default
             # is used and there's no raised exception.
@@ -128,3 +128,5 @@ def struct_objects_from_file(obj_name: str, file_path: str) -> ConfigParser:
         raise ConfigException(
             f"Bad input file. Missing necessary key(s): {err}"
         )
+    except (AttributeError, TypeError, ValueError) as err:
+        raise ConfigException(f"Bad input file. Unexpected value(s): {err}")
-- 
2.43.0


From 6c44ee6b05ae3db9f245505f0213db974af2b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 49/58] fix: reject MCS mapping files without any data row

---
 terragraph_planner/common/data_io/csv_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 5df3079..379f554 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -414,7 +414,7 @@ def read_mcs_snr_mbps_map_data(
             DataException,
         )
     planner_assert(
-        len(raw_data) > 0,
+        len(raw_data) > 1,
         "The csv file must contain at least two lines including column names.",
         DataException,
     )
-- 
2.43.0


From c2f44002edfcf0cfec38c5a497ab29cb28cda409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 50/58] fix: reject antenna patterns with missing loss entries

---
 terragraph_planner/common/data_io/csv_library.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 379f554..97a1355 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -354,6 +354,11 @@ def read_antenna_pattern_data(
                 "Imported antenna pattern file has an unexpected number of loss entries!",
                 DataException,
             )
+        planner_assert(
+            len(az_pattern) == 360 and len(el_pattern) == 360,
+            "Imported antenna pattern file has an unexpected number of loss entries!",
+            DataException,
+        )
         antenna_pattern = [
             (-1 * az_pattern[1]).values.tolist(),
             (-1 * el_pattern[1]).values.tolist(),
-- 
2.43.0


From eae66bfdbbe2d3a9c22cc47b2b8929a0cc366569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 51/58] fix: raise ConfigException instead of bare Exception
 for config objects

---
 terragraph_planner/common/configuration/configs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 813e3e3..ff9b1ab 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -75,7 +75,7 @@ class ConfigParser:
                 elif isinstance(value, EnumParser):
                     func_arg_val[key] = value.to_string()
                 else:
-                    raise Exception(
+                    raise ConfigException(
                         "No internal definition with {type(value).}"
                     )
         return func_arg_val
@@ -132,7 +132,7 @@ class ConfigParser:
                         try:
                             func_arg_val[key] = value
                         except AttributeError as err:
-                            raise Exception(f"Unexpected input objects: {err}")
+                            raise ConfigException(f"Unexpected input objects: {err}")
             elif isinstance(value, dict):
                 for sub_key, sub_value in value.items():
                     if sub_key.casefold() in set(args):
-- 
2.43.0


From f8141db162320788da094468195ce04005649127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 52/58] fix: keep the order of simultaneous failure and repair
 events

---
 .../optimization/topology_availability.py             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..ed98847 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,8 +83,9 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time are handled in the order they are generated
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, 0, ("", ""), _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +108,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, len(events), key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, len(events), key, _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +130,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
-- 
2.43.0


From 8b41c8f864600426b9a1aa4e8d8c66e18fe1dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 53/58] fix: keep cells without data when adding or subtracting
 elevations

NO_DATA_VALUE plus a height is not NO_DATA_VALUE: the sum of a DTM and a DHM
took altitudes around -32768 m for terrain.
---
 terragraph_planner/los/elevation.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..d797f00 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -281,10 +281,26 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _keep_no_data(
+        self,
+        other_geogrids: "Elevation",
+        data_matrix: npt.NDArray[np.float32],
+    ) -> npt.NDArray[np.float32]:
+        """
+        There is no data where either of the two operands has no data
+        """
+        no_data = (self.data_matrix == NO_DATA_VALUE) | (
+            other_geogrids.data_matrix == NO_DATA_VALUE
+        )
+        return np.where(no_data, np.float32(NO_DATA_VALUE), data_matrix)
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                self._keep_no_data(
+                    other_geogrids,
+                    self.data_matrix + other_geogrids.data_matrix,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -302,7 +318,10 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                self._keep_no_data(
+                    other_geogrids,
+                    self.data_matrix - other_geogrids.data_matrix,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From ea84d4cd671166404c88617c1880f2d7526e834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 54/58] fix: do not read the opposite side of an elevation
 matrix

A bound left of or above the raster gave negative indices, which count from
the end of the matrix.
---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index d797f00..2ac2423 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -261,8 +261,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # A negative index would count from the opposite side of the matrix
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From f7cd23fef980c99144c623e33fc013c30d1cdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 55/58] fix: resample DSM and DHM to the same resolution before
 subtracting

as it is done for the DTM and DHM; otherwise a DSM and a DHM of different
resolutions are refused.
---
 terragraph_planner/los/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/los/core.py b/terragraph_planner/los/core.py
index 1bc3af6..cf863a0 100644
--- a/terragraph_planner/los/core.py
+++ b/terragraph_planner/los/core.py
@@ -233,6 +233,7 @@ def load_gis_data(
         upsample_to_same_resolution(dtm, dhm)
         dsm = dtm + dhm
     elif dsm is not None and dtm is None and dhm is not None:
+        upsample_to_same_resolution(dsm, dhm)
         dtm = dsm - dhm
 
     errors = building_group_loader.errors + elevation_loader.errors
-- 
2.43.0


From 102fde22df77e916052ea224e8a8ed872c7257c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 56/58] fix: let only POPs of the base network be sources of
 redundant paths

---
 .../optimization/ilp_models/redundancy_optimization.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 6d558a3..aa46a58 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -669,6 +669,7 @@ def compute_candidate_edges_for_redundancy(
         return ("_out", node_id)
 
     G = nx.DiGraph()
+    G.add_node(SUPERSOURCE)
     for site_id, site in topology.sites.items():
         if site.status_type in StatusType.inactive_status():
             continue
@@ -686,7 +687,11 @@ def compute_candidate_edges_for_redundancy(
             if site.site_type == SiteType.POP
             else 1.0,
         )
-        if site.site_type == SiteType.POP:
+        # Only POPs in the base network can be the source of a path
+        if (
+            site.site_type == SiteType.POP
+            and site.status_type in StatusType.active_status()
+        ):
             G.add_edge(
                 SUPERSOURCE, _get_node_in(site_id), capacity=pop_source_capacity
             )
-- 
2.43.0


From 6690ac51c28e2c6da3654f441fa8e570a4c2c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 57/58] fix: look up the link from a wireless predecessor, not
 to it

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index a782738..29df953 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -312,7 +312,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From da9df0a90ba5b1b6bb58cc7d452fb9e5e515cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 58/58] fix: create the output directory with its parents

---
 terragraph_planner/common/data_io/topology_serializer.py    | 3 +--
 .../optimization/ilp_models/network_optimization.py         | 3 +--
 terragraph_planner/optimization/topology_report.py          | 6 ++----
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index dbff3a0..5ca85d1 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -126,8 +126,7 @@ def dump_topology_to_kml(
             dump_dir = os.path.join(current_system_params.output_dir, "debug")
             file_name = f"{file_type.name.lower()}_{time_suffix}.kml"
 
-        if not os.path.exists(dump_dir):
-            os.mkdir(dump_dir)
+        os.makedirs(dump_dir, exist_ok=True)
         full_file_path = os.path.join(dump_dir, file_name)
         write_to_kml_file(topology, os.path.join(dump_dir, file_name))
         logger.info(
diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 36053c0..eb3ce90 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -1213,8 +1213,7 @@ class NetworkOptimization(OptimizationSetup):
         if not current_system_params.debug_mode or self.problem is None:
             return
         dump_dir = os.path.join(current_system_params.output_dir, "debug")
-        if not os.path.exists(dump_dir):
-            os.mkdir(dump_dir)
+        os.makedirs(dump_dir, exist_ok=True)
         time_suffix = "".join(str(time()).split("."))
         full_file_path = os.path.join(
             dump_dir, f"{file_type.name.lower()}_{time_suffix}"
diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 65e2041..b2e9707 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -848,8 +848,7 @@ def build_sites_df(
 
 def dump_df_to_csv(df: pd.DataFrame, file_type: OutputFile) -> None:
     dump_dir = os.path.join(current_system_params.output_dir, "output")
-    if not os.path.exists(dump_dir):
-        os.mkdir(dump_dir)
+    os.makedirs(dump_dir, exist_ok=True)
     full_file_path = os.path.join(dump_dir, f"{file_type.name.lower()}.csv")
     df.to_csv(full_file_path)
     logger.info(
@@ -881,8 +880,7 @@ def dump_metrics_to_yaml(metrics: TopologyMetrics) -> None:
         return d
 
     dump_dir = os.path.join(current_system_params.output_dir, "output")
-    if not os.path.exists(dump_dir):
-        os.mkdir(dump_dir)
+    os.makedirs(dump_dir, exist_ok=True)
     full_file_path = os.path.join(
         dump_dir, f"{OutputFile.METRICS.name.lower()}.yaml"
     )
-- 
2.43.0

