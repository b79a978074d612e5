From 20452bb90fad11b3b99a9f7bc6b94dc2b75494cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 01/50] fix: perfect customization of small, sparse and
 edgeless hierarchies

The chunk boundaries for the parallel rebuild assumed exactly k nonempty
chunks and an arc at node 0: it panicked (or built misaligned arrays)
whenever there were fewer chunks, no arcs, or an isolated first node.
---
 .../customization.rs                                 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..738e9ed 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -457,13 +457,13 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
 
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
-            let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
+            let target_edges_per_thread = std::cmp::max((m_fw + k - 1) / k, 1);
+            // the first chunk always starts at node 0, even if that node has no arcs
+            let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+                .chain(cch.forward_tail().chunks(target_edges_per_thread).skip(1).map(|chunk| chunk[0] as usize))
                 .collect();
+            // there might be less than k nonempty chunks
+            first_node_of_chunk.resize(k + 1, n);
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
-- 
2.43.0


From 24770660e716ffebc60ce0e29d1e4c80d7e6796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 02/50] fix: CCH potential path unpacking must not create
 cycles through zero arcs

While unpacking the path of the parent, the node itself may already have been
unpacked as a middle node. Continuing with the outdated parent edge then
replaced its final parent and closed a cycle.
---
 engine/src/algo/ch_potentials.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..001840d 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -282,6 +282,10 @@ impl<'a, const FLIP_UNPACKING: bool> CCHPotentialWithPathUnpacking<'a, FLIP_UNPA
         }
         let parent_dist = self.potential(parent).unwrap();
         self.unpack_path(NodeIdT(parent));
+        // with zero arcs, the path of parent may have been unpacked through node
+        if self.path_unpacked.get(node as usize) {
+            return;
+        }
 
         debug_assert!(self_dist >= parent_dist, "{:#?}", (node, parent, self_dist, parent_dist));
         let (down, up) = if parent > node {
-- 
2.43.0


From 284aa7ec76e66714b37a55812a1d9ffa93ffba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 03/50] fix: bucket CH potential asserted that the wrong node
 is final

Every query of a node with upward arcs panicked with debug assertions.
---
 engine/src/algo/ch_potentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 001840d..94d39d8 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -555,7 +555,7 @@ impl<GF: LinkIterGraph, GB: LinkIterGraph> BucketCHPotential<GF, GB> {
                 num_pot_computations,
                 num_targets,
             );
-            debug_assert!(pot_final.get(node as usize));
+            debug_assert!(pot_final.get(l.node as usize));
             let (potentials, upper_dists) = potentials.split_at_mut(l.node as usize);
             let head_dists = upper_dists[0].as_ref().unwrap();
             let self_dists = potentials[node as usize].as_mut().unwrap();
-- 
2.43.0


From a25b914874f0c3eca1cde44171d831cabda6fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 04/50] fix: avoid landmark selection loops forever on a self
 loop at the root

---
 engine/src/algo/alt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/alt.rs b/engine/src/algo/alt.rs
index b27f7f5..b7e2aa7 100644
--- a/engine/src/algo/alt.rs
+++ b/engine/src/algo/alt.rs
@@ -120,7 +120,7 @@ impl ALTPotData {
             while let Some(next) = graph
                 .link_iter(v)
                 .map(|l| l.head())
-                .filter(|&l| dists.predecessor(l) == v)
+                .filter(|&l| l != v && dists.predecessor(l) == v)
                 .max_by_key(|&l| weights[l as usize])
             {
                 v = next;
-- 
2.43.0


From dc1ca78bf933157381d0c4aba2eb2f2235246f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 05/50] fix: bidirectional search must not return a label worse
 than the best path found

Popping the opposite terminal ended the search with its label, but with
potentials a better label may have been pruned because a shorter path was
already known. With the alternating strategy this returned too long paths.
---
 engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
index 5956aac..b7060c1 100644
--- a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
@@ -89,7 +89,8 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                     ) {
                         num_queue_pops += 1;
                         inspect(node, *forward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
-                        if node == to {
+                        // improvements may have been pruned, so there might be a shorter path already
+                        if node == to && *forward_dijkstra.tentative_distance(to) <= tentative_distance {
                             *meeting_node = to;
                             return Some(*forward_dijkstra.tentative_distance(to));
                         }
@@ -115,7 +116,8 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                     ) {
                         num_queue_pops += 1;
                         inspect(node, *backward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
-                        if node == from {
+                        // improvements may have been pruned, so there might be a shorter path already
+                        if node == from && *backward_dijkstra.tentative_distance(from) <= tentative_distance {
                             *meeting_node = from;
                             return Some(*backward_dijkstra.tentative_distance(from));
                         }
-- 
2.43.0


From cd3f0b919fafae5232b2b9144db123c354f42746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 06/50] fix: average potential must not clamp half potentials
 at zero

Clamping broke the invariant that forward and backward potential of a node sum
up to a constant, on which the stopping criterion relies. Potentials that are
not tight (landmarks, scaled metrics) could end the search too early, and
huge landmark bounds overflowed.
---
 engine/src/algo/a_star.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index ed1313a..44d86fd 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -303,13 +303,15 @@ impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePot
         self.forward_potential.init(target);
         self.backward_potential.init(source);
 
-        self.fw_add = (self.backward_potential.potential(target).unwrap_or(INFINITY) / 2) as i32;
-        self.bw_add = (self.forward_potential.potential(source).unwrap_or(INFINITY) / 2) as i32;
-        self.mu_add = self.potential(source).map(|p| (p + self.fw_add) as Weight).unwrap_or(0);
+        // Half potentials are at least -INFINITY / 2. With this offset they never have to be clamped
+        // and forward and backward potential of every node always sum up to mu_add.
+        self.fw_add = (INFINITY / 2) as i32;
+        self.bw_add = (INFINITY / 2) as i32;
+        self.mu_add = (self.fw_add + self.bw_add) as Weight;
     }
     fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
         match (fw_min_queue, bw_min_queue) {
-            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist + self.mu_add,
+            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue as u64 + bw_min_queue as u64 >= stop_dist as u64 + self.mu_add as u64,
             _ => true,
         }
     }
-- 
2.43.0


From 65a5f80e06d04fe65279f570150212e62f12c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 07/50] fix: hub labels must ignore infinite hierarchy arcs

---
 engine/src/algo/hl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/hl.rs b/engine/src/algo/hl.rs
index 506e44e..d2a8fc8 100644
--- a/engine/src/algo/hl.rs
+++ b/engine/src/algo/hl.rs
@@ -27,13 +27,13 @@ impl HubLabels {
             self.outgoing[node].push((node as NodeId, 0));
             self.incoming[node].push((node as NodeId, 0));
 
-            for link in LinkIterable::<Link>::link_iter(up, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(up, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (out_remaining, out_done) = self.outgoing.split_at_mut(node + 1);
                 let cur_out = out_remaining.last_mut().unwrap();
                 cur_out.extend(out_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
             }
 
-            for link in LinkIterable::<Link>::link_iter(down, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(down, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (in_remaining, in_done) = self.incoming.split_at_mut(node + 1);
                 let cur_in = in_remaining.last_mut().unwrap();
                 cur_in.extend(in_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
-- 
2.43.0


From 81b4adea3a7ea5d5caee70409b80f75287212449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 08/50] fix: bucket selection must not create entries for
 infinite arcs

---
 engine/src/algo/ch_potentials.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 94d39d8..0972b3b 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -693,10 +693,13 @@ where
 
             for (NodeIdT(low_neighbor), weight) in self.incoming[node as usize].drain(..) {
                 for &(terminal, dist) in &self.distances[low_neighbor as usize] {
-                    if self.terminal_dists[terminal as usize] == INFINITY {
-                        self.used_terminals.push(NodeIdT(terminal));
+                    // infinite edges must not create (possibly several) bucket entries
+                    if dist + weight < self.terminal_dists[terminal as usize] {
+                        if self.terminal_dists[terminal as usize] == INFINITY {
+                            self.used_terminals.push(NodeIdT(terminal));
+                        }
+                        self.terminal_dists[terminal as usize] = dist + weight;
                     }
-                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist + weight);
                 }
             }
 
-- 
2.43.0


From 7b17191d266c92b63d6b7d3ac2a40b4748ba0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 09/50] fix: nearest neighbours in the cell of the source,
 unreachable targets

---
 .../query/nearest_neighbor.rs                          | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..ddcdc83 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -36,6 +36,7 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
         self.one_to_many.init(source);
+        let source_rank = self.cch.node_order().rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -104,6 +105,10 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
                     for &boundary in &self.cch.head()[top_node_out_edges] {
                         lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
                     }
+                    // targets in the cell of the source can be closer than the boundary
+                    if (top_cell_node + 1 - child.num_nodes as NodeId..=top_cell_node).contains(&source_rank) {
+                        lower_bound_dist = 0;
+                    }
                     self.stack.push((lower_bound_dist, child));
                 }
 
@@ -215,6 +220,11 @@ impl<'a> BCCHNearestNeighbor<'a> {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
+                    // not reachable over this node, and neither are the following targets
+                    if dist >= INFINITY {
+                        break;
+                    }
+
                     if dist >= self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) && self.closest_targets.len() >= k {
                         break;
                     }
-- 
2.43.0


From 929f629edbe8507e47d7791246e690e6c20d42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 10/50] fix: partial contraction dropped arcs to the first node
 that stays

---
 engine/src/algo/contraction_hierarchy/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..2947dad 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -164,12 +164,13 @@ impl ContractionGraph {
         let mut data = (DijkstraData::new(graph.nodes.len()), DijkstraData::new(graph.nodes.len()));
 
         // split of the lowest node, the one that will be contracted
-        while let Some((node, mut subgraph)) = graph.remove_lowest() {
-            if contraction_count == 0 {
-                break;
-            } else {
-                contraction_count -= 1;
-            }
+        // (but only when it actually will be, otherwise the remaining nodes would lose their edges to it)
+        while contraction_count > 0 {
+            let (node, mut subgraph) = match graph.remove_lowest() {
+                Some(split) => split,
+                None => break,
+            };
+            contraction_count -= 1;
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
-- 
2.43.0


From aaa2a9345310fe75169735602944c65c7a006ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 11/50] fix: CH path unpacking mixed up node ids and ranks

---
 .../src/algo/contraction_hierarchy/query.rs   | 80 +++++++++----------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..31c89f2 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,52 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
+    // Path unpacking: everything happens in rank space, the result is translated back to the original node ids.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
+
+        // up and down edges of the packed path as `(tail, head)`
+        let mut packed = Vec::new();
+        let mut node = self.meeting_node;
+        while node != from {
+            let pred = self.forward_data.predecessors[node as usize].0;
+            packed.push((pred, node));
+            node = pred;
+        }
+        packed.reverse();
+        let mut node = self.meeting_node;
+        while node != to {
+            let succ = self.backward_data.predecessors[node as usize].0;
+            packed.push((node, succ));
+            node = succ;
         }
 
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
-
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
+        let mut path = vec![self.order.node(from)];
+        let mut stack = Vec::new();
+        for edge in packed {
+            stack.push(edge);
+            while let Some((tail, head)) = stack.pop() {
+                let middle = self.middle_node(tail, head);
+                if middle < self.forward.num_nodes() as NodeId {
+                    stack.push((middle, head));
+                    stack.push((tail, middle));
                 } else {
-                    backward_path.push_back(node);
+                    path.push(self.order.node(head));
                 }
             }
         }
+        path
+    }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
-
-        for node in &mut forwad_path {
-            *node = self.order.node(*node);
+    // middle node of the (shortcut) edge, `num_nodes` if it is an original edge
+    fn middle_node(&self, tail: NodeId, head: NodeId) -> NodeId {
+        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+        if tail < head {
+            forward_middle_nodes[self.forward.edge_indices(tail, head).next().unwrap().0 as usize]
+        } else {
+            backward_middle_nodes[self.backward.edge_indices(head, tail).next().unwrap().0 as usize]
         }
-
-        forwad_path.into_iter().collect()
     }
 }
 
-- 
2.43.0


From 021a2ca124455209f496e572bdec31a988f143a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 12/50] fix: BitVec::set_all leaves bits beyond the size unset

---
 engine/src/datastr/rank_select_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..9f8ff76 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -91,6 +91,12 @@ impl BitVec {
         for val in &mut self.data {
             *val = !0;
         }
+        // bits beyond `size` in the last int must stay zero
+        if self.size % STORAGE_BITS != 0 {
+            if let Some(last) = self.data.last_mut() {
+                *last = (1 << (self.size % STORAGE_BITS)) - 1;
+            }
+        }
     }
 
     /// The total number of bits set to 1.
-- 
2.43.0


From 8e755b52489b712357d3d12e2da2ebe75c002333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:05 +0000
Subject: [PATCH 13/50] fix: RankSelectMap inversion in presence of empty
 blocks

---
 engine/src/datastr/rank_select_map.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 9f8ff76..bed7c64 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -336,10 +336,8 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // last block starting at or before `value`, blocks without any ids share their prefix sum with the following one
+        let block_index = self.blocks[group] + self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].partition_point(|&sum| sum <= value) - 1;
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From 5cc61d33faa72c5bbe837131a37c93a7fc2bb1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:05 +0000
Subject: [PATCH 14/50] fix: LinkIdMapper debug assertion checked the wrong
 direction for backward links

---
 conversion/src/here/link_id_mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/here/link_id_mapper.rs b/conversion/src/here/link_id_mapper.rs
index a2a1c4b..55dfbab 100644
--- a/conversion/src/here/link_id_mapper.rs
+++ b/conversion/src/here/link_id_mapper.rs
@@ -49,7 +49,7 @@ impl LinkIdMapper {
         let direction = if self.here_rank_to_link_id[rank].0.value() == Some(link_id) {
             LinkDirection::FromRef
         } else {
-            debug_assert_eq!(self.here_rank_to_link_id[rank].0.value(), Some(link_id));
+            debug_assert_eq!(self.here_rank_to_link_id[rank].1.value(), Some(link_id));
             LinkDirection::ToRef
         };
         (here_link_id, direction)
-- 
2.43.0


From 995621f59f93b927a3fa845988de21b1d73e71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 15/50] fix: reversing graphs which filter arcs while iterating

---
 engine/src/datastr/graph/first_out_graph.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/first_out_graph.rs b/engine/src/datastr/graph/first_out_graph.rs
index eab7310..963e83f 100644
--- a/engine/src/datastr/graph/first_out_graph.rs
+++ b/engine/src/datastr/graph/first_out_graph.rs
@@ -141,8 +141,10 @@ impl<G: LinkIterable<Link>> BuildReversed<G> for OwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
-        let mut weights = vec![0; graph.num_arcs()];
+        // not `num_arcs()` because the graph might skip some of its arcs when iterating
+        let num_arcs = prefix_sum as usize;
+        let mut head = vec![0; num_arcs];
+        let mut weights = vec![0; num_arcs];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
@@ -503,7 +505,8 @@ impl<G: LinkIterable<NodeIdT>> BuildReversed<G> for UnweightedOwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
+        // not `num_arcs()` because the graph might skip some of its arcs when iterating
+        let mut head = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
-- 
2.43.0


From 1c2095abb2fbee8c5263923cdcdb82d939276297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:19 +0000
Subject: [PATCH 16/50] fix: upper bounds of travel time functions in a range
 were infinite unless both ends lie between points

---
 .../time_dependent/piecewise_linear_function.rs    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..d6660d0 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -101,23 +101,23 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     pub fn upper_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
-            return INFINITY;
+            return 0;
         }
-        let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (first_idx, first_upper) = match self.departure_time.locate(range.start, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(_lower_index, upper_index) => (upper_index, self.evaluate(range.start)),
         };
 
-        let (last_idx, last_lower) = match self.departure_time.locate(range.end, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (last_idx, last_upper) = match self.departure_time.locate(range.end, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),
         };
 
         self.travel_time[first_idx..=last_idx]
             .iter()
             .copied()
-            .chain(std::iter::once(first_lower))
-            .chain(std::iter::once(last_lower))
+            .chain(std::iter::once(first_upper))
+            .chain(std::iter::once(last_upper))
             .max()
             .unwrap()
     }
-- 
2.43.0


From 74793344acf50ad0aa51f906f9fc8511e5267e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:35 +0000
Subject: [PATCH 17/50] fix: bounds of travel time functions for ranges beyond
 the second day

---
 .../piecewise_linear_function.rs              | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index d6660d0..940d9be 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -59,12 +59,21 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        if range.end > range.start && range.end - range.start >= period() {
+            return self.lower_bound();
+        }
+
+        let (first_range, second_range) = Self::split_at_period(range);
         std::cmp::min(self.lower_bound_in_included(first_range), self.lower_bound_in_included(second_range))
     }
 
+    /// Move a range shorter than the period to the first period and split off the part which goes beyond it.
+    fn split_at_period(range: Range<Timestamp>) -> (Range<Timestamp>, Range<Timestamp>) {
+        let days = range.start / period() * period();
+        let (first_range, second_range) = (range.start - days..range.end.saturating_sub(days)).split(period());
+        (first_range, second_range.start - period()..second_range.end - period())
+    }
+
     pub fn lower_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
             return INFINITY;
@@ -93,9 +102,11 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        if range.end > range.start && range.end - range.start >= period() {
+            return self.upper_bound();
+        }
+
+        let (first_range, second_range) = Self::split_at_period(range);
         std::cmp::max(self.upper_bound_in_included(first_range), self.upper_bound_in_included(second_range))
     }
 
-- 
2.43.0


From dbed645678937bcf4c624244c450e0d861bf92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:55 +0000
Subject: [PATCH 18/50] fix: reading a perfectly customized hierarchy accepted
 files of the wrong size

---
 .../src/algo/customizable_contraction_hierarchy/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/mod.rs b/engine/src/algo/customizable_contraction_hierarchy/mod.rs
index 84a0a7d..73227b5 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/mod.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/mod.rs
@@ -576,6 +576,12 @@ impl<'a, C: CCHT> crate::io::ReconstructPrepared<CustomizedPerfect<'a, C>> for &
     fn reconstruct_with(self, loader: Loader) -> std::io::Result<CustomizedPerfect<'a, C>> {
         let upward: OwnedGraph = loader.reconstruct("fw_graph")?;
         let downward: OwnedGraph = loader.reconstruct("bw_graph")?;
+        let up_unpacking: Vec<_> = loader.load("up_unpacking")?;
+        let down_unpacking: Vec<_> = loader.load("down_unpacking")?;
+        assert_eq!(upward.num_nodes(), self.num_cch_nodes());
+        assert_eq!(downward.num_nodes(), self.num_cch_nodes());
+        assert_eq!(up_unpacking.len(), upward.num_arcs());
+        assert_eq!(down_unpacking.len(), downward.num_arcs());
 
         let forward_tail = upward
             .first_out()
@@ -595,8 +601,8 @@ impl<'a, C: CCHT> crate::io::ReconstructPrepared<CustomizedPerfect<'a, C>> for &
             cch: self,
             upward,
             downward,
-            up_unpacking: loader.load("up_unpacking")?,
-            down_unpacking: loader.load("down_unpacking")?,
+            up_unpacking,
+            down_unpacking,
             forward_tail,
             backward_tail,
         })
-- 
2.43.0


From d4cc516001b1c3686105bf29c3e91be1b98cf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 19/50] fix: reading a hierarchy accepted a node order of
 another size

---
 engine/src/algo/customizable_contraction_hierarchy/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/mod.rs b/engine/src/algo/customizable_contraction_hierarchy/mod.rs
index 73227b5..dcf58a1 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/mod.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/mod.rs
@@ -56,6 +56,7 @@ impl<'g, Graph: EdgeIdGraph> ReconstructPrepared<CCH> for CCHReconstrctor<'g, Gr
         let head: Vec<NodeId> = loader.load("cch_head")?;
         let cch_graph = UnweightedOwnedGraph::new(loader.load("cch_first_out")?, head);
         assert_eq!(cch_graph.num_nodes(), self.0.num_nodes());
+        assert_eq!(node_order.len(), self.0.num_nodes());
         Ok(CCH::new_from(self.0, node_order, cch_graph))
     }
 }
-- 
2.43.0


From 640aa970e85d88273981da7463bfc48d2a53f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:56 +0000
Subject: [PATCH 20/50] fix: link speed estimates: standing still on the first
 link gives no entry time

---
 engine/src/link_speed_estimates/link_speed_estimator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/link_speed_estimates/link_speed_estimator.rs b/engine/src/link_speed_estimates/link_speed_estimator.rs
index 9d0f2e0..2961729 100644
--- a/engine/src/link_speed_estimates/link_speed_estimator.rs
+++ b/engine/src/link_speed_estimates/link_speed_estimator.rs
@@ -70,6 +70,12 @@ impl<'a> State<'a> for InitialLinkWithTrace<'a> {
 
         let delta_t = trace.timestamp - self.trace.timestamp;
         let delta_fraction = f64::from(trace.traversed_in_travel_direction_fraction) - f64::from(self.trace.traversed_in_travel_direction_fraction);
+
+        // without progress there is nothing to extrapolate the entry timestamp from, wait for the next event
+        if delta_fraction <= 0.0 {
+            return (Box::new(InitialLinkWithTrace { link: self.link, trace }), Box::new(empty()));
+        }
+
         let t_pre = (delta_t as f64 * f64::from(self.trace.traversed_in_travel_direction_fraction) / delta_fraction) as u64;
 
         debug_assert!(self.trace.timestamp > t_pre, "timestamp underflow");
-- 
2.43.0


From 5a38f68fc87e93f3069178c5a596116a61247a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:56 +0000
Subject: [PATCH 21/50] fix: link speed estimates: a trace without movement
 yields no estimates

---
 engine/src/link_speed_estimates/link_speed_estimator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/link_speed_estimates/link_speed_estimator.rs b/engine/src/link_speed_estimates/link_speed_estimator.rs
index 2961729..3850168 100644
--- a/engine/src/link_speed_estimates/link_speed_estimator.rs
+++ b/engine/src/link_speed_estimates/link_speed_estimator.rs
@@ -93,7 +93,8 @@ impl<'a> State<'a> for InitialLinkWithTrace<'a> {
     }
 
     fn on_done(self: Box<Self>) -> Box<dyn Iterator<Item = LinkSpeedData>> {
-        panic!("InitialLinkWithTrace: stream ended, expected link or trace");
+        // no movement was observed, so there is no usable time interval
+        Box::new(empty())
     }
 }
 
-- 
2.43.0


From a1578637131f2370d3a8c4ccafac25500589188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:56 +0000
Subject: [PATCH 22/50] fix: link speed estimates: no estimate for a link that
 was only just entered

---
 engine/src/link_speed_estimates/link_speed_estimator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/src/link_speed_estimates/link_speed_estimator.rs b/engine/src/link_speed_estimates/link_speed_estimator.rs
index 3850168..ef4f983 100644
--- a/engine/src/link_speed_estimates/link_speed_estimator.rs
+++ b/engine/src/link_speed_estimates/link_speed_estimator.rs
@@ -208,6 +208,9 @@ impl<'a> State<'a> for LinkWithEntryTimestampAndTrace<'a> {
 
     fn on_done(self: Box<Self>) -> Box<dyn Iterator<Item = LinkSpeedData>> {
         let delta_t = self.last_trace.timestamp - self.entry_timestamp;
+        if delta_t == 0 {
+            return Box::new(empty());
+        }
         let delta_s = f64::from(self.last_trace.traversed_in_travel_direction_fraction) * f64::from(self.link.length);
         let velocity = delta_s / delta_t as f64;
         Box::new(once(LinkSpeedData {
-- 
2.43.0


From b1ddfebb250ac1bcfeb9a53f148a5bf0bb37753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 23/50] fix: core search: stay out of the core when the
 shortest path does

---
 engine/src/algo/ch_potentials/query.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..32a9eeb 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -95,7 +95,11 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core)?;
+        // Without distinct core nodes to enter and leave by, the shortest path does not use the core at all.
+        let through_core =
+            into_core != out_of_core && virtual_topocore.node_type(into_core).in_core() && virtual_topocore.node_type(out_of_core).in_core();
+        let comp_target = if through_core { into_core } else { query.to() };
+        let comp_target_pot = potential.potential(comp_target)?;
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -111,16 +115,19 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| e.key >= *comp_search.tentative_distance(comp_target) + comp_target_pot)
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
-        if *comp_search.tentative_distance(into_core) >= INFINITY {
+        if *comp_search.tentative_distance(comp_target) >= INFINITY {
             return None;
         }
+        if !through_core {
+            return Some(*comp_search.tentative_distance(query.to()) - departure);
+        }
 
         let to_core_pushs = comp_search.num_queue_pushs();
         let to_core_relaxed = comp_search.num_relaxed_arcs();
-- 
2.43.0


From 5810452879ce3f538a3badbff15f754f89d9f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 24/50] fix: virtual topocore: nodes outside the biggest
 component are never classified as core

---
 engine/src/algo/topocore.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..b553a28 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -597,8 +597,15 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
             bcc.push(components[node as usize] - 1);
         }
     }
-    let deg3 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(n as usize);
-    let deg2 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(n as usize);
+    // only nodes of the biggest bcc are classified by these bounds
+    let deg3 = new_order[..biggest_bcc_size]
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 4)
+        .unwrap_or(biggest_bcc_size);
+    let deg2 = new_order[..biggest_bcc_size]
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 3)
+        .unwrap_or(biggest_bcc_size);
 
     report!("biggest_bcc_size", biggest_bcc_size);
     report!("deg2", deg2);
-- 
2.43.0


From ed56d96ae340b1e53a02300086a01c9b678d1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:44 +0000
Subject: [PATCH 25/50] fix: bidirectional core search: both searches cover the
 same part of the graph

---
 engine/src/algo/ch_potentials/query.rs |  9 +++++++++
 engine/src/algo/topocore.rs            | 23 +++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 32a9eeb..9deb230 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -876,6 +876,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
         self.potential.init(query.from(), query.to());
         report!("lower_bound", self.potential.forward_potential_raw(query.from()).unwrap_or(INFINITY));
 
+        let topocore = self.forward_graph.virtual_topocore();
         let mut num_queue_pops = 0;
 
         let meeting_node = &mut self.meeting_node;
@@ -896,6 +897,10 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                 if dir_chooser.choose(forward_dijkstra.queue().peek().map(|q| q.key), backward_dijkstra.queue().peek().map(|q| q.key)) {
                     if let Some(node) = forward_dijkstra.next_with_improve_callback_and_potential(
                         |head, &dist| {
+                            // both searches have to cover the same part of the graph
+                            if !topocore.may_be_visited(head, query.from(), query.to()) {
+                                return false;
+                            }
                             let mut pot = potential.borrow_mut();
                             if let Some(pot_cap) = pot_cap {
                                 if pot.forward_potential_raw(head).unwrap_or(INFINITY) + pot.backward_potential_raw(head).unwrap_or(INFINITY) > pot_cap {
@@ -927,6 +932,10 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                 } else {
                     if let Some(node) = backward_dijkstra.next_with_improve_callback_and_potential(
                         |head, &dist| {
+                            // both searches have to cover the same part of the graph
+                            if !topocore.may_be_visited(head, query.from(), query.to()) {
+                                return false;
+                            }
                             let mut pot = potential.borrow_mut();
                             if let Some(pot_cap) = pot_cap {
                                 if pot.forward_potential_raw(head).unwrap_or(INFINITY) + pot.backward_potential_raw(head).unwrap_or(INFINITY) > pot_cap {
diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index b553a28..cd3637d 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -476,6 +476,13 @@ impl VirtualTopocore {
 
         self.bridge[self.bcc[node as usize - self.biggest_bcc] as usize].value()
     }
+
+    /// Shortest paths only visit the core and the components of their ends.
+    pub fn may_be_visited(&self, node: NodeId, from: NodeId, to: NodeId) -> bool {
+        let component = |node| (!self.node_type(node).in_core()).then(|| self.bcc[node as usize - self.biggest_bcc]);
+        let node_component = component(node);
+        node_component.is_none() || node_component == component(from) || node_component == component(to)
+    }
 }
 
 fn symmetric_degree(fw_iter: impl Iterator<Item = NodeIdT>, bw_iter: impl Iterator<Item = NodeIdT>) -> usize {
@@ -692,17 +699,11 @@ impl<Graph> VirtualTopocoreGraph<Graph> {
         let topocore = virtual_topocore(graph);
         (
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<G>>::permutated_filtered(&graph, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<G>>::permutated(graph, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<Graph>>::permutated_filtered(&reversed, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<Graph>>::permutated(&reversed, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             topocore,
@@ -731,6 +732,12 @@ impl<G: LinkIterable<L>, L> LinkIterable<L> for VirtualTopocoreGraph<G> {
     }
 }
 
+impl<G> VirtualTopocoreGraph<G> {
+    pub fn virtual_topocore(&self) -> &VirtualTopocore {
+        &self.virtual_topocore
+    }
+}
+
 impl<G> SymmetricDegreeGraph for VirtualTopocoreGraph<G> {
     #[inline(always)]
     fn symmetric_degree(&self, node: NodeId) -> SymmetricDeg {
-- 
2.43.0


From 8a63b43d4998d8518a8ac7e68129ac7978b47257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:27 +0000
Subject: [PATCH 26/50] fix: topocore: degree two nodes are contracted one
 after the other

---
 engine/src/algo/topocore.rs | 126 ++++++------------------------------
 1 file changed, 21 insertions(+), 105 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index cd3637d..08a3a07 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -177,123 +177,39 @@ pub fn preprocess<Graph: LinkIterGraph + LinkIterable<NodeIdT>, ReorderBCC: Bool
             _ => false,
         };
 
-        let deg_two_neighbors = |node_outs: &Vec<Link>, node_ins: &Vec<Link>| match (&node_outs[..], &node_ins[..]) {
-            (&[Link { node: out_node, .. }], &[Link { node: in_node, .. }]) => (out_node, in_node),
-            (&[Link { node: _out_node, .. }], &[Link { node: in1, .. }, Link { node: in2, .. }]) => (in1, in2),
-            (&[Link { node: out1, .. }, Link { node: out2, .. }], &[Link { node: _in_node, .. }]) => (out1, out2),
-            (&[Link { node: out1, .. }, Link { node: out2, .. }], &[Link { node: _in1, .. }, Link { node: _in2, .. }]) => (max(out1, out2), min(out1, out2)),
-            _ => panic!("called neighbors on none deg 2 node"),
-        };
-
-        let deg_two_weights = |other: NodeId, node_outs: &Vec<Link>, node_ins: &Vec<Link>| {
-            (
-                node_outs
-                    .iter()
-                    .find(|&&Link { node: head, .. }| head == other)
-                    .map(|&Link { weight, .. }| weight),
-                node_ins
-                    .iter()
-                    .find(|&&Link { node: head, .. }| head == other)
-                    .map(|&Link { weight, .. }| weight),
-            )
-        };
+        // the links of contracted nodes are still needed to reach the core from the chains
+        let original_links: Vec<_> = outs.iter().cloned().zip(ins.iter().cloned()).collect();
+        let mut contracted = Vec::new();
 
         for node in 0..n {
             if !to_contract.get(node) && deg_two(&outs[node], &ins[node]) {
-                debug_assert!(!deg_zero_or_one(&outs[node], &ins[node]));
                 to_contract.set(node);
+                contracted.push(node);
 
-                let mut prev = node;
-                let mut next = outs[node][0].node as usize;
-                while !deg_zero_or_one(&outs[next], &ins[next]) && deg_two(&outs[next as usize], &ins[next as usize]) && !to_contract.get(next) {
-                    to_contract.set(next);
-                    let (first, second) = deg_two_neighbors(&outs[next], &ins[next]);
-                    if prev as NodeId == first {
-                        prev = next as usize;
-                        next = second as usize;
-                    } else {
-                        prev = next as usize;
-                        next = first as usize;
-                    }
+                let node_outs = std::mem::take(&mut outs[node]);
+                let node_ins = std::mem::take(&mut ins[node]);
+                for link in &node_outs {
+                    ins[link.node as usize].retain(|link| link.node != node as NodeId);
                 }
-
-                debug_assert!(!deg_zero_or_one(&outs[next], &ins[next]));
-                debug_assert!(!to_contract.get(next)); // isolated cycle
-
-                let end1 = next;
-                let end1_prev = prev;
-                std::mem::swap(&mut next, &mut prev);
-
-                let (mut forward, mut backward) = deg_two_weights(next as NodeId, &outs[prev], &ins[prev]);
-
-                while !deg_zero_or_one(&outs[next], &ins[next]) && deg_two(&outs[next as usize], &ins[next as usize]) {
-                    to_contract.set(next);
-                    let (first, second) = deg_two_neighbors(&outs[next], &ins[next]);
-                    if prev as NodeId == first {
-                        prev = next as usize;
-                        next = second as usize;
-                    } else {
-                        prev = next as usize;
-                        next = first as usize;
-                    }
-
-                    let (next_forward, next_backward) = deg_two_weights(next as NodeId, &outs[prev], &ins[prev]);
-                    forward = forward.and_then(|forward| next_forward.map(|next_forward| forward + next_forward));
-                    backward = backward.and_then(|backward| next_backward.map(|next_backward| backward + next_backward));
-                }
-                let end2 = next;
-
-                if let Some(pos) = outs[end1].iter().position(|&Link { node: head, .. }| head == end1_prev as NodeId) {
-                    outs[end1].swap_remove(pos);
+                for link in &node_ins {
+                    outs[link.node as usize].retain(|link| link.node != node as NodeId);
                 }
-                debug_assert_eq!(outs[end1].iter().position(|&Link { node: head, .. }| head == end1_prev as NodeId), None);
-                if let Some(pos) = ins[end1].iter().position(|&Link { node: head, .. }| head == end1_prev as NodeId) {
-                    ins[end1].swap_remove(pos);
-                }
-                debug_assert_eq!(ins[end1].iter().position(|&Link { node: head, .. }| head == end1_prev as NodeId), None);
-
-                if let Some(pos) = outs[next].iter().position(|&Link { node: head, .. }| head == prev as NodeId) {
-                    outs[next].swap_remove(pos);
-                }
-                debug_assert_eq!(outs[next].iter().position(|&Link { node: head, .. }| head == prev as NodeId), None);
-                if let Some(pos) = ins[next].iter().position(|&Link { node: head, .. }| head == prev as NodeId) {
-                    ins[next].swap_remove(pos);
-                }
-                debug_assert_eq!(ins[next].iter().position(|&Link { node: head, .. }| head == prev as NodeId), None);
-
-                if let Some(weight) = forward {
-                    if end1 != end2 {
-                        insert_or_decrease(&mut outs[end1], end2 as NodeId, weight);
-                        insert_or_decrease(&mut ins[end2], end1 as NodeId, weight);
-                    }
-                }
-                if let Some(weight) = backward {
-                    if end1 != end2 {
-                        insert_or_decrease(&mut ins[end1], end2 as NodeId, weight);
-                        insert_or_decrease(&mut outs[end2], end1 as NodeId, weight);
+                for out_link in &node_outs {
+                    for in_link in &node_ins {
+                        if out_link.node != in_link.node {
+                            insert_or_decrease(&mut outs[in_link.node as usize], out_link.node, in_link.weight + out_link.weight);
+                            insert_or_decrease(&mut ins[out_link.node as usize], in_link.node, in_link.weight + out_link.weight);
+                        }
                     }
                 }
-
-                debug_assert!(!to_contract.get(end1));
-                for &Link { node: neighbor, .. } in outs[end1].iter().chain(&ins[end1]) {
-                    debug_assert!(
-                        !to_contract.get(neighbor as usize),
-                        "{} {} {} {} {} {}",
-                        end1,
-                        end1_prev,
-                        neighbor,
-                        end2,
-                        prev,
-                        node
-                    );
-                }
-                debug_assert!(!to_contract.get(end2));
-                for &Link { node: neighbor, .. } in outs[end2].iter().chain(&ins[end2]) {
-                    debug_assert!(!to_contract.get(neighbor as usize));
-                }
             }
         }
 
+        for node in contracted {
+            outs[node] = original_links[node].0.clone();
+            ins[node] = original_links[node].1.clone();
+        }
+
         for node in 0..n {
             if !to_contract.get(node) {
                 for &Link { node: neighbor, .. } in outs[node].iter().chain(&ins[node]) {
-- 
2.43.0


From ed5e5714129169dabba4773793f98791487f24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:48 +0000
Subject: [PATCH 27/50] fix: parallel core search: a path passed at one of its
 ends is not missed

---
 engine/src/algo/ch_potentials/query.rs | 47 ++++++++------------------
 1 file changed, 15 insertions(+), 32 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 9deb230..532c7be 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1219,39 +1219,22 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
         report!("num_queue_pushs", forward_dijkstra.num_queue_pushs() + backward_dijkstra.num_queue_pushs());
         report!("num_relaxed_arcs", forward_dijkstra.num_relaxed_arcs() + backward_dijkstra.num_queue_pushs());
 
-        let fw_meeting = fw_meeting.map(|fw_meeting| {
-            (
-                fw_meeting,
-                self.forward_dijkstra_data.distances.get(fw_meeting as usize) + self.backward_dijkstra_data.distances.get(fw_meeting as usize),
-            )
-        });
-        let bw_meeting = bw_meeting.map(|bw_meeting| {
-            (
-                bw_meeting,
-                self.forward_dijkstra_data.distances.get(bw_meeting as usize) + self.backward_dijkstra_data.distances.get(bw_meeting as usize),
-            )
-        });
-
-        match (fw_meeting, bw_meeting) {
-            (Some((fw_meet, fw_dist)), Some((bw_meet, bw_dist))) => {
-                if fw_dist < bw_dist {
-                    self.meeting_node = fw_meet;
-                    Some(fw_dist)
-                } else {
-                    self.meeting_node = bw_meet;
-                    Some(bw_dist)
-                }
-            }
-            (Some((fw_meet, fw_dist)), None) => {
-                self.meeting_node = fw_meet;
-                Some(fw_dist)
-            }
-            (None, Some((bw_meet, bw_dist))) => {
-                self.meeting_node = bw_meet;
-                Some(bw_dist)
-            }
-            _ => None,
+        // the searches may also have passed the ends of the path while skipping nodes of low degree
+        let (distance, meeting_node) = fw_meeting
+            .into_iter()
+            .chain(bw_meeting)
+            .chain([query.from(), query.to()])
+            .map(|node| {
+                let forward = self.forward_dijkstra_data.distances.get(node as usize);
+                (forward + self.backward_dijkstra_data.distances.get(node as usize), node)
+            })
+            .min_by_key(|&(distance, _)| distance)?;
+
+        if distance >= INFINITY {
+            return None;
         }
+        self.meeting_node = meeting_node;
+        Some(distance)
     }
 
     fn path(&self, query: impl GenQuery<Timestamp>) -> Vec<NodeId> {
-- 
2.43.0


From 1a2c3c4ca38a51ffea5953b59ba0a29976b3fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 28/50] fix: core search: reaching the other end only ends the
 search if no shorter path is known

---
 engine/src/algo/ch_potentials/query.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 532c7be..7b44376 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -924,7 +924,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                         |node| potential.borrow_mut().forward_potential(node),
                     ) {
                         num_queue_pops += 1;
-                        if node == query.to() {
+                        if node == query.to() && *forward_dijkstra.tentative_distance(node) <= tentative_distance {
                             *meeting_node = query.to();
                             return Some(*forward_dijkstra.tentative_distance(query.to()));
                         }
@@ -959,7 +959,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                         |node| potential.borrow_mut().backward_potential(node),
                     ) {
                         num_queue_pops += 1;
-                        if node == query.from() {
+                        if node == query.from() && *backward_dijkstra.tentative_distance(node) <= tentative_distance {
                             *meeting_node = query.from();
                             return Some(*backward_dijkstra.tentative_distance(query.from()));
                         }
@@ -1144,7 +1144,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         num_queue_pops += 1;
                         let prog = forward_dijkstra.queue().peek().map_or(INFINITY, |p| p.key);
                         fw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
-                        if node == query.to() {
+                        if node == query.to() && forward_dijkstra.tentative_distance(node) <= tentative_distance.load(std::sync::atomic::Ordering::Relaxed) {
                             fw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
                             return (Some(query.to()), num_queue_pops);
                         }
@@ -1196,7 +1196,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         num_queue_pops += 1;
                         let prog = backward_dijkstra.queue().peek().map_or(INFINITY, |p| p.key);
                         bw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
-                        if node == query.from() {
+                        if node == query.from() && backward_dijkstra.tentative_distance(node) <= tentative_distance.load(std::sync::atomic::Ordering::Relaxed) {
                             bw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
                             return (Some(query.from()), num_queue_pops);
                         }
-- 
2.43.0


From ea63c87df5f6e2a8b17a0a0b28b528da299a1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 29/50] fix: parallel core search: labels are visible before
 the label of the other search is read

---
 engine/src/algo/ch_potentials/query.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 7b44376..46b1adb 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1132,6 +1132,9 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                             if pot.prune_forward(NodeIdT(head), dist, bw_progress.load(std::sync::atomic::Ordering::Relaxed), stop_dist) {
                                 return false;
                             }
+                            // the label of head has to be visible before the label of the other search is read,
+                            // otherwise both searches can miss each other
+                            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
                             fw_tentative_distance = min(fw_tentative_distance, dist + fw_reverse_dist.get(head as usize));
                             stop_dist = min(fw_tentative_distance, cap);
                             if tentative_distance.fetch_min(fw_tentative_distance, std::sync::atomic::Ordering::Relaxed) > fw_tentative_distance {
@@ -1184,6 +1187,9 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                             if pot.prune_backward(NodeIdT(head), dist, fw_progress.load(std::sync::atomic::Ordering::Relaxed), stop_dist) {
                                 return false;
                             }
+                            // the label of head has to be visible before the label of the other search is read,
+                            // otherwise both searches can miss each other
+                            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
                             bw_tentative_distance = min(bw_tentative_distance, dist + bw_reverse_dist.get(head as usize));
                             stop_dist = min(bw_tentative_distance, cap);
                             if tentative_distance.fetch_min(bw_tentative_distance, std::sync::atomic::Ordering::Relaxed) > bw_tentative_distance {
-- 
2.43.0


From f74316bf2f4d7eb85a0499ed24ecd031a7b25824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 30/50] fix: server: a query for an unknown link ended the
 routing engine

The engine thread panicked, and no later request could be answered.
Answer with null and go on.
---
 server/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 49534ba..c732779 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -261,12 +261,21 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result,
                     )) => {
                         let from_link_direction = if from_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let from_link_local_id = id_mapper.here_to_local_link_id(from_link_id, from_link_direction).expect("non existing link");
+                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                        let (from_link_local_id, to_link_local_id) = match (
+                            id_mapper.here_to_local_link_id(from_link_id, from_link_direction),
+                            id_mapper.here_to_local_link_id(to_link_id, to_link_direction),
+                        ) {
+                            (Some(from_link), Some(to_link)) => (from_link, to_link),
+                            _ => {
+                                // a link we do not know - nothing to be found, but we have to keep serving other requests
+                                tx_result.send(None).unwrap();
+                                continue;
+                            }
+                        };
                         let from_link = graph.link(from_link_local_id);
                         let from = from_link.node;
 
-                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let to_link_local_id = id_mapper.here_to_local_link_id(to_link_id, to_link_direction).expect("non existing link");
                         let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-- 
2.43.0


From 942123e01aab8ec1a09eeac076fffc56ca334c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 31/50] fix: server: answers mixed the metric in force with the
 initial weights

Between parallel links the path was unpacked by the initial travel times, and
the shares of the first and the last link were taken from them, so that
after an update distance and path belonged to no single metric. Keep the
weights next to the server they were customized into.
---
 server/src/main.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index c732779..714c4b2 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -210,7 +210,8 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        let server = Arc::new(Mutex::new(Server::new(cch_customize(&cch, &graph))));
+        // the weights are kept next to the server they were customized into, so that links are always looked up in the metric in force
+        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), travel_time.clone())));
 
         let coords = |node: NodeId| -> (f32, f32) { (lat[node as usize], lng[node as usize]) };
         let closest_node = |(p_lat, p_lng): (f32, f32)| -> NodeId {
@@ -238,7 +239,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let mut server = server.lock().unwrap();
+                        let (server, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -273,18 +274,25 @@ fn main() -> Result<(), Box<dyn Error>> {
                                 continue;
                             }
                         };
-                        let from_link = graph.link(from_link_local_id);
-                        let from = from_link.node;
-
-                        let to_link = graph.link(to_link_local_id);
+                        let from = graph.link(from_link_local_id).node;
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let mut server = server.lock().unwrap();
+                        let (server, weights) = &mut *server.lock().unwrap();
+                        let graph = FirstOutGraph::new(&first_out[..], &head[..], &weights[..]);
+                        // part of a link which has to be traveled, `None` if it is blocked
+                        let part_of_link = |link_id: EdgeId, fraction: f32| -> Option<Weight> {
+                            match graph.link(link_id).weight {
+                                _ if fraction == 0.0 => Some(0),
+                                INFINITY => None,
+                                weight => Some((fraction * weight as f32) as Weight),
+                            }
+                        };
+                        let parts_of_links = part_of_link(from_link_local_id, from_link_fraction).zip(part_of_link(to_link_local_id, to_link_fraction));
+
                         let result = report_time("cch query", || {
+                            let (from_part, to_part) = parts_of_links?;
                             server.query(Query { from, to }).found().map(|mut result| {
-                                let distance = result.distance()
-                                    + (from_link_fraction * from_link.weight as f32) as u32
-                                    + (to_link_fraction * to_link.weight as f32) as u32;
+                                let distance = result.distance() + from_part + to_part;
 
                                 let path = result.node_path();
                                 let path_iter = path.iter();
@@ -334,8 +342,10 @@ fn main() -> Result<(), Box<dyn Error>> {
                                     travel_time[link_idx as usize] = weight.0
                                 }
                             }
-                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            server.lock().unwrap().update(customized);
+                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], &travel_time[..]));
+                            let (server, weights) = &mut *server.lock().unwrap();
+                            server.update(customized);
+                            *weights = travel_time;
                         });
                     }
                 }
-- 
2.43.0


From 6d829c9a2a99d47244ea1483fca7d8cda68b15b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 32/50] fix: interval potentials on hierarchies with few arcs
 or an arcless first node

---
 engine/src/algo/td_astar.rs                   | 24 +++++++++----------
 .../src/algo/traffic_aware/td_traffic_pots.rs | 24 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index d1d46df..8e736f7 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -317,13 +317,13 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        let target_edges_per_thread = max((m + k - 1) / k, 1);
+        // the first chunk always starts at node 0, even if that node has no arcs
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(cch.forward_tail().chunks(target_edges_per_thread).skip(1).map(|chunk| chunk[0] as usize))
             .collect();
+        // there might be less than k nonempty chunks
+        first_node_of_chunk.resize(k + 1, n);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -1094,13 +1094,13 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        let target_edges_per_thread = max((m + k - 1) / k, 1);
+        // the first chunk always starts at node 0, even if that node has no arcs
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(cch.forward_tail().chunks(target_edges_per_thread).skip(1).map(|chunk| chunk[0] as usize))
             .collect();
+        // there might be less than k nonempty chunks
+        first_node_of_chunk.resize(k + 1, n);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index 20b00ed..0f1ceed 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -218,13 +218,13 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        let target_edges_per_thread = max((m + k - 1) / k, 1);
+        // the first chunk always starts at node 0, even if that node has no arcs
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(cch.forward_tail().chunks(target_edges_per_thread).skip(1).map(|chunk| chunk[0] as usize))
             .collect();
+        // there might be less than k nonempty chunks
+        first_node_of_chunk.resize(k + 1, n);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -884,13 +884,13 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        let target_edges_per_thread = max((m + k - 1) / k, 1);
+        // the first chunk always starts at node 0, even if that node has no arcs
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(cch.forward_tail().chunks(target_edges_per_thread).skip(1).map(|chunk| chunk[0] as usize))
             .collect();
+        // there might be less than k nonempty chunks
+        first_node_of_chunk.resize(k + 1, n);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
-- 
2.43.0


From fd41953c540bf52f4bddad26c80e54fdb7f42c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 33/50] fix: topocore time-dependent queries outside of the
 core

---
 engine/src/algo/ch_potentials/td_query.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..60701b6 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -108,7 +108,10 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
+        // Without distinct core nodes to enter and leave by, the shortest path does not use the core at all.
+        let through_core =
+            into_core != out_of_core && virtual_topocore.node_type(into_core).in_core() && virtual_topocore.node_type(out_of_core).in_core();
+        let comp_target = if through_core { into_core } else { query.to() };
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -124,13 +127,23 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| {
+                    let dist = *comp_search.tentative_distance(comp_target);
+                    dist < INFINITY && e.key >= dist + potential.potential(comp_target, Some(dist)).unwrap_or(INFINITY)
+                })
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
+        if *comp_search.tentative_distance(comp_target) >= INFINITY {
+            return None;
+        }
+        if !through_core {
+            return Some(*comp_search.tentative_distance(query.to()) - departure);
+        }
+
         let mut pushs = comp_search.num_queue_pushs();
         let mut relaxed = comp_search.num_relaxed_arcs();
 
-- 
2.43.0


From 82935ddda116c8a501c841e7694feb36d8eebe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 34/50] fix: live_lower_bound has to cover departures before
 the live value expires

---
 engine/src/datastr/graph/time_dependent/graph.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..04e8145 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -426,11 +426,17 @@ impl PessimisticLiveTDGraph {
     pub fn live_lower_bound(&self, edge_id: EdgeId, now: Timestamp, until: Timestamp) -> Weight {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
-            if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+            // up to `soon`, the live value applies, but it never undercuts the prediction
+            if soon <= now {
+                return ttf.lower_bound_in_range(now..until);
+            }
+            let live_until = std::cmp::min(soon, until);
+            let live_bound = std::cmp::min(live, ttf.eval(soon).saturating_add(soon - live_until));
+            let live_bound = std::cmp::max(live_bound, ttf.lower_bound_in_range(now..live_until));
+            if soon < until {
+                std::cmp::min(live_bound, ttf.lower_bound_in_range(soon..until))
             } else {
-                let tt_soon = ttf.eval(soon);
-                std::cmp::min(live, tt_soon.saturating_add(soon - until))
+                live_bound
             }
         } else {
             ttf.lower_bound_in_range(now..until)
-- 
2.43.0


From ee2c170cebcae616ea7468eb878eb373eabf3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 35/50] fix: merging travel time functions may yield a constant
 one

---
 .../floating_time_dependent/piecewise_linear_function.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8f6d023..ddb0f25 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1162,9 +1162,12 @@ impl<'a> PartialPiecewiseLinearFunction<'a> {
             );
         }
         debug_assert!(!start.fuzzy_lt(result[0].at));
-        debug_assert!(start.fuzzy_lt(result[1].at));
-        debug_assert!(!result[result.len() - 1].at.fuzzy_lt(end));
-        debug_assert!(result[result.len() - 2].at.fuzzy_lt(end));
+        // a periodic function may also be constant and consist of a single point
+        if result.len() > 1 || !FullRange::VALUE {
+            debug_assert!(start.fuzzy_lt(result[1].at));
+            debug_assert!(!result[result.len() - 1].at.fuzzy_lt(end));
+            debug_assert!(result[result.len() - 2].at.fuzzy_lt(end));
+        }
 
         let ret = (Box::from(&result[..]), better);
         result.clear();
-- 
2.43.0


From 55e41a258845104f311ff8b9bc9281e119078fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 36/50] fix: merging non-periodic profiles over a whole period
 must not expect them to end as they started

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index ddb0f25..8e6cf45 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1153,7 +1153,8 @@ impl<'a> PartialPiecewiseLinearFunction<'a> {
             debug_assert!(!at.fuzzy_lt(start));
             debug_assert!(!end.fuzzy_lt(at));
         }
-        if !f.cur().val.fuzzy_eq(g.cur().val) && start == Timestamp::ZERO && end == period() {
+        // only periodic functions have to end as they started
+        if FullRange::VALUE && !f.cur().val.fuzzy_eq(g.cur().val) && start == Timestamp::ZERO && end == period() {
             debug_assert_eq!(
                 better.first().map(|(_, better_fn)| better_fn),
                 better.last().map(|(_, better_fn)| better_fn),
-- 
2.43.0


From 4a11b37682076a9a8f22f7f342ebf5f823d93c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 37/50] fix: a partial profile starting with a period has
 nothing to wrap around when made periodic

---
 .../travel_time_function.rs                   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
index 642ca0c..c4e3e74 100644
--- a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
@@ -1542,12 +1542,16 @@ where
                 let (times_period, _) = partial.start.split_of_period();
                 let low_offset = times_period * FlWeight::from(period());
                 let mid_offset = low_offset + period();
+                // nothing to wrap around when the partial starts with a period
+                let wraps = mid_offset.fuzzy_lt(partial.start + FlWeight::from(period()));
 
                 let new_container = match ttf {
                     PartialATTF::Exact(plf) => {
                         let mut target = Vec::with_capacity(plf.len() + 2);
-                        plf.sub_plf(mid_offset, partial.start + FlWeight::from(period()))
-                            .append(mid_offset, &mut target);
+                        if wraps {
+                            plf.sub_plf(mid_offset, partial.start + FlWeight::from(period()))
+                                .append(mid_offset, &mut target);
+                        }
                         for p in &mut target {
                             p.at = p.at - FlWeight::from(period());
                         }
@@ -1560,9 +1564,11 @@ where
                     }
                     PartialATTF::Approx(lower_plf, upper_plf) => {
                         let mut lower_target = Vec::with_capacity(lower_plf.len() + 2);
-                        lower_plf
-                            .sub_plf(mid_offset, partial.start + FlWeight::from(period()))
-                            .append(mid_offset, &mut lower_target);
+                        if wraps {
+                            lower_plf
+                                .sub_plf(mid_offset, partial.start + FlWeight::from(period()))
+                                .append(mid_offset, &mut lower_target);
+                        }
                         for p in &mut lower_target {
                             p.at = p.at - FlWeight::from(period());
                         }
@@ -1574,9 +1580,11 @@ where
                         PeriodicPiecewiseLinearFunction::make_lower_bound_periodic(&mut lower_target);
 
                         let mut upper_target = Vec::with_capacity(upper_plf.len() + 2);
-                        upper_plf
-                            .sub_plf(mid_offset, partial.start + FlWeight::from(period()))
-                            .append(mid_offset, &mut upper_target);
+                        if wraps {
+                            upper_plf
+                                .sub_plf(mid_offset, partial.start + FlWeight::from(period()))
+                                .append(mid_offset, &mut upper_target);
+                        }
                         for p in &mut upper_target {
                             p.at = p.at - FlWeight::from(period());
                         }
-- 
2.43.0


From 5f4c05483734ac68b2af3fd7d783a9677fc55b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 38/50] fix: naive profile query must accept unreachable
 targets

---
 engine/src/algo/catchup/profiles_naive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 3eeefee..d489508 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -316,7 +316,7 @@ impl<'a> Server<'a> {
             dbg_each!(tentative_distance, self.lower_bounds_to_target[self.from as usize])
         );
         debug_assert!(
-            FlWeight::ZERO.fuzzy_eq(self.lower_bounds_to_target[self.to as usize]),
+            FlWeight::ZERO.fuzzy_eq(self.lower_bounds_to_target[self.to as usize]) || tentative_distance.0.fuzzy_eq(FlWeight::INFINITY),
             "{:?}",
             dbg_each!(self.lower_bounds_to_target[self.to as usize])
         );
-- 
2.43.0


From c5b3548ef3fd07a5491b417bddcb54a8017f930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 39/50] fix: inverse evaluation must add whole periods, not the
 number of periods

---
 .../floating_time_dependent/piecewise_linear_function.rs     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8e6cf45..ce5f14f 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -85,7 +85,7 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
         }
 
         let wrap_val = self.ipps.first().unwrap().val;
-        let (p, t) = (t - wrap_val).split_of_period();
+        let (times_period, t) = (t - wrap_val).split_of_period();
         let t = t + wrap_val;
 
         let first = self.first().unwrap();
@@ -104,7 +104,8 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
             }
         });
 
-        p + match pos {
+        let periods = times_period * FlWeight::from(period());
+        periods + match pos {
             Ok(i) => unsafe { self.ipps.get_unchecked(i).at },
             Err(i) => {
                 let prev = unsafe { self.ipps.get_unchecked(i - 1) };
-- 
2.43.0


From a3bad53bba6d1d90606e7cda3a026bfabad6a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 40/50] fix: approximated lower bounds of travel times must not
 become negative

---
 .../floating_time_dependent/piecewise_linear_function.rs     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index ce5f14f..0ae2f04 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1233,7 +1233,10 @@ impl<'a> PartialPiecewiseLinearFunction<'a> {
             (i_max, max_delta.abs())
         };
 
-        if delta > APPROX {
+        // travel times are never negative, and neither may their lower bounds be
+        let lower_negative = min(first.val, last.val) + min(FlWeight::ZERO, min_delta) < FlWeight::ZERO;
+
+        if delta > APPROX || lower_negative {
             Self { ipps: &self.ipps[0..=i] }.douglas_peuker_combined(result_lower, result_upper);
             let prev_min = result_lower.pop().map(|p| p.val).unwrap_or(FlWeight::ZERO);
             let prev_max = result_upper.pop().map(|p| p.val).unwrap_or(FlWeight::ZERO);
-- 
2.43.0


From 6bb8160d745b2650d37c11c40700800f355a89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 41/50] fix: merged bounds must cover overlaps in which the
 other function is better from the start

---
 .../graph/floating_time_dependent/travel_time_function.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
index c4e3e74..ab5d7f2 100644
--- a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
@@ -390,7 +390,7 @@ impl<'a> PeriodicATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
@@ -449,7 +449,7 @@ impl<'a> PeriodicATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
@@ -958,7 +958,7 @@ impl<'a> PartialATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
@@ -1017,7 +1017,7 @@ impl<'a> PartialATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
-- 
2.43.0


From 46b17a2102721802dad24e1c5faaf27ed2399f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 42/50] fix: merged bounds of periodic travel time functions
 must be periodic

---
 .../graph/floating_time_dependent/travel_time_function.rs     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
index ab5d7f2..0d9b396 100644
--- a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
@@ -611,6 +611,10 @@ impl<'a> PeriodicATTF<'a> {
             }
         }
 
+        // the better function may be a different one at the end than at the beginning when both are equally good
+        PeriodicPiecewiseLinearFunction::make_lower_bound_periodic(&mut buffers.exact_result_lower);
+        PeriodicPiecewiseLinearFunction::make_upper_bound_periodic(&mut buffers.exact_result_upper);
+
         let ret = (
             ATTFContainer::Approx(Box::from(&buffers.exact_result_lower[..]), Box::from(&buffers.exact_result_upper[..])),
             result,
-- 
2.43.0


From cc088278defe994a11fd6e0c6945ffaaadde617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 43/50] fix: linking partial travel time functions must accept
 a single arrival time for all departures

---
 .../piecewise_linear_function.rs                     | 12 ++++++++++++
 .../floating_time_dependent/travel_time_function.rs  | 10 +++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 0ae2f04..7d2cb94 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -624,6 +624,18 @@ impl<'a> PartialPiecewiseLinearFunction<'a> {
         return self.get_sub_plf(start, end).unwrap();
     }
 
+    /// Like `sub_plf` but the range may also be just a single point in time, yielding a constant function.
+    pub(super) fn sub_plf_or_constant<'b>(&self, start: Timestamp, end: Timestamp, point: &'b mut Option<TTFPoint>) -> PartialPiecewiseLinearFunction<'b>
+    where
+        'a: 'b,
+    {
+        if start.fuzzy_lt(end) {
+            return self.sub_plf(start, end);
+        }
+        let val = self.eval(start);
+        PartialPiecewiseLinearFunction::new(std::slice::from_ref(point.insert(TTFPoint { at: start, val })))
+    }
+
     /// Copy full slice of points to target/first.
     /// The difference here to the other copy/append methods is that we don't need the Cursor logig but can copy the entire slice.
     /// When target already covers switchover, restrict those points to the range up to start, insert a point by linear interpolation
diff --git a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
index 0d9b396..b4c13c6 100644
--- a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
@@ -735,7 +735,8 @@ impl<'a> PartialATTF<'a> {
             let first = first.sub_plf(start, end);
             let second_start = start + first.eval(start);
             let second_end = end + first.eval(end);
-            let second = second.sub_plf(second_start, second_end);
+            let mut point = Default::default();
+            let second = second.sub_plf_or_constant(second_start, second_end, &mut point);
             let mut result = Vec::new();
             first.link(&second, start, end, &mut result);
             return ATTFContainer::Exact(result.into());
@@ -753,8 +754,11 @@ impl<'a> PartialATTF<'a> {
 
         let mut result_lower = Vec::new();
         let mut result_upper = Vec::new();
-        first_lower.link(&second_lower.sub_plf(second_lower_start, second_lower_end), start, end, &mut result_lower);
-        first_upper.link(&second_upper.sub_plf(second_upper_start, second_upper_end), start, end, &mut result_upper);
+        let (mut lower_point, mut upper_point) = Default::default();
+        let second_lower = second_lower.sub_plf_or_constant(second_lower_start, second_lower_end, &mut lower_point);
+        let second_upper = second_upper.sub_plf_or_constant(second_upper_start, second_upper_end, &mut upper_point);
+        first_lower.link(&second_lower, start, end, &mut result_lower);
+        first_upper.link(&second_upper, start, end, &mut result_upper);
 
         // TODO reusable buffers or something
 
-- 
2.43.0


From eff3ff22c6e93dd597c5794187ebc905ad2e3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 44/50] fix: appending a range of a travel time function may
 only drop the switching point when the next segment is colinear

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 7d2cb94..0b1ddb6 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -199,7 +199,7 @@ impl<'a> PeriodicPiecewiseLinearFunction<'a> {
                     dbg_each!(switchover_val, second_switchover_val, start)
                 );
 
-                if !(target.last() == Some(&f.prev()) || interpolate_linear(target.last().unwrap(), &f.next(), start).fuzzy_eq(switchover_val)) {
+                if !(target.last() == Some(&f.prev()) || interpolate_linear(target.last().unwrap(), &f.cur(), start).fuzzy_eq(switchover_val)) {
                     target.push(TTFPoint {
                         at: start,
                         val: switchover_val,
-- 
2.43.0


From 158c039faa7f777d754ab983658b4483b9902832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 45/50] fix: allow reporting contexts inside captured reports

---
 engine/src/report.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/engine/src/report.rs b/engine/src/report.rs
index 682c795..fb823a6 100644
--- a/engine/src/report.rs
+++ b/engine/src/report.rs
@@ -80,6 +80,7 @@ impl Reporter {
                 swap(&mut tmp, object);
                 self.context_stack.push(ContextStackItem::Capture(tmp));
                 self.context_stack.push(ContextStackItem::Key(key));
+                self.current = CurrentReportingContext::Object(BTreeMap::new());
             }
             CurrentReportingContext::Collection(_) => {
                 panic!("Cannot create object at key in collection");
@@ -204,24 +205,29 @@ impl Reporter {
             ContextStackItem::Key(key) => {
                 let parent = self.context_stack.pop().expect("tried to pop from empty context");
 
-                if let ContextStackItem::Object(mut object) = parent {
-                    let mut prev_current = CurrentReportingContext::Object(Default::default());
-                    swap(&mut self.current, &mut prev_current);
-
-                    let prev = match prev_current {
-                        CurrentReportingContext::Object(cur_object) => object.insert(key, ReportingValue::Object(cur_object)),
-                        CurrentReportingContext::Collection(collection) => object.insert(key, ReportingValue::Collection(collection)),
-                        CurrentReportingContext::Throwaway => None,
-                        CurrentReportingContext::Capture(_) => panic!("Inconsistent context stack"),
-                    };
-                    if !cfg!(feature = "report-allow-override") {
-                        assert!(prev.is_none());
-                    }
+                let (mut object, in_capture) = match parent {
+                    ContextStackItem::Object(object) => (object, false),
+                    ContextStackItem::Capture(object) => (object, true),
+                    _ => panic!("Inconsistent context stack"),
+                };
+                let mut prev_current = CurrentReportingContext::Object(Default::default());
+                swap(&mut self.current, &mut prev_current);
 
-                    self.current = CurrentReportingContext::Object(object);
-                } else {
-                    panic!("Inconsistent context stack");
+                let prev = match prev_current {
+                    CurrentReportingContext::Object(cur_object) => object.insert(key, ReportingValue::Object(cur_object)),
+                    CurrentReportingContext::Collection(collection) => object.insert(key, ReportingValue::Collection(collection)),
+                    CurrentReportingContext::Throwaway => None,
+                    CurrentReportingContext::Capture(_) => panic!("Inconsistent context stack"),
+                };
+                if !cfg!(feature = "report-allow-override") {
+                    assert!(prev.is_none());
                 }
+
+                self.current = if in_capture {
+                    CurrentReportingContext::Capture(object)
+                } else {
+                    CurrentReportingContext::Object(object)
+                };
             }
             ContextStackItem::Collection(mut collection) => {
                 let mut prev_current = CurrentReportingContext::Object(Default::default());
-- 
2.43.0


From 9771fa52a3b4914f9da119086bde8a2f42d048d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 46/50] fix: keep detour blocking from proposing a blocked
 detour again

---
 engine/src/algo/traffic_aware.rs                | 6 ++++--
 engine/src/algo/traffic_aware/td_live.rs        | 6 ++++--
 engine/src/algo/traffic_aware/time_dependent.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/traffic_aware.rs b/engine/src/algo/traffic_aware.rs
index 35d743e..c386df5 100644
--- a/engine/src/algo/traffic_aware.rs
+++ b/engine/src/algo/traffic_aware.rs
@@ -521,7 +521,9 @@ use crate::algo::ch_potentials::query::Server as TopoDijkServer;
 
 pub struct HeuristicTrafficAwareServer<'a> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
-    shortest_path: TopoDijkServer<OwnedGraph, BlockedDetoursDijkstra<DefaultOpsByEdgeId>, RecyclingPotential<BorrowedCCHPot<'a>>, true, true, true>,
+    // No skipping of low degree nodes: it propagates tentative labels whose parents may still change,
+    // but blocked detours are recognized by following the parents.
+    shortest_path: TopoDijkServer<OwnedGraph, BlockedDetoursDijkstra<DefaultOpsByEdgeId>, RecyclingPotential<BorrowedCCHPot<'a>>, true, false, false>,
 }
 
 impl<'a> HeuristicTrafficAwareServer<'a> {
@@ -530,7 +532,7 @@ impl<'a> HeuristicTrafficAwareServer<'a> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TopoDijkServer::new(
+            shortest_path: TopoDijkServer::new_custom(
                 &live_graph,
                 RecyclingPotential::new(live_cch_pot.forward_potential()),
                 BlockedDetoursDijkstra::new(n, DefaultOpsByEdgeId()),
diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index b5b0882..68894c7 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -153,8 +153,10 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
 
 pub struct HeuristicTDTrafficAwareServer<'a, P> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
+    // No skipping of low degree nodes: it propagates tentative labels whose parents may still change,
+    // but blocked detours are recognized by following the parents.
     shortest_path:
-        TDTopoDijkServer<PessimisticLiveTDGraph, BlockedDetoursDijkstra<PessimisticLiveTDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, true, true>,
+        TDTopoDijkServer<PessimisticLiveTDGraph, BlockedDetoursDijkstra<PessimisticLiveTDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, false, false>,
 }
 
 impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
@@ -163,7 +165,7 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TDTopoDijkServer::new(
+            shortest_path: TDTopoDijkServer::new_custom(
                 live_graph,
                 td_astar::TDRecyclingPotential::new(live_cch_pot),
                 BlockedDetoursDijkstra::new(n, PessimisticLiveTDDijkstraOps()),
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index a640a3a..e85e127 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -153,7 +153,9 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
 
 pub struct HeuristicTDTrafficAwareServer<'a, P> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
-    shortest_path: TDTopoDijkServer<TDGraph, BlockedDetoursDijkstra<TDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, true, true>,
+    // No skipping of low degree nodes: it propagates tentative labels whose parents may still change,
+    // but blocked detours are recognized by following the parents.
+    shortest_path: TDTopoDijkServer<TDGraph, BlockedDetoursDijkstra<TDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, false, false>,
 }
 
 impl<'a> HeuristicTDTrafficAwareServer<'a, BorrowedCCHPot<'a>> {}
@@ -164,7 +166,7 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TDTopoDijkServer::new(
+            shortest_path: TDTopoDijkServer::new_custom(
                 live_graph,
                 td_astar::TDRecyclingPotential::new(live_cch_pot),
                 BlockedDetoursDijkstra::new(n, TDDijkstraOps()),
-- 
2.43.0


From a3a48c8483cb0b5545b45e793d24a78dc3fd9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:21 +0000
Subject: [PATCH 47/50] fix: average travel time functions over exactly the
 range asked for

---
 .../graph/time_dependent/piecewise_linear_function.rs  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 940d9be..90c969b 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,14 +30,18 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
-        let (first_range, second_range) = monotone_range.split(period());
+        let (first_range, second_range) = Self::split_at_period(monotone_range);
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-            sum += u64::from(seg.line.line().from.val) * u64::from(delta);
-            sum += u64::from(seg.line.line().to.val) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.start)) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.end)) * u64::from(delta);
         }
         (sum / 2 / u64::from(total_time)) as Weight
     }
-- 
2.43.0


From 98bac52038effe49fda88ee60d778ed135d40bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 48/50] fix: allow bucket selections with several terminals at
 the same node

---
 engine/src/algo/ch_potentials.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 0972b3b..cf49dab 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -645,7 +645,7 @@ pub struct BucketCHSelectionRun<'a, G, H> {
     queue: &'a mut IndexdMinHeap<NodeIdT>,
     incoming: &'a mut [Vec<(NodeIdT, Weight)>],
     incoming_pruning: &'a mut [Vec<(NodeIdT, Weight)>],
-    terminal_dists: &'a mut [Weight],
+    terminal_dists: &'a mut Vec<Weight>,
     used_terminals: &'a mut Vec<NodeIdT>,
 }
 
@@ -673,7 +673,11 @@ where
         self.queue.clear();
         self.distances.reset();
         for (i, terminal) in terminals.enumerate() {
-            self.queue.push(NodeIdT(terminal));
+            // the same node may be a terminal several times
+            if i == self.terminal_dists.len() {
+                self.terminal_dists.push(INFINITY);
+            }
+            self.queue.push_unless_contained(NodeIdT(terminal));
             self.distances[terminal as usize].push((i as u32, 0));
         }
     }
-- 
2.43.0


From 601bb4156e552a9d4d66d5538532de71720246f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:06 +0000
Subject: [PATCH 49/50] fix: evaluate live overlay arcs without a report
 instead of indexing an empty update

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 0b1ddb6..4a3b4b1 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1779,7 +1779,7 @@ impl<'a> UpdatedPiecewiseLinearFunction<'a> {
 
 impl<'a> PLF for UpdatedPiecewiseLinearFunction<'a> {
     fn evaluate(&self, t: Timestamp) -> FlWeight {
-        debug_assert!(!t.fuzzy_lt(self.update[0].at));
+        debug_assert!(self.update.first().map(|p| !t.fuzzy_lt(p.at)).unwrap_or(true));
         if self.update.last().map(|p| t <= p.at).unwrap_or(false) {
             PartialPiecewiseLinearFunction::new(self.update).eval(t)
         } else {
-- 
2.43.0


From 873c142610989a460b4891eb42d76d4a1b2fba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 50/50] fix: report the alternatives of the iterative penalty
 method with the node ids of the query

---
 engine/src/algo/ch_potentials/penalty.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index b7d49ca..b115ad4 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -440,6 +440,10 @@ impl<P: Potential + Send + Clone> Penalty<P> {
 
             report!("num_iterations", i);
 
+            for node in alternatives.iter_mut().flatten() {
+                *node = self.virtual_topocore.order.node(*node);
+            }
+
             for node in self.nodes_to_reset.drain(..) {
                 self.times_penalized[node as usize] = 0;
                 for (_, EdgeIdT(edge)) in LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&alternative_graph_dijkstra.graph().graph, node) {
-- 
2.43.0

