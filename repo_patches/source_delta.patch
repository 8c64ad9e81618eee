From 22ca152dde24f035e79567904e0230eff1cfd3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 1/6] fix: treat paths with unrepresentable weight as
 non-existing instead of wrapping around

---
 src/node_contractor.rs |  5 ++++-
 src/path_calculator.rs | 20 +++++++++++++-------
 src/witness_search.rs  |  2 +-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..3612e72 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,10 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            // paths whose weight is not representable are treated like non-existing paths
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..20674a8 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,7 +93,7 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
                     best_weight = *start_weight + *end_weight;
                     meeting_node = *end_node;
@@ -142,7 +142,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
@@ -150,7 +150,10 @@ impl PathCalculator {
                 }
                 self.data_fwd[curr.node_id].settled = true;
                 if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id))
+                        < best_weight
                 {
                     best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
                     meeting_node = curr.node_id;
@@ -178,7 +181,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
@@ -186,7 +189,10 @@ impl PathCalculator {
                 }
                 self.data_bwd[curr.node_id].settled = true;
                 if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id))
+                        < best_weight
                 {
                     best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
                     meeting_node = curr.node_id;
@@ -220,7 +226,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +243,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..dab91a1 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -131,7 +131,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From 25d2e60ca8d81ffa8d855520ea8c6064c519964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 2/6] fix: reject node orderings that contain a node more than
 once

---
 src/fast_graph_builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fast_graph_builder.rs b/src/fast_graph_builder.rs
index 19137cc..83ecf66 100644
--- a/src/fast_graph_builder.rs
+++ b/src/fast_graph_builder.rs
@@ -76,6 +76,13 @@ impl FastGraphBuilder {
                 "The given order must have as many nodes as the input graph",
             ));
         }
+        let mut seen = vec![false; order.len()];
+        for node in order.iter().cloned().filter(|n| *n < order.len()) {
+            if seen[node] {
+                return Err(format!("The given order contains node {} twice", node));
+            }
+            seen[node] = true;
+        }
         let mut builder = FastGraphBuilder::new(input_graph);
         builder.run_contraction_with_order(input_graph, order, params);
         Ok(builder.fast_graph)
-- 
2.43.0


From 47df739f95a757b694a51c5044d25b81fc87ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 3/6] fix: report errors of the final flush when writing graph
 files

---
 src/input_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..ef0c1a8 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +107,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From 092fbc92a726a9b5e1a9279100936a09dd61d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 4/6] fix: refuse 32-bit conversion of values equal to the
 reserved u32::MAX

---
 src/fast_graph32.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..c33f2da 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -79,11 +79,12 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
-    } else if let Ok(x) = u32::try_from(int) {
-        x
-    } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        return std::u32::MAX;
+    }
+    match u32::try_from(int) {
+        // u32::MAX is reserved, because it represents usize::MAX
+        Ok(x) if x != std::u32::MAX => x,
+        _ => panic!("Could not convert {} to a 32-bit integer", int),
     }
 }
 
-- 
2.43.0


From 76e42a7da6511e867bb4a4e9c70f4d532e7c0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 5/6] fix: unpack shortcuts without recursion, deep nesting
 overflowed the stack

---
 src/path_calculator.rs | 96 +++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 20674a8..47ba8a3 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -273,70 +273,44 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse);
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse);
+    }
+
+    /// Shortcuts can be nested arbitrarily deep, so we use an explicit stack instead of recursion
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        is_fwd: bool,
+        reverse: bool,
+    ) {
+        let mut stack = vec![(edge_id, is_fwd)];
+        while let Some((edge_id, is_fwd)) = stack.pop() {
+            let edge = if is_fwd {
+                &graph.edges_fwd[edge_id]
+            } else {
+                &graph.edges_bwd[edge_id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if is_fwd {
+                    edge.base_node
+                } else {
+                    edge.adj_node
+                });
+                continue;
+            }
+            // the edge that is pushed last is unpacked first
+            if reverse {
+                stack.push((edge.replaced_in_edge, false));
+                stack.push((edge.replaced_out_edge, true));
+            } else {
+                stack.push((edge.replaced_out_edge, true));
+                stack.push((edge.replaced_in_edge, false));
+            }
         }
     }
 
-- 
2.43.0


From 6f184ea7a67224d7bb324a34c3aaf05bbd8598f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 6/6] Add verification hook to set the epoch of a path
 calculator (cfg fast_paths_verif)

---
 src/path_calculator.rs | 8 ++++++++
 src/valid_flags.rs     | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 47ba8a3..ea6801d 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -52,6 +52,14 @@ impl PathCalculator {
         }
     }
 
+    /// Verification hook: makes this calculator behave as if it had run so many calculations already
+    /// that its internal epochs reached the given value
+    #[cfg(fast_paths_verif)]
+    pub fn verif_set_epoch(&mut self, epoch: u32) {
+        self.valid_flags_fwd.verif_set_epoch(epoch);
+        self.valid_flags_bwd.verif_set_epoch(epoch);
+    }
+
     pub fn calc_path(
         &mut self,
         graph: &FastGraph,
diff --git a/src/valid_flags.rs b/src/valid_flags.rs
index 1bb9fc6..1a2a174 100644
--- a/src/valid_flags.rs
+++ b/src/valid_flags.rs
@@ -36,6 +36,11 @@ impl ValidFlags {
         }
     }
 
+    #[cfg(fast_paths_verif)]
+    pub fn verif_set_epoch(&mut self, epoch: u32) {
+        self.valid_flag = epoch;
+    }
+
     pub fn is_valid(&self, node: NodeId) -> bool {
         self.valid_flags[node] == self.valid_flag
     }
-- 
2.43.0

