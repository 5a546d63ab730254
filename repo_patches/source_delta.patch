From 35e2e6f4aa220fc04169f825102f9b042d825693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 01/51] fix: reject nodes from other graphs

The checks negated the graph id (a bitwise not on an integer) instead of comparing it, so a NodeId of a different Graph was taken for one of this Graph.
---
 knaster_graph/src/graph.rs      | 14 +++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..ff3a05a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -504,13 +504,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -572,7 +572,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -635,14 +635,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -732,7 +732,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1353,7 +1353,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 114a125bb9aece415efef6139426e4164145f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 02/51] fix: set_mortality and set_name check that the node is
 in this graph

set_mortality changed whichever node had the same key and returned Ok for freed nodes, set_name panicked for freed nodes.
---
 knaster_graph/src/graph.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ff3a05a..ce3d53d 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -433,7 +433,15 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
-        self.get_nodes_mut()[node_id.key()].name = name;
+        if node_id.graph != self.graph_id {
+            log::error!("Tried to name a node in a different graph");
+            return;
+        }
+        if let Some(node) = self.get_nodes_mut().get_mut(node_id.key()) {
+            node.name = name;
+        } else {
+            log::error!("Tried to name a node which does not exist");
+        }
     }
 
     /// If any node matches `name`, return its [`NodeId`]
@@ -2085,6 +2093,9 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
+        if node.graph != self.graph_id || !self.node_input_edges.contains_key(node.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
-- 
2.43.0


From db396bcf8ba803ab32d49677ede5311f1ddfbb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 03/51] fix: connections to nodes which do not exist return an
 error

A node waiting to be removed was accepted as source or sink (and the next commit panicked), and so was any parameter index and any sink of a parameter connection.
---
 knaster_graph/src/graph.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ce3d53d..44efebb 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -526,13 +526,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_input_edges.contains_key(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.node_input_edges.contains_key(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -590,7 +590,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_input_edges.contains_key(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -657,10 +657,18 @@ impl<F: Float> Graph<F> {
             });
         }
         let nodes = self.get_nodes();
+        if !self.node_input_edges.contains_key(sink.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -677,7 +685,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_input_edges.contains_key(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -750,7 +758,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.node_input_edges.contains_key(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1017,7 +1025,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.node_input_edges.contains_key(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1074,7 +1082,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.node_input_edges.contains_key(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
-- 
2.43.0


From b55f77daf53d8cd2c4a3ed718d87b41c512a84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 04/51] fix: parameter connections count as connections

They were ignored when looking for cycles, and connecting to a parameter on its own did not cause the schedule to be recalculated.
---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 44efebb..2f8267d 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -691,7 +691,11 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
 
+        self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
             .get_mut(sink.key())
@@ -1492,6 +1496,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From 9ed54f0234d0a00d63d252e5dd58612631187d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 05/51] fix: freeing or disconnecting a node removes its
 parameter connections

Freeing a node that was connected to a parameter made the next commit panic, and disconnecting it had no effect on the parameter.
---
 knaster_graph/src/graph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 2f8267d..021f6c7 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1061,6 +1061,12 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        for (_k, parameter_edges) in &mut self.node_parameter_edges {
+            parameter_edges.retain(|edge| {
+                edge.channel_in_source != source_channel
+                    || source != NodeKeyOrGraph::Node(edge.source)
+            });
+        }
         for edge in self.output_edges.iter_mut().filter(|e| e.is_some()) {
             let edge_unwraped = edge.as_mut().unwrap();
             if edge_unwraped.channel_in_source == source_channel && source == edge_unwraped.source {
@@ -1792,6 +1798,9 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        for (_k, parameter_edges) in &mut self.node_parameter_edges {
+            parameter_edges.retain(|edge| edge.source != node_key);
+        }
         // Remove all edges leading from the node to the Graph output
         {
             let mut i = 0;
-- 
2.43.0


From 23d1299a5d440b35737d3c4b63ce78e8a20c75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 06/51] fix: disconnecting a graph input leaves the graph
 outputs alone

disconnect_output_from_source(Graph, n) removed whatever was connected to graph output n, and panicked if there was no such output.
---
 knaster_graph/src/graph.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 021f6c7..e33c23c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1042,11 +1042,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
-- 
2.43.0


From a7580cd4cfcb51bd4673a84c65d560d883282abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 07/51] fix: disconnecting a graph output takes effect

The schedule was not recalculated.
---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index e33c23c..14a879b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1111,6 +1111,7 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
-- 
2.43.0


From f084af1dcb536f040109ce68339e87ff9fd719c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 08/51] fix: no panic when a sum node is removed while a graph
 output is unconnected

---
 knaster_graph/src/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 14a879b..5e28a49 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1138,8 +1138,7 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
+                        for edge in self.output_edges.iter_mut().flatten() {
                             if let NodeKeyOrGraph::Node(source) = &edge.source {
                                 if *source == key {
                                     *edge = input_edge;
-- 
2.43.0


From b28a91754f2708747b326185790710e1cb7bce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 09/51] fix: removing one of several sources of a parameter
 keeps the others

When the sum node in front of the parameter was replaced by its remaining input, the parameter was disconnected.
---
 knaster_graph/src/graph.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5e28a49..5e6db12 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1145,6 +1145,16 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
+                        if let NodeKeyOrGraph::Node(new_source) = input_edge.source {
+                            for (_k, parameter_edges) in &mut self.node_parameter_edges {
+                                for edge in parameter_edges.iter_mut() {
+                                    if edge.source == key {
+                                        edge.source = new_source;
+                                        edge.channel_in_source = input_edge.channel_in_source;
+                                    }
+                                }
+                            }
+                        }
                         self.free_node_from_key(key).ok();
                     }
                     (None, None) => {
-- 
2.43.0


From 539e3eedde8028573e834a61bd5fcf028a9d4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 10/51] fix: sum nodes that nothing is connected to are removed

Replacing a connection to an input with several sources left the sum node running for as long as its sources existed.
---
 knaster_graph/src/graph.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5e6db12..626cae5 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1116,6 +1116,18 @@ impl<F: Float> Graph<F> {
         }
         Ok(())
     }
+    /// Returns true if any output of the node is connected to something.
+    fn is_used_as_source(&self, key: NodeKey) -> bool {
+        let source = NodeKeyOrGraph::Node(key);
+        self.node_input_edges
+            .iter()
+            .any(|(_k, edges)| edges.iter().flatten().any(|e| e.source == source))
+            || self
+                .node_parameter_edges
+                .iter()
+                .any(|(_k, edges)| edges.iter().any(|e| e.source == key))
+            || self.output_edges.iter().flatten().any(|e| e.source == source)
+    }
     /// If the node should be automatically removed, this removes it.
     fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
         let node = &mut self.get_nodes_mut()[key];
@@ -1125,7 +1137,18 @@ impl<F: Float> Graph<F> {
             assert_eq!(node.data.outputs, 1);
             if let Some(edges) = self.node_input_edges.get(key) {
                 match (edges[0], edges[1]) {
-                    (Some(_), Some(_)) => (),
+                    (Some(a), Some(b)) => {
+                        // Nothing uses this sum anymore, e.g. because it was replaced
+                        if !self.is_used_as_source(key) {
+                            self.free_node_from_key(key).ok();
+                            for edge in [a, b] {
+                                if let NodeKeyOrGraph::Node(source) = edge.source {
+                                    self.evaluate_if_node_should_be_removed(source);
+                                }
+                            }
+                            return;
+                        }
+                    }
                     (None, Some(input_edge)) | (Some(input_edge), None) => {
                         // Find out where this math node is pointing and replace the node
                         for (_k, input_edges) in &mut self.node_input_edges {
-- 
2.43.0


From bb6cc0325d69346831f0bb6af3ea846864b95805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 11/51] fix: nodes without outputs don't disturb the buffer
 allocation

Their empty block had the same offset as the next block, so that returning one returned the other, or no valid pointer at all when it was the last.
---
 knaster_graph/src/graph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 626cae5..b0657fc 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1678,9 +1678,14 @@ impl<F: Float> Graph<F> {
         for (node_order_index, &key) in node_order.iter().enumerate() {
             let outputs = self.get_nodes()[key].data.outputs as usize;
             let num_borrows = self.get_nodes()[key].num_output_dependents;
-            let offset = self
-                .buffer_allocator
-                .get_block(outputs, self.block_size, num_borrows);
+            // A node without outputs doesn't get a block of its own, since a block of length 0 would
+            // have the same offset as the next one. Its output is never accessed.
+            let offset = if outputs == 0 {
+                0
+            } else {
+                self.buffer_allocator
+                    .get_block(outputs, self.block_size, num_borrows)
+            };
             self.get_nodes_mut()[key].assign_output_offset(offset);
             let mut input_pointers_to_node = None;
             // Return every block that is used as an input
-- 
2.43.0


From d11dfcb30fe180d382ebf9a7a48ef7086dd3843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 12/51] fix: buffers connected to a graph output are not reused
 within the block

A node that was connected to a graph output and to other nodes could have its output overwritten before it was copied to the graph output.
---
 knaster_graph/src/graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index b0657fc..935d403 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1663,6 +1663,12 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // The graph outputs are read after all nodes have run, so blocks used by them are never returned
+        for edge in self.output_edges.iter().filter_map(|e| *e) {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
         // Add parameter edges as dependents
         for (_key, edges) in &self.node_parameter_edges {
             for edge in edges {
-- 
2.43.0


From 20849f07a33b87a0585eda46f08b2c2904a5c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 13/51] fix: every node runs after the nodes it depends on

The search for the deepest output node followed one arbitrary path and no parameter connections, and nodes which are not connected to an output were not ordered at all.
---
 knaster_graph/src/graph.rs | 59 +++++++-------------------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 935d403..5ce7eb4 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -2049,44 +2049,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2100,19 +2062,16 @@ impl<F: Float> Graph<F> {
                 // The same source node may be present in multiple output edges
                 // e.g. for stereo so we need to check if visited. The input to
                 // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // graph output. Therefore the search from one output is
+                // finished before the next one starts.
+                if visited.insert(source) {
+                    nodes_to_process.push(source);
+                    let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                    self.node_order.extend(stack);
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
         // Add all remaining nodes. These are not currently connected to anything.
         let mut remaining_nodes = vec![];
         for (node_key, _node) in self.get_nodes() {
@@ -2122,7 +2081,11 @@ impl<F: Float> Graph<F> {
                     .iter()
                     .any(|(key, _)| key == &node_key)
             {
-                remaining_nodes.push(node_key);
+                // They may still be connected to each other
+                visited.insert(node_key);
+                nodes_to_process.push(node_key);
+                remaining_nodes
+                    .extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
             }
         }
         self.node_order.extend(remaining_nodes.iter());
-- 
2.43.0


From 449f5d15891d6eaf7c2679b8193dd3ef8b9cb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 14/51] fix: feedback connections delay by exactly one block

Both nodes of a feedback connection were FeedbackSink, so nothing came out of it. Which of the two
buffers to use now follows from the time instead of from the order in which the two nodes run, and
the connections to and from them take part in the ordering of nodes like all others.
---
 knaster_graph/src/graph.rs | 50 ++++++++++++++------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5ce7eb4..2852afd 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -904,17 +903,11 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
         };
-        let source = FeedbackSink {
+        let source = FeedbackSource {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
         };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
@@ -1086,7 +1079,6 @@ impl<F: Float> Graph<F> {
                         found_graph: self.graph_id,
                     });
                 }
-                let nodes = self.get_nodes();
                 if !self.node_input_edges.contains_key(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
@@ -2020,14 +2012,13 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                // Feedback is broken up by a pair of nodes, so there are no cycles to avoid here
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
@@ -2397,12 +2388,12 @@ impl From<u16> for Channels<U1> {
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+}
+/// The index of the buffer that the [`FeedbackSink`] writes to in the current block. The
+/// [`FeedbackSource`] reads from the other one. Since it depends only on the time, the delay is one
+/// block no matter which of the two runs first.
+fn feedback_write_buffer(ctx: &AudioCtx) -> usize {
+    ((ctx.frame_clock() / ctx.block_size() as u64) % 2) as usize
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2421,7 +2412,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         _flags: &mut knaster_core::UGenFlags,
         input: &InBlock,
         _output: &mut OutBlock,
@@ -2429,7 +2420,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
+        let bufnum = feedback_write_buffer(ctx);
         let input = input.channel_as_slice(0);
         unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
     }
@@ -2454,9 +2445,6 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2475,7 +2463,7 @@ impl<F: Float> UGen for FeedbackSource<F> {
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         _flags: &mut knaster_core::UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -2483,9 +2471,7 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
+        let prev_buffer = 1 - feedback_write_buffer(ctx);
         let output = output.channel_as_slice_mut(0);
         unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
     }
-- 
2.43.0


From ec1ccfcfede77bcfcff81bf00a29d1f16a1e191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 15/51] fix: edits are kept when the channel to the audio
 thread is full

---
 knaster_graph/src/graph.rs      | 5 +++++
 knaster_graph/src/graph_edit.rs | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 2852afd..ca617bd 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1769,6 +1769,11 @@ impl<F: Float> Graph<F> {
         self.free_old();
         self.graph_gen_communicator.free_old_task_data();
         if self.recalculation_required {
+            // Check that the changes can be sent before the UGens of new nodes are moved into
+            // tasks. Otherwise the changes stay in the Graph and are sent by the next commit.
+            if self.graph_gen_communicator.new_task_data_producer.is_full() {
+                return Err(GraphError::SendToGraphGen("ring buffer full".into()));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
 
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..364ef57 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -257,7 +257,9 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 }
 impl<F: Float> Drop for GraphEdit<'_, F> {
     fn drop(&mut self) {
-        self.graph.write().commit_changes().unwrap();
+        if let Err(e) = self.graph.write().commit_changes() {
+            log::error!("Changes will be sent with the next edit: {e}");
+        }
     }
 }
 
-- 
2.43.0


From 6b612b87dcd7e43e51282660244be47f1984e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 16/51] fix: TaskData is never dropped on the audio thread

---
 knaster_graph/src/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ca617bd..5352696 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -223,8 +223,10 @@ impl<F: Float> Graph<F> {
 
         let (new_task_data_producer, new_task_data_consumer) =
             RingBuffer::<TaskData<F>>::new(ring_buffer_size);
+        // The Graph empties this channel before it sends new TaskData. The audio thread may then
+        // return everything that was already sent as well as the new TaskData.
         let (task_data_to_be_dropped_producer, task_data_to_be_dropped_consumer) =
-            RingBuffer::<TaskData<F>>::new(ring_buffer_size);
+            RingBuffer::<TaskData<F>>::new(ring_buffer_size + 1);
         let (scheduling_event_producer, scheduling_event_receiver) =
             rtrb::RingBuffer::new(ring_buffer_size);
 
-- 
2.43.0


From 97f76d83a58d3da45fd34f0d996e9434f98a4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 17/51] fix: the delay of one parameter change doesn't apply to
 later changes

---
 knaster_core/src/ugen.rs       | 4 +++-
 knaster_graph/src/graph_gen.rs | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..fe5ad1f 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -337,7 +337,9 @@ pub trait UGen {
     /// Wrappers must propagagte this call.
     #[allow(unused)]
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        rt_log!(ctx.logger(); "Warning: Parameter delay set, but did not reach a WrHiResParams and will have no effect.");
+        if delay > 0 {
+            rt_log!(ctx.logger(); "Warning: Parameter delay set, but did not reach a WrHiResParams and will have no effect.");
+        }
     }
     /// Apply a parameter change. Typechecks and bounds checks the arguments and
     /// provides sensible errors. Calls [`UGen::param_apply`] under the hood.
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..3902250 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -297,6 +297,10 @@ fn apply_parameter_change<'a, F: Float>(
                 if let Some(value) = event.value {
                     g.param_apply(ctx, event.parameter, value);
                 }
+                if delay_in_block > 0 {
+                    // The delay doesn't concern later changes of the same parameter
+                    g.set_delay_within_block_for_param(ctx, event.parameter, 0);
+                }
                 return None;
             }
         }
-- 
2.43.0


From 376c7181b2a7ba30c022fb3a14fe9589c95a013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 18/51] fix: sample accurate changes are applied at their time
 in whichever order they arrive

---
 .../src/wrappers_core/precise_timing.rs           | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..4afe795 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -4,8 +4,9 @@ use knaster_core::{
     AudioCtx, ParameterHint, ParameterValue, PartialBlock, UGen, UGenFlags, rt_log,
 };
 
-/// Enables sample accurate parameter changes within a block. Changes must be
-/// scheduled in the order they are to be applied.
+/// Enables sample accurate parameter changes within a block. Changes can be
+/// scheduled in any order, changes for the same frame are applied in the order
+/// they were scheduled.
 ///
 /// `DelayedChangesPerBlock` determines the maximum number of changes that can
 /// be scheduled per block.
@@ -60,6 +61,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -127,7 +129,14 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
         if self.next_delay[index] == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            // Changes may arrive in any order, but are applied by their time in the block
+            let delay = self.next_delay[index];
+            let mut i = self.next_delay_i;
+            while i > 0 && self.waiting_changes[i - 1].is_some_and(|(d, ..)| d > delay) {
+                self.waiting_changes[i] = self.waiting_changes[i - 1];
+                i -= 1;
+            }
+            self.waiting_changes[i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
-- 
2.43.0


From 7f3823acd4a941fd6686fa54e5cd25fe3788d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 19/51] fix: handles refuse parameter indices which don't exist

---
 knaster_graph/src/graph.rs  |  2 +-
 knaster_graph/src/handle.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5352696..1fd76b0 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1413,7 +1413,7 @@ impl<F: Float> Graph<F> {
         };
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..a72f1e1 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -221,7 +221,12 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= T::Parameters::USIZE {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -279,7 +284,12 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= self.parameters.len() {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
-- 
2.43.0


From 3aa35dcf91879cfbebdc75c911c67fa26fe60a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 20/51] fix: subtracting from and dividing a constant by a
 handle keeps the order of the operands

---
 knaster_graph/src/graph_edit.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 364ef57..0041173 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1040,6 +1040,8 @@ macro_rules! math_gen_fn_static_constant {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            // The constant is the left hand side operand
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> ChannelsHandle<S0::Outputs> {
             let mut out_channels = ChannelIterBuilder::new();
@@ -1047,12 +1049,17 @@ macro_rules! math_gen_fn_static_constant {
             // TODO: Make a separate UGen for constant number maths to avoid this extra node
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
+            let (source_input, constant_input) = if constant_first { (1, 0) } else { (0, 1) };
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(c.node_id(), 0, constant_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1114,18 +1121,25 @@ macro_rules! math_gen_fn_dynamic_constant {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            // The constant is the left hand side operand
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> DynamicChannelsHandle {
             let mut out_channels = SmallVec::with_capacity(s0.outputs() as usize);
             let mut g = graph.write();
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
+            let (source_input, constant_input) = if constant_first { (1, 0) } else { (0, 1) };
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(c.node_id(), 0, constant_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1177,7 +1191,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
                 SH {
-                    nodes: $fn_name(self.nodes, rhs, graph),
+                    nodes: $fn_name(self.nodes, rhs, false, graph),
                     graph: &self.graph,
                 }
             }
@@ -1188,7 +1202,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $fn_name(rhs.nodes, self, true, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1384,7 +1398,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
-                let handle = $fn_name(self.nodes, rhs, graph);
+                let handle = $fn_name(self.nodes, rhs, false, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1396,7 +1410,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $fn_name(rhs.nodes, self, true, graph);
                 DH {
                     nodes: handle,
                     graph,
-- 
2.43.0


From 9f53b6ad5a52732120906be9ab30d1acfdbb8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 21/51] fix: a parameter stops following a source that is
 disconnected or freed

---
 knaster_core/src/ugen.rs                      |  7 +++++--
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 knaster_graph/src/dynugen.rs                  |  3 ++-
 knaster_graph/src/graph.rs                    | 21 ++++++++++++++++++-
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index fe5ad1f..7cb836d 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -317,7 +317,8 @@ pub trait UGen {
     /// # Safety
     /// The caller guarantees that the pointer will point to a
     /// contiguous allocation of at least block size until it is replaced,
-    /// disabled, or the inner struct is dropped.
+    /// disabled, or the inner struct is dropped. A null pointer disables the
+    /// buffer, the parameter is then set by parameter changes again.
     #[allow(unused)]
     unsafe fn set_ar_param_buffer(
         &mut self,
@@ -325,7 +326,9 @@ pub trait UGen {
         index: usize,
         buffer: *const Self::Sample,
     ) {
-        rt_log!(ctx.logger(); "Warning: Audio rate parameter buffer set, but did not reach a WrArParams and will have no effect.");
+        if !buffer.is_null() {
+            rt_log!(ctx.logger(); "Warning: Audio rate parameter buffer set, but did not reach a WrArParams and will have no effect.");
+        }
     }
     /// Sets a delay to what frame within the next block the next parameter
     /// change should take effect.
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9096bac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,7 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 }
 
diff --git a/knaster_graph/src/dynugen.rs b/knaster_graph/src/dynugen.rs
index dae4771..3831857 100644
--- a/knaster_graph/src/dynugen.rs
+++ b/knaster_graph/src/dynugen.rs
@@ -44,7 +44,8 @@ pub trait DynUGen<F: Float> {
     ///
     /// # Safety
     /// The caller guarantees that `buffer` points to a contiguous section of memory, at least as
-    /// large as the largest block size used in the [`Graph`].
+    /// large as the largest block size used in the [`Graph`], or that it is null, which disables a
+    /// buffer that was registered earlier.
     unsafe fn set_ar_param_buffer(&mut self, ctx: &mut AudioCtx, index: usize, buffer: *const F);
     /// Register a delay of the next parameter change to a given parameter.
     ///
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 1fd76b0..0eb06e8 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -174,6 +174,9 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// The audio rate parameters in the latest [`TaskData`], which have to be disabled when they are
+    /// no longer connected.
+    ar_parameters: Vec<(NodeKey, usize)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -246,6 +249,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            ar_parameters: vec![],
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1582,6 +1586,7 @@ impl<F: Float> Graph<F> {
     /// time the schedule is updated.
     fn generate_ar_parameter_changes(&mut self) -> Vec<ArParameterChange<F>> {
         let mut apc = Vec::new();
+        let mut ar_parameters = Vec::new();
         for (node_key, edges) in &self.node_parameter_edges {
             for edge in edges {
                 let ParameterEdge {
@@ -1604,11 +1609,25 @@ impl<F: Float> Graph<F> {
                             node: node_index,
                             parameter_index: parameter_index as usize,
                             buffer,
-                        })
+                        });
+                        ar_parameters.push((node_key, parameter_index as usize));
                     }
                 }
             }
         }
+        // The buffers of parameters that aren't connected any longer are about to be reused
+        for (node_key, parameter_index) in &self.ar_parameters {
+            if !ar_parameters.contains(&(*node_key, *parameter_index)) {
+                if let Some(node) = self.node_order.iter().position(|k| k == node_key) {
+                    apc.push(ArParameterChange {
+                        node,
+                        parameter_index: *parameter_index,
+                        buffer: crate::core::ptr::null(),
+                    });
+                }
+            }
+        }
+        self.ar_parameters = ar_parameters;
         apc
     }
 
-- 
2.43.0


From 0cf3acb5c05db4da9ad545c32eb82bafd02e9f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 22/51] fix: WrMul doesn't panic on a wrongly typed value or a
 signal for its own parameter

---
 knaster_core_dsp/src/wrappers_core/math.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..596536a 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -2,6 +2,7 @@ use crate::core::ops::Add;
 use knaster_core::{
     AudioCtx, Float, FloatMethods, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
     numeric_array::NumericArray,
+    rt_log,
     typenum::{Add1, Unsigned, bit::B1},
 };
 
@@ -91,7 +92,11 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.value = T::Sample::new(value.float().unwrap());
+            if let Some(value) = value.float() {
+                self.value = T::Sample::new(value);
+            } else {
+                rt_log!(ctx.logger(); "Tried to set parameter `wr_mul` with the wrong type, value ignored");
+            }
         } else {
             T::param_apply(&mut self.ugen, ctx, index, value)
         }
@@ -102,13 +107,19 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
+        } else if !buffer.is_null() {
+            rt_log!(ctx.logger(); "Warning: The parameter `wr_mul` can't be set at audio rate.");
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
-- 
2.43.0


From eef9a32c69dc0761668fa6722cdadcc04bd10b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 23/51] fix: feedback connections from output channels other
 than the first

---
 knaster_graph/src/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 0eb06e8..15ef566 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -794,7 +794,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -808,6 +808,8 @@ impl<F: Float> Graph<F> {
                 is_feedback: true,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            // The feedback source has only one output channel
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
-- 
2.43.0


From da9e9071765a3c172899756b505c9054f3b01aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 24/51] fix: Nodes that have been freed are no longer found by
 id or name

---
 knaster_graph/src/graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 15ef566..79864d9 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -351,6 +351,9 @@ impl<F: Float> Graph<F> {
         if node_id.graph != self.graph_id {
             return None;
         }
+        if !self.node_input_edges.contains_key(node_id.key()) {
+            return None;
+        }
         self.get_nodes().get(node_id.key()).map(|node| node.data)
     }
     /// Get a metadata for a node with the given [`NodeId`] if it exists.
@@ -358,7 +361,7 @@ impl<F: Float> Graph<F> {
         let name = name.into();
         self.get_nodes()
             .iter()
-            .find(|node| node.1.name == name)
+            .find(|node| node.1.name == name && self.node_input_edges.contains_key(node.0))
             .map(|node| {
                 (
                     NodeId {
@@ -453,7 +456,7 @@ impl<F: Float> Graph<F> {
     pub fn node_id_with_name(&self, name: impl AsRef<str>) -> Option<NodeId> {
         let name = name.as_ref();
         for (id, node) in self.get_nodes() {
-            if node.name == name {
+            if node.name == name && self.node_input_edges.contains_key(id) {
                 return Some(NodeId {
                     key: id,
                     graph: self.graph_id,
-- 
2.43.0


From 1ec82a036bc677525a7535c896bd136fe6bd9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 25/51] fix: WrDone passes signals and delays on to the
 parameters of its UGen, and doesn't panic on a wrongly typed value

---
 knaster_graph/src/wrappers_graph/done.rs | 27 +++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..d7e5f5f 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -14,6 +14,7 @@ use knaster_core::numeric_array::NumericArray;
 use knaster_core::typenum::{Add1, B1, Unsigned};
 use knaster_core::{
     AudioCtx, Block, BlockRead, Done, Frame, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
+    rt_log,
 };
 
 /// Wrapper that can free a node once it has been marked as done.
@@ -113,9 +114,33 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.done_action = value.integer().unwrap().into();
+            if let Some(value) = value.integer() {
+                self.done_action = value.into();
+            } else {
+                rt_log!(ctx.logger(); "Tried to set parameter `done_action` with the wrong type, value ignored");
+            }
         } else {
             self.ugen.param_apply(ctx, index, value);
         }
     }
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
+        } else if !buffer.is_null() {
+            rt_log!(ctx.logger(); "Warning: The parameter `done_action` can't be set at audio rate.");
+        }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From c1142905b8628da8af231941e14f57cc30eb30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 26/51] fix: audio rate smoothing sets the parameter every
 frame and leaves the block metadata unchanged

---
 .../src/wrappers_core/smooth_params.rs        | 35 +++++++------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..1bffa5b 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -137,49 +137,40 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
-        }
-        if there_is_an_ar_parameter {
+        let frames_to_process = ctx.frames_to_process();
+        if self.smoothing_state.iter().any(|s| s.has_new_ar_value()) {
             //  run sample by sample for as long as needed
             let mut i = 0;
-            while i < ctx.frames_to_process() {
-                let mut there_is_a_new_smoothing_value = false;
-
-                for p in &self.smoothing_state {
-                    there_is_a_new_smoothing_value =
-                        there_is_a_new_smoothing_value || p.has_new_ar_value();
-                }
+            while i < frames_to_process {
+                let there_is_a_new_smoothing_value =
+                    self.smoothing_state.iter().any(|s| s.has_new_ar_value());
                 if there_is_a_new_smoothing_value {
+                    ctx.block = org_block.make_partial(i, 1);
                     for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
+                        if let Some(new_value) = state.next_value(frames_to_process, i) {
                             self.ugen
                                 .param_apply(ctx, j, ParameterValue::Float(new_value))
                         }
                     }
                     let input = PartialBlock::from_block(input, i, 1);
                     let mut output = output.partial_mut(i, 1);
-                    let partial_ctx = org_block.make_partial(i, 1);
-                    ctx.block = partial_ctx;
                     self.ugen.process_block(ctx, flags, &input, &mut output);
                     i += 1;
                 } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
-                    ctx.block = partial_ctx;
+                    // Process the rest of the block
+                    let input = PartialBlock::from_block(input, i, frames_to_process - i);
+                    let mut output = output.partial_mut(i, frames_to_process - i);
+                    ctx.block = org_block.make_partial(i, frames_to_process - i);
                     self.ugen.process_block(ctx, flags, &input, &mut output);
                     break;
                 }
             }
+            ctx.block = org_block;
         } else {
             // We only have potentially block rate parameters, run the whole block
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
+                if let Some(new_value) = state.next_value(frames_to_process, 0) {
                     self.ugen
                         .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
-- 
2.43.0


From 4ff9e5b95e12efd87df651c167c1eda7df8888ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 27/51] fix: smoothing continues from the current value when
 its setting changes, and supports a duration of 0

---
 .../src/wrappers_core/smooth_params.rs        | 51 +++++++++++++------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 1bffa5b..5f90b10 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -46,8 +46,8 @@ impl<T: UGen> WrSmoothParams<T> {
                     frames_elapsed,
                     ..
                 } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                    let current_value = (end_value - start_value) * current_mix + start_value;
+                    let current_value =
+                        interpolate(start_value, end_value, duration_frames, frames_elapsed);
                     self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
                 }
             },
@@ -82,17 +82,20 @@ impl<T: UGen> WrSmoothParams<T> {
                                 done: true,
                             }
                         } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                            let current_value =
-                                (end_value - start_value) * current_mix + start_value;
+                            // Continue to the same value over the new duration
+                            let current_value = interpolate(
+                                start_value,
+                                end_value,
+                                duration_frames,
+                                frames_elapsed,
+                            );
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
                                 start_value: current_value,
                                 end_value,
                                 duration_frames: new_duration_in_frames,
-                                frames_elapsed,
+                                frames_elapsed: 0,
                                 rate: new_rate,
-                                done: true,
+                                done: false,
                             }
                         }
                     }
@@ -201,7 +204,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 // With an audio rate parameter, ignore other incoming parameter changes
                 if !matches!(self.parameters[index], Rate::AudioRate) {
                     match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
+                        ParameterSmoothingState::None { current_value } => {
+                            *current_value = float_value;
                             self.ugen.param_apply(ctx, index, value)
                         }
                         ParameterSmoothingState::Linear {
@@ -215,11 +219,12 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                             if *done {
                                 *start_value = *end_value;
                             } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                                let current_value =
-                                    (*end_value - *start_value) * current_mix + *start_value;
-                                *start_value = current_value;
+                                *start_value = interpolate(
+                                    *start_value,
+                                    *end_value,
+                                    *duration_frames,
+                                    *frames_elapsed,
+                                );
                             }
                             *end_value = float_value;
                             *done = false;
@@ -235,6 +240,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
     }
 }
 
+/// The value `frames_elapsed` into a change from `start` to `end`
+fn interpolate(
+    start: PFloat,
+    end: PFloat,
+    duration_frames: usize,
+    frames_elapsed: usize,
+) -> PFloat {
+    if frames_elapsed >= duration_frames {
+        end
+    } else {
+        (end - start) * (frames_elapsed as PFloat / duration_frames as PFloat) + start
+    }
+}
+
 #[derive(Copy, Clone, Debug)]
 /// Represents the internal state of a channel of parameter smoothing.
 enum ParameterSmoothingState {
@@ -269,8 +288,8 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                    let current_value = (*end_value - *start_value) * current_mix + *start_value;
+                    let current_value =
+                        interpolate(*start_value, *end_value, *duration_frames, *frames_elapsed);
                     if *frames_elapsed == *duration_frames {
                         *done = true;
                     } else {
-- 
2.43.0


From d9bfe4c650c4631d6ab7510343cbb12afceedf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 28/51] fix: WrSmoothParams and WrArParams pass signals and
 delays on

---
 .../src/wrappers_core/audio_rate.rs           |  5 +++++
 .../src/wrappers_core/smooth_params.rs        | 22 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9096bac..70a68d8 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,11 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5f90b10..225fb44 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -238,6 +238,28 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        if index >= T::Parameters::USIZE {
+            return;
+        }
+        self.parameters[index] = if buffer.is_null() {
+            Rate::BlockRate
+        } else {
+            Rate::AudioRate
+        };
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// The value `frames_elapsed` into a change from `start` to `end`
-- 
2.43.0


From 7a1a6ea830a1c9fb593761de8defbc639cc7d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 29/51] fix: DoneOnTrig marks done once per trigger, in the
 frame after it

---
 knaster_core_dsp/src/ugens/util.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..d67fda5 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -25,9 +25,14 @@ impl<F: Float> DoneOnTrig<F> {
         self.triggered = true;
     }
     #[allow(missing_docs)]
-    pub fn process(&mut self, flags: &mut UGenFlags, _input: [F; 0]) -> [F; 0] {
-        if self.triggered {
-            flags.mark_done(0);
+    pub fn process(
+        &mut self,
+        ctx: &mut AudioCtx,
+        flags: &mut UGenFlags,
+        _input: [F; 0],
+    ) -> [F; 0] {
+        if core::mem::take(&mut self.triggered) {
+            flags.mark_done(ctx.block_start_offset() as u32);
         }
         []
     }
-- 
2.43.0


From d5b7d72461ce93aaa65ee69c8eb8869a4dfae0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 30/51] fix: UGens mark the frame in the block in which they
 are done, however the block is divided

---
 knaster_core/src/ugen.rs                |  6 +++++-
 knaster_core_dsp/src/ugens/buffer.rs    |  6 +++---
 knaster_core_dsp/src/ugens/envelopes.rs | 22 ++++++++++++----------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 7cb836d..2e351b5 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -270,7 +270,10 @@ pub trait UGen {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        for frame in 0..ctx.block.frames_to_process {
+        let org_block = ctx.block;
+        for frame in 0..org_block.frames_to_process {
+            // Let `process` know where in the block this frame is
+            ctx.block = org_block.make_partial(frame, 1);
             // This is potentially a tiny bit inefficient because it initialises the memory before overwriting it.
             let mut in_frame = Frame::default();
             for i in 0..Self::Inputs::USIZE {
@@ -281,6 +284,7 @@ pub trait UGen {
                 output.write(out_frame[i], i, frame);
             }
         }
+        ctx.block = org_block;
     }
 
     /// Specifies which [`ParameterType`] each parameter is. If the types given to [`Gen::param_apply`] match
diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..8dda108 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -121,7 +121,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn process(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: knaster_core::Frame<Self::Sample, Self::Inputs>,
     ) -> knaster_core::Frame<Self::Sample, Self::Outputs> {
@@ -140,7 +140,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             if self.looping {
                 self.reset();
             } else {
-                flags.mark_done(0);
+                flags.mark_done(ctx.block_start_offset() as u32 + 1);
             }
         }
         output
@@ -169,7 +169,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
                     if self.looping {
                         self.reset();
                     } else {
-                        flags.mark_done((i + 1) as u32);
+                        flags.mark_done((ctx.block_start_offset() + i + 1) as u32);
                     }
                 }
                 if self.finished {
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..029a3bc 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -150,14 +150,15 @@ impl<F: Float> EnvAsr<F> {
         }
     }
 
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
 
-    fn process_block(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
+    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
+        let offset = ctx.block_start_offset();
         for (i, out) in output[0].iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (offset + i) as u32);
         }
     }
 }
@@ -282,13 +283,13 @@ impl<F: Float> EnvAr<F> {
             }
         }
     }
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -296,8 +297,9 @@ impl<F: Float> EnvAr<F> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
+        let offset = ctx.block_start_offset();
         for (i, out) in output.channel_as_slice_mut(0).iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (offset + i) as u32);
         }
     }
 }
@@ -406,7 +408,7 @@ mod alloc_envelopes {
 
         fn process(
             &mut self,
-            _ctx: &mut AudioCtx,
+            ctx: &mut AudioCtx,
             flags: &mut UGenFlags,
             _input: Frame<Self::Sample, Self::Inputs>,
         ) -> Frame<Self::Sample, Self::Outputs> {
@@ -454,7 +456,7 @@ mod alloc_envelopes {
                             };
                         } else {
                             self.state = EnvelopeState::Stopped;
-                            flags.mark_done(0);
+                            flags.mark_done(ctx.block_start_offset() as u32);
                         }
                     }
                 }
-- 
2.43.0


From 4c5755c5b1ab5392623eeacc999ab8ef5132837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 31/51] fix: ASR and AR envelopes restart from their current
 value and don't exceed 1

---
 knaster_core_dsp/src/ugens/envelopes.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 029a3bc..b510c1a 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -42,9 +42,11 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        if matches!(self.state, AsrState::Releasing) {
+            // The release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -62,6 +64,7 @@ impl<F: Float> EnvAsr<F> {
 
                 if self.t >= F::ONE {
                     self.state = AsrState::Sustaining;
+                    self.t = F::ONE;
                 }
             }
             AsrState::Sustaining => {
@@ -197,8 +200,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if matches!(self.state, ArState::Releasing) {
+            // The release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
-- 
2.43.0


From 37f34ac9b0764f12aa3d0690107b29c298925219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 32/51] fix: BufferReader processes partial blocks, and doesn't
 log an error when it has finished

---
 knaster_core_dsp/src/ugens/buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8dda108..034c3c4 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -6,7 +6,7 @@ use crate::core::{marker::PhantomData, sync::Arc};
 
 use knaster_core::{
     AudioCtx, Float, PFloat, Seconds, Size, UGenFlags, impl_ugen, numeric_array::NumericArray,
-    rt_log, typenum::U0,
+    typenum::U0,
 };
 
 use crate::dsp::buffer::Buffer;
@@ -158,7 +158,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
-            for i in 0..ctx.block_size() {
+            for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
                     let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
                     output.write(sample, chan, i);
@@ -179,7 +179,6 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             }
         } else {
             // Output zeroes if we're finished
-            rt_log!(ctx.logger(); "Error: BufferReader: buffer doesn't exist in Resources");
             stop_sample = Some(0);
         }
         if let Some(stop_sample) = stop_sample {
-- 
2.43.0


From 5a389e9a433807cacd158f2560d3e90bd825c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 33/51] fix: BufferReader doesn't read outside of its buffer

---
 knaster_core_dsp/src/dsp/buffer.rs   | 29 ++++++++++++++--------------
 knaster_core_dsp/src/ugens/buffer.rs | 10 ++++++++--
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..427c9fc 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -81,31 +81,30 @@ impl<F: Float> Buffer<F> {
     pub fn buf_rate_scale(&self, server_sample_rate: u32) -> f64 {
         self.sample_rate / f64::from(server_sample_rate)
     }
-    /// Linearly interpolate between the value in between to samples
+    /// Linearly interpolate between the value in between to samples. Outside of the buffer, the
+    /// value is 0.
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
         let mix = index.fract();
         let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
-        }
+        self.interpolate(index_u, mix)
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
-    /// indexing is necessary for long buffers.
+    /// indexing is necessary for long buffers. Outside of the buffer, the value is 0.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
         let mix = F::new(index.fract());
         let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        self.interpolate(index_u, mix)
+    }
+    #[inline]
+    fn interpolate(&self, index: usize, mix: F) -> F {
+        match self.buffer.get(index) {
+            Some(&sample) => {
+                let next = self.buffer[(index + self.num_channels) % self.buffer.len()];
+                sample * (F::ONE - mix) + next * mix
+            }
+            None => F::ZERO,
         }
     }
     /// Get the samples for all channels at the index.
diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 034c3c4..b8f2bc1 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -65,6 +65,10 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         self.read_pointer = new_pointer_pos;
         self.finished = false;
     }
+    /// The frame where playback ends, which is never after the end of the buffer
+    fn end_frame(&self) -> f64 {
+        self.end_frame.min(self.buffer.num_frames())
+    }
     /// Jump to a specific point in the buffer in samples. Has to be called before processing starts.
     pub fn start_at(mut self, start_time: Seconds) -> Self {
         self.start_frame = start_time.to_secs_f64();
@@ -130,12 +134,13 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             output.fill(F::ZERO);
             return output;
         }
+        let end_frame = self.end_frame();
         for chan in 0..Channels::USIZE {
             let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
             output[chan] = sample;
         }
         self.read_pointer += self.base_rate * self.rate;
-        if self.read_pointer >= self.end_frame {
+        if self.read_pointer >= end_frame {
             self.finished = true;
             if self.looping {
                 self.reset();
@@ -158,13 +163,14 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
+            let end_frame = self.end_frame();
             for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
                     let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
                     output.write(sample, chan, i);
                 }
                 self.read_pointer += self.base_rate * self.rate;
-                if self.read_pointer >= self.end_frame {
+                if self.read_pointer >= end_frame {
                     self.finished = true;
                     if self.looping {
                         self.reset();
-- 
2.43.0


From 940893c7e9b083ba7c884997d953e1df1f4b7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 34/51] fix: BufferReader plays the whole buffer if the
 duration is negative, as documented

---
 knaster_core_dsp/src/ugens/buffer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index b8f2bc1..f0b9770 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -95,8 +95,11 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = if duration_s < 0.0 {
+            self.buffer.num_frames()
+        } else {
+            Seconds::from_secs_f64(duration_s).to_samples_f64(self.buffer.sample_rate())
+        };
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
-- 
2.43.0


From f12056f314dd04024ea24659d91a7af451baa018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 35/51] fix: SampleDelay supports its maximum delay time and is
 limited to it

---
 knaster_core_dsp/src/ugens/delay.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..c81999d 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -32,7 +32,8 @@ impl<F: Float> SampleDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        self.delay_samples = (seconds * ctx.sample_rate() as PFloat) as usize;
+        self.delay_samples = ((seconds * ctx.sample_rate() as PFloat) as usize)
+            .min(self.buffer.len().saturating_sub(1));
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
@@ -42,8 +43,9 @@ impl<F: Float> SampleDelay<F> {
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
+        // The sample that was just written takes up one place in addition to the delayed ones
         self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize + 1];
         self.write_position = 0;
     }
 }
-- 
2.43.0


From c1cb438fdb3fac2e0289b6a302ccafdac3f929a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 36/51] fix: AllpassInterpolator starts with and is reset to
 silence

---
 knaster_core_dsp/src/ugens/delay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index c81999d..42f0b44 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -63,14 +63,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
-- 
2.43.0


From 00e2c5346d0217451fe1454823c6eee1854f13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 37/51] fix: AllpassDelay doesn't read stale samples when the
 delay is shorter than 1.5 frames

---
 knaster_core_dsp/src/ugens/delay.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 42f0b44..e4db99b 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -78,7 +78,12 @@ impl<F: Float> AllpassInterpolator<F> {
     }
     /// Interpolate between the input sample and the previous value using the last set delta.
     pub fn process_sample(&mut self, input: F) -> F {
-        let output = self.coeff * (input - self.prev_output) + self.prev_input;
+        let output = if self.coeff == F::ONE {
+            // No delay. The filter would not decay with this coefficient.
+            input
+        } else {
+            self.coeff * (input - self.prev_output) + self.prev_input
+        };
         self.prev_output = output;
         self.prev_input = input;
         output
@@ -163,9 +168,13 @@ impl<F: Float> AllpassDelay<F> {
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
-        if num_frames > F::new(0.5) && delta < F::new(0.5) {
+        // The buffer is read before it is written, so it can't delay by less than one frame
+        if self.num_frames > 1 && delta < F::new(0.5) {
             delta += F::ONE;
             self.num_frames -= 1;
+        } else if self.num_frames == 0 {
+            self.num_frames = 1;
+            delta = F::ZERO;
         }
         self.read_frame = if self.write_frame >= self.num_frames {
             self.write_frame - self.num_frames
-- 
2.43.0


From 7a5d155ea53e1a061a6a203cad9fd3ef020ea6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 38/51] fix: allpass delays accept their maximum delay time and
 refuse longer ones

---
 knaster_core_dsp/src/ugens/delay.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index e4db99b..000cb04 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -143,7 +143,7 @@ impl<F: Float> AllpassDelay<F> {
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
         let delay_frames = seconds * ctx.sample_rate() as PFloat;
-        if (delay_frames as usize) < self.buffer.len() {
+        if (delay_frames as usize) <= self.buffer.len() {
             self.set_delay_in_frames(F::new(delay_frames));
         }
     }
@@ -241,8 +241,11 @@ impl<F: Float> AllpassFeedbackDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        self.set_delay_in_frames(F::new(seconds * ctx.sample_rate() as f64));
-        self.previous_delay_time = F::new(seconds);
+        let delay_frames = seconds * ctx.sample_rate() as f64;
+        if (delay_frames as usize) <= self.allpass_delay.buffer.len() {
+            self.set_delay_in_frames(F::new(delay_frames));
+            self.previous_delay_time = F::new(seconds);
+        }
     }
     /// Set delay feedback
     #[param]
-- 
2.43.0


From 822d368283b3a7e1cd9bc07dac774c70df2e1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 39/51] fix: StaticSampleDelay processes blocks with its
 current length

---
 knaster_core_dsp/src/ugens/delay.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 000cb04..766f9df 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -343,28 +343,33 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.clamp(1, self.buffer.len());
+        if self.position >= self.delay_length {
+            self.position = 0;
+        }
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
+        let delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
             * fraction)
             .to_usize()
             .unwrap();
+        self.set_delay_length(delay_length);
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let read_end = self.position + block_size;
-        if read_end <= self.buffer.len() {
+        if read_end <= self.delay_length {
             output.copy_from_slice(&self.buffer[self.position..read_end]);
         } else {
             // block wraps around
             let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            output[0..(block_size - read_end)]
+                .copy_from_slice(&self.buffer[self.position..self.delay_length]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -372,17 +377,18 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_block_and_advance(&mut self, input: &[F]) {
         let block_size = input.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let write_end = self.position + block_size;
-        if write_end <= self.buffer.len() {
+        if write_end <= self.delay_length {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
             let write_end = write_end % self.delay_length;
-            self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
+            self.buffer[self.position..self.delay_length]
+                .copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
-        self.position = (self.position + block_size) % self.buffer.len();
+        self.position = (self.position + block_size) % self.delay_length;
     }
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
@@ -417,7 +423,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length > block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From 1d4b515f24eba70657ba410136b856efb8918f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 40/51] fix: phase offset of wavetable oscillators is in
 periods

---
 knaster_core_dsp/src/ugens/osc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..204af9e 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -48,7 +48,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -131,7 +133,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
-- 
2.43.0


From 62f4410492e3975d41e80fb8e16a6977b16ae312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 41/51] fix: stopping an envelope doesn't hold a value beyond
 the end of the segment

---
 knaster_core_dsp/src/ugens/envelopes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index b510c1a..a75ee31 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -524,8 +524,10 @@ mod alloc_envelopes {
                     {
                         let t = current_time;
                         let segment = &self.segments[current_segment];
-                        self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
+                        // The end of the segment may have been passed since the last frame
+                        let progress = (t * segment.reciprocal_duration).min(1.0);
+                        self.from_value =
+                            self.from_value + progress * (segment.value - self.from_value);
                     }
                     self.state = EnvelopeState::Stopped;
                 }
-- 
2.43.0


From 5be721f1b966e0415f9a1c17d82930d4876fdb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 42/51] fix: envelope segments with a duration of 0 don't
 output NaN

---
 knaster_core_dsp/src/ugens/envelopes.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index a75ee31..5f49ded 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -442,11 +442,7 @@ mod alloc_envelopes {
                     } else if current_segment + 1 < self.segments.len() {
                         self.from_value = self.segments[current_segment].value;
                         let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                        out = F::new(self.from_value);
                         self.state = EnvelopeState::Running {
                             current_segment: current_segment + 1,
                             current_time: current_time - segment.duration
-- 
2.43.0


From 3d6ccda06a04538fecc1ab93d2510424527e4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 43/51] fix: parameter changes scheduled more than a second
 ahead are not discarded

---
 knaster_graph/src/graph_gen.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 3902250..493ec2c 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -43,7 +43,7 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     pub(super) freed: bool,
 
     // The parameter changes that haven't been applied yet, and the number of
-    // blocks it has stayed here. After a large number of blocks it is removed
+    // blocks it has stayed here since it was due. After a large number of blocks it is removed
     // to avoid filling up the queue with parameter changes for nodes that don't
     // exist anymore.
     pub(super) waiting_parameter_changes: VecDeque<(SchedulingEvent, u32)>,
@@ -125,7 +125,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     continue;
                 }
 
-                if let Some(unapplied) = apply_parameter_change(
+                if let Some((unapplied, due)) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
                     ctx.sample_rate() as u64,
@@ -133,8 +133,10 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     keys,
                     tasks,
                 ) {
+                    // A change which is scheduled for later doesn't expire before its time has come
+                    let num_blocks_waiting = num_blocks_waiting + u32::from(due);
                     self.waiting_parameter_changes
-                        .push_back((unapplied, num_blocks_waiting + 1));
+                        .push_back((unapplied, num_blocks_waiting));
                 }
             }
         }
@@ -148,7 +150,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             let keys = &self.current_task_data.node_task_order;
             let tasks = &mut self.current_task_data.tasks;
             for event in pm_chunk {
-                if let Some(event) = apply_parameter_change(
+                if let Some((event, _due)) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
                     ctx.sample_rate() as u64,
@@ -265,6 +267,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
     }
 }
 
+/// Returns the event if it couldn't be applied, and whether its time has come
 #[inline]
 fn apply_parameter_change<'a, F: Float>(
     mut event: SchedulingEvent,
@@ -274,7 +277,7 @@ fn apply_parameter_change<'a, F: Float>(
     // replace implicit 'static with 'b
     keys: &'a [NodeKey],
     tasks: &'a mut [Task<F>],
-) -> Option<SchedulingEvent> {
+) -> Option<(SchedulingEvent, bool)> {
     let mut ready_to_apply = event.token.as_ref().is_none_or(|t| t.is_activated());
     let mut delay_in_block = 0;
     if let Some(time) = &mut event.time {
@@ -305,7 +308,7 @@ fn apply_parameter_change<'a, F: Float>(
             }
         }
     }
-    Some(event)
+    Some((event, delay_in_block < block_size))
 }
 
 /// Safety: This impl of Send is required because of the Arc<UnsafeCell<...>> in
-- 
2.43.0


From b024e5d4a511cda7b054ee05fa206177d78a8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 44/51] fix: a graph which several nodes free in the same block
 is silent from the first of their frames

---
 knaster_core/src/ugen.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 2e351b5..0a3c5c0 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -187,10 +187,12 @@ impl UGenFlags {
     ///
     /// From and including the frame number specified, the graph will output 0.0
     /// on all channels until removed. To output the entire block, set
-    /// `from_frame_in_block` to the current block size.
+    /// `from_frame_in_block` to the current block size. If several nodes remove the graph in the
+    /// same block, the first frame counts.
     pub fn mark_remove_parent(&mut self, from_frame: u32) {
         self.remove_parent = true;
-        self.remove_parent_from_frame_in_block = from_frame;
+        self.remove_parent_from_frame_in_block =
+            from_frame.min(self.remove_parent_from_frame_in_block);
     }
     /// Mark this node as done.
     ///
-- 
2.43.0


From 2f4bfe9921656bca0b79af568d2f6b08a255747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 45/51] fix: log messages are sent as a whole or not at all

---
 knaster_core/src/log.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..4458e97 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -264,6 +264,18 @@ impl ArLogSender {
             ArLogSender::Log => log::warn!("{}", message),
         }
     }
+    /// Send a whole message chain, including its `End`. If there isn't room for all of it, none of
+    /// it is sent, since a chain without its end would run into the next one.
+    pub fn send_all(&mut self, messages: &[ArLogMessage]) {
+        if let ArLogSender::RingBuffer(sender) = self {
+            if sender.slots() < messages.len() {
+                return;
+            }
+        }
+        for message in messages {
+            self.send(*message);
+        }
+    }
 }
 
 /// Macro for sending [`ArLogMessage`]s via an [`ArLogSender`] to an [`ArLogReceiver`].
@@ -272,10 +284,8 @@ macro_rules! rt_log {
     ($logger:expr; $($msg:expr),* $(,)?) => {{
     {
     use $crate::log::ArLogMessage;
-        $(
-            $logger.send(ArLogMessage::from($msg));
-        )*
-        $logger.send(ArLogMessage::End);
+        let messages = [$(ArLogMessage::from($msg),)* ArLogMessage::End];
+        $logger.send_all(&messages);
     }
     }};
 }
-- 
2.43.0


From 6f8ee9b82a6c03ed6ef0bab81b0dd3c6c471c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 46/51] fix: the product of two Seconds

---
 knaster_primitives/src/time.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..a2ac62f 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -179,13 +179,15 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
-        Seconds::new(seconds, subsample_tesimals as u32)
+        // The product of two numbers of tesimals, which doesn't fit in an u64
+        let product = self.to_subsample_tesimals_u64() as u128
+            * rhs.to_subsample_tesimals_u64() as u128
+            / SUBSECOND_TESIMALS_PER_SECOND as u128;
+        let tesimals_per_second = SUBSECOND_TESIMALS_PER_SECOND as u128;
+        Seconds::new(
+            (product / tesimals_per_second) as u32,
+            (product % tesimals_per_second) as u32,
+        )
     }
 }
 impl ops::Mul<f64> for Seconds {
-- 
2.43.0


From 0fa54bce8c402ad871cc4e22348f38c07cc5f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 47/51] fix: UGen::param refuses values of the wrong type

---
 knaster_core/src/parameters/types.rs |  2 +-
 knaster_core/src/ugen.rs             | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/knaster_core/src/parameters/types.rs b/knaster_core/src/parameters/types.rs
index 0dd1c70..a79a3d9 100644
--- a/knaster_core/src/parameters/types.rs
+++ b/knaster_core/src/parameters/types.rs
@@ -6,7 +6,7 @@ use crate::{PInteger, PIntegerConvertible, Rate, UGen};
 use super::{PFloat, PTrigger};
 
 /// The type of a [`UGen`] parameter
-#[derive(Copy, Clone)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum ParameterType {
     #[allow(missing_docs)]
     Float,
diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 0a3c5c0..951d91d 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -358,23 +358,23 @@ pub trait UGen {
         param: impl Into<Param>,
         value: impl Into<ParameterValue>,
     ) -> Result<(), ParameterError> {
-        match param.into() {
+        let index = match param.into() {
             Param::Index(i) => {
                 if i >= Self::Parameters::USIZE {
                     return Err(ParameterError::ParameterIndexOutOfBounds);
                 }
-                self.param_apply(ctx, i, value.into());
-                Ok(())
-            }
-            Param::Desc(desc) => {
-                for (i, d) in Self::param_descriptions().into_iter().enumerate() {
-                    if d == desc {
-                        self.param_apply(ctx, i, value.into());
-                        return Ok(());
-                    }
-                }
-                Err(ParameterError::DescriptionNotFound(desc))
+                i
             }
+            Param::Desc(desc) => Self::param_descriptions()
+                .into_iter()
+                .position(|d| d == desc)
+                .ok_or(ParameterError::DescriptionNotFound(desc))?,
+        };
+        let value = value.into();
+        if value.ty() != Self::param_types()[index] {
+            return Err(ParameterError::WrongParameterType);
         }
+        self.param_apply(ctx, index, value);
+        Ok(())
     }
 }
-- 
2.43.0


From cc852cc0146bfd4c1c5e23772d3560a50a1dc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:24 +0000
Subject: [PATCH 48/51] fix: negative delay times of AllpassDelay are the
 shortest delay instead of a panic

---
 knaster_core_dsp/src/ugens/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 766f9df..8fe230e 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -166,7 +166,7 @@ impl<F: Float> AllpassDelay<F> {
     #[inline]
     pub fn set_delay_in_frames(&mut self, num_frames: F) {
         let num_frames_float = num_frames.floor();
-        self.num_frames = num_frames_float.to_usize().unwrap();
+        self.num_frames = num_frames_float.to_usize().unwrap_or(0);
         let mut delta = num_frames - num_frames_float;
         // The buffer is read before it is written, so it can't delay by less than one frame
         if self.num_frames > 1 && delta < F::new(0.5) {
-- 
2.43.0


From 1961a98ceb8bf7d119d0ddb7c274df6eab622783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 49/51] fix: LogProbe logs every N samples, not every N + 1

---
 knaster_core_dsp/src/ugens/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index d67fda5..fdc7e76 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -97,7 +97,7 @@ impl<F: Float> LogProbe<F> {
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 0] {
         if self.sample_counter == 0 {
             rt_log!(_ctx.logger(); "Probe", self.name, input[0].to_f64());
-            self.sample_counter = self.samples_between_logs;
+            self.sample_counter = self.samples_between_logs.saturating_sub(1);
         } else {
             self.sample_counter -= 1;
         }
-- 
2.43.0


From a2d80e93bad24c02afe1c05e079fb5233730a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:57 +0000
Subject: [PATCH 50/51] fix: AllpassDelay with a maximum delay of less than one
 frame panics

---
 knaster_core_dsp/src/ugens/delay.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 8fe230e..b3861eb 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -126,7 +126,8 @@ impl<F: Float> AllpassDelay<F> {
     /// Allocates internal buffer.
     pub fn init(&mut self, sample_rate: u32, _block_size: usize) {
         let max_delay_samples = self.max_delay_seconds.to_samples(sample_rate as u64);
-        self.buffer = vec![F::ZERO; max_delay_samples as usize];
+        // The shortest delay is one frame
+        self.buffer = vec![F::ZERO; max_delay_samples.max(1) as usize];
     }
     /// Produce one frame from the delay and put `input` into the delay.
     pub fn process(
-- 
2.43.0


From 74dbcee6aa30e9fe75b27947808fd06a17a10b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 51/51] fix: sums and feedback nodes stay in the graph when
 what they connect is freed

---
 knaster_graph/src/graph.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 79864d9..5292dac 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1838,9 +1838,25 @@ impl<F: Float> Graph<F> {
         //
         self.recalculation_required = true;
 
+        // Automatically added nodes (sums, feedback) which may not be needed without this node
+        let mut auto_nodes: Vec<NodeKey> = Vec::new();
+        for (key, edges) in &self.node_input_edges {
+            let source = NodeKeyOrGraph::Node(node_key);
+            if edges.iter().flatten().any(|e| e.source == source) {
+                auto_nodes.push(key);
+            }
+        }
+
         // Remove all edges leading to the node
-        if let Some(_edges) = self.node_input_edges.remove(node_key) {}
-        self.node_parameter_edges.remove(node_key);
+        if let Some(edges) = self.node_input_edges.remove(node_key) {
+            auto_nodes.extend(edges.iter().flatten().filter_map(|e| match e.source {
+                NodeKeyOrGraph::Node(source) => Some(source),
+                NodeKeyOrGraph::Graph => None,
+            }));
+        }
+        if let Some(edges) = self.node_parameter_edges.remove(node_key) {
+            auto_nodes.extend(edges.iter().map(|e| e.source));
+        }
         // Remove all edges leading from the node to other nodes
         for (_k, input_edges) in &mut self.node_input_edges {
             let mut i = 0;
@@ -1888,6 +1904,9 @@ impl<F: Float> Graph<F> {
         if let Some(dep) = self.get_nodes()[node_key].strong_dependent {
             self.free_node_from_key(dep).ok();
         }
+        for key in auto_nodes {
+            self.evaluate_if_node_should_be_removed(key);
+        }
         // self.node_keys_pending_removal.insert(node_key);
         Ok(())
     }
-- 
2.43.0

