From de98f61a2163ebced74a06474a4f9897c7683617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 01/18] fix: size the Dijkstra's buffers by the graph of the
 query

The check compared the number of directions (2) with the node-count, so networks of
two nodes were never given any buffers (panic), and a router used on a smaller network
after a larger one reset indices which it had just cut off (panic).
---
 src/routing/dijkstra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..8e0dc99 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,17 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // reset before resizing, because the previous graph could have had more nodes
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            if self.costs[dir].len() != new_len {
+                self.costs[dir].resize(new_len, std::f64::INFINITY);
+                self.predecessors[dir].resize(new_len, None);
+            }
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From 13e0c33882f943d22dfa25985168f03789b78229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 02/18] fix: offset-arrays cover trailing nodes without
 leaving/entering edges

The arrays ended at the last node having such an edge, so asking for the edges of a later
node (routing, printing the graph) panicked.
---
 src/network/graph/building.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..bb050a3 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -759,7 +759,8 @@ impl GraphBuilder {
                 edge_idx += 1;
             }
             // last node needs an upper bound as well for `leaving_edges(...)`
-            graph.fwd_offsets.push(offset);
+            // and so do the last nodes if they have no leaving edges
+            graph.fwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -873,7 +874,8 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
-            graph.bwd_offsets.push(offset);
+            // and so do the last nodes if they have no entering edges
+            graph.bwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From 229b822a02178e4517f3f02f9e052daa090ecdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:59 +0000
Subject: [PATCH 03/18] fix: refuse NaN-metrics when finalizing a graph

A NaN is not smaller than the accuracy, hence passed the check meant to keep such values
away from routing.
---
 src/network/graph/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index bb050a3..5928354 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -657,7 +657,8 @@ impl GraphBuilder {
 
         for metrics in &graph.metrics {
             for metric in metrics {
-                if metric < &defaults::accuracy::F64_ABS {
+                // negated to refuse NaN as well
+                if !(metric >= &defaults::accuracy::F64_ABS) {
                     return Err(err::Msg::from(
                         "A metric is smaller than accuracy allows it.",
                     ));
-- 
2.43.0


From 2132b0fbdfa25c383801c81abaaedddd67fb08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:04 +0000
Subject: [PATCH 04/18] fix: detect cycles of shortcut-references in either
 half of a shortcut

The bound on the stack's size only noticed cycles through the first replaced edge; a cycle
through the second one let flattening run forever.
---
 src/routing/paths.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..5cfce57 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -99,20 +99,26 @@ impl Path {
             costs: Some(smallvec![0.0; graph.metrics().dim()]),
         };
 
-        // interpret old edges as stack, beginning with src
-        let mut old_edges = self.edges;
-        old_edges.reverse();
+        // interpret old edges as stack, beginning with src,
+        // and remember in how many shortcuts an edge is nested
+        let mut old_edges: Vec<(EdgeIdx, usize)> = self
+            .edges
+            .into_iter()
+            .rev()
+            .map(|edge_idx| (edge_idx, 0))
+            .collect();
 
         let fwd_edges = graph.fwd_edges();
-        while let Some(mut edge_idx) = old_edges.pop() {
+        while let Some((mut edge_idx, mut depth)) = old_edges.pop() {
             // if edge is shortcut
             // -> push on old-edges
             while let Some(sc_edges) = fwd_edges.sc_edges(edge_idx) {
-                old_edges.push(sc_edges[1]);
+                depth += 1;
+                old_edges.push((sc_edges[1], depth));
                 edge_idx = sc_edges[0];
 
-                // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                // without a cycle, an edge is nested in different shortcuts only
+                if depth > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From 9f7181f7cd2cda4c52391933685714da4dc56614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 05/18] fix: report failing writes instead of losing buffered
 data

---
 src/io/writing/network/edges.rs         | 2 ++
 src/io/writing/network/graph/fmi.rs     | 1 +
 src/io/writing/routing/random_or_all.rs | 1 +
 src/io/writing/smarts.rs                | 1 +
 4 files changed, 5 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..c82e9c1 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -54,6 +54,7 @@ impl Writer {
         let mut writer = BufWriter::new(output_file);
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
+        writer.flush()?;
 
         info!("FINISHED");
         Ok(())
@@ -118,6 +119,7 @@ impl Writer {
         }) {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..eb11ff3 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -204,6 +204,7 @@ impl Writer {
             &graph,
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
+        writer.flush()?;
 
         info!("FINISHED");
         Ok(())
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..8c5c0ed 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -153,6 +153,7 @@ impl Writer {
         for (src_id, dst_id) in found_route_pairs {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..0708695 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -67,6 +67,7 @@ impl Writer {
         }
 
         writeln!(writer, "</data>")?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 019137eba8dcb4732809f3b1eab069d226308a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:38 +0000
Subject: [PATCH 06/18] fix: reject fmi-files with fewer lines than their
 counts declare

---
 src/io/parsing/network/graph/fmi.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..a976531 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -120,6 +120,16 @@ impl super::Parsing for Parser {
             let proto_edge = ProtoShortcut::try_from_str(&line, &builder.cfg().edges.categories)?;
             builder.insert(proto_edge)?;
         }
+        // The edges are the last lines, so this covers missing nodes as well.
+        if line_number < self.edge_lines.end {
+            return Err(format!(
+                "The provided fmi-map-file is incomplete: it has {} lines of data, \
+                 but its counts ask for {}.",
+                line_number - self.node_lines.start,
+                self.edge_lines.end - self.node_lines.start
+            )
+            .into());
+        }
         info!("FINISHED");
 
         Ok(())
-- 
2.43.0


From fb52b1eb80ed3d8275eb04bd3cfa4335598cc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:32 +0000
Subject: [PATCH 07/18] fix: reject route-pairs-files with fewer routes than
 their count declares

---
 src/io/parsing/routing/routes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..c26a62e 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -136,6 +136,15 @@ impl super::Parsing for Parser {
             ));
         }
 
+        if line_number < self.route_lines.end {
+            return Err(format!(
+                "The provided routes-file is incomplete: it has {} routes, \
+                 but its count asks for {}.",
+                route_pairs.len(),
+                self.route_lines.len()
+            ));
+        }
+
         Ok(route_pairs)
     }
 }
-- 
2.43.0


From 0fc46ad72bc7fb621fa09ee356e2ad53a877818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:17 +0000
Subject: [PATCH 08/18] fix: export the destination's coordinates as DstLat and
 DstLon

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From 88d356365c3a2814850794a6a08d61dc274dcfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:09 +0000
Subject: [PATCH 09/18] fix: refuse ids which have been generated or renamed
 before

---
 src/network/graph/building.rs | 36 +++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 5928354..4210586 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1006,6 +1006,42 @@ impl GraphBuilder {
             // add new data
 
             for category in generating_cfg.edges.categories.iter() {
+                // ids have to be unique among previously generated or renamed ones as well
+
+                let opt_new_id = match category {
+                    generating::edges::Category::Meta { id, .. }
+                    | generating::edges::Category::Custom { id, .. }
+                    | generating::edges::Category::Haversine { id, .. } => Some(id),
+                    generating::edges::Category::Copy { to, .. } => Some(&to.id),
+                    generating::edges::Category::Calc { result, .. } => Some(&result.id),
+                    generating::edges::Category::Convert { from, to } => {
+                        if from.id == to.id {
+                            None
+                        } else {
+                            Some(&to.id)
+                        }
+                    }
+                    generating::edges::Category::Merge { .. } => None,
+                };
+                if let Some(new_id) = opt_new_id {
+                    if graph
+                        .cfg
+                        .edges
+                        .categories
+                        .iter()
+                        .any(|category| match category {
+                            parsing::edges::Category::Meta { info: _, id }
+                            | parsing::edges::Category::Metric { unit: _, id } => new_id == id,
+                            parsing::edges::Category::Ignored => false,
+                        })
+                    {
+                        return Err(err::Msg::from(format!(
+                            "Id {} should be generated, but does already exist.",
+                            new_id
+                        )));
+                    }
+                }
+
                 match category {
                     generating::edges::Category::Meta { info, id: new_id } => {
                         match info {
-- 
2.43.0


From eaf83309bc6a10ddfc68b3a9c5cd356ce7b924b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:42 +0000
Subject: [PATCH 10/18] fix: balancer drives a route of count 0 zero times
 instead of underflowing

---
 src/bin/osmgraphing/balancing/multithreading.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..9160f5b 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -464,10 +464,9 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0


From 80d7cd61de5e6dd2f10813b9895477e9a9eb4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:42 +0000
Subject: [PATCH 11/18] fix: balancer reports a failing or missing worker
 instead of losing its routes

---
 src/bin/osmgraphing/balancing/multithreading.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index 9160f5b..33c4791 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -154,6 +154,17 @@ impl Master {
             }
         }
 
+        // A worker, which is not joined yet, has failed and didn't return its outcome.
+        for worker_socket in self.worker_sockets.iter_mut().filter_map(Option::take) {
+            worker_socket.drop_and_join()?;
+        }
+        if !route_pairs.is_empty() {
+            return Err(err::Msg::from(format!(
+                "No worker is left, but {} route-pair(s) are.",
+                route_pairs.len()
+            )));
+        }
+
         info!(
             "{}{:.1}{}{:.1}{}",
             "On average, ",
-- 
2.43.0


From ae6b9580b51ef6292764dee280a2603bceed6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:36 +0000
Subject: [PATCH 12/18] fix: explorator does not return a path twice

---
 src/routing/explorating.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 06eb0a6..7a744cc 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -309,7 +309,8 @@ impl ConvexHullExplorator {
                         // is smaller.
 
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path);
+                            && !new_found_paths.contains(&new_path)
+                            && self.found_paths.values().all(|path| path != &new_path);
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 092cc7ec96bea7027145d594b0ae80478dcf5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 13/18] fix: refuse pbf-files with broken blocks instead of
 importing the rest

---
 src/io/parsing/network/graph/pbf.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..f9a3bce 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -78,14 +78,11 @@ impl super::Parsing for Parser {
                 builder.cfg().map_file.display()
             ));
 
-        for mut way in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let mut way = match obj.map_err(|e| format!("Reading the pbf-file failed: {}", e))? {
+                OsmObj::Way(way) => way,
+                _ => continue,
+            };
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -179,14 +176,11 @@ impl super::Parsing for Parser {
             .read(true)
             .open(&cfg.map_file)
             .expect(&format!("Couldn't open {}", cfg.map_file.display()));
-        for node in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let node = match obj.map_err(|e| format!("Reading the pbf-file failed: {}", e))? {
+                OsmObj::Node(node) => node,
+                _ => continue,
+            };
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
-- 
2.43.0


From 8cf1df213c11295d13d08e6073bbf60614a9a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 14/18] fix: index non-square matrices by row and column

---
 src/helpers/algebra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helpers/algebra.rs b/src/helpers/algebra.rs
index ba0423d..ced2444 100644
--- a/src/helpers/algebra.rs
+++ b/src/helpers/algebra.rs
@@ -52,8 +52,7 @@ impl Index<(usize, usize)> for Matrix {
     type Output = f64;
 
     fn index(&self, (row, col): (usize, usize)) -> &f64 {
-        let (_n_rows, n_cols) = self.data.shape();
-        &self.data[n_cols * col + row]
+        &self.data[(row, col)]
     }
 }
 
-- 
2.43.0


From b84a055b85258abd3ed1345658e938796a8d3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:56 +0000
Subject: [PATCH 15/18] fix: map deltas into [0, 1] and accept deltas of one
 sign

---
 scripts/balancing/visualizer/visualizing/helpers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scripts/balancing/visualizer/visualizing/helpers.py b/scripts/balancing/visualizer/visualizing/helpers.py
index 466aa59..79498a6 100644
--- a/scripts/balancing/visualizer/visualizing/helpers.py
+++ b/scripts/balancing/visualizer/visualizing/helpers.py
@@ -38,6 +38,17 @@ class TwoSlopeLoggedNorm(Normalize):
         self.base = base
         self.vcenter = vcenter
 
+    def autoscale_None(self, A):
+        '''
+        If all values are on the same side of `vcenter`, the range is mirrored, as in matplotlib's TwoSlopeNorm.
+        '''
+        super().autoscale_None(A)
+        if self.vcenter is not None:
+            if self.vmin >= self.vcenter:
+                self.vmin = self.vcenter - (self.vmax - self.vcenter)
+            if self.vmax <= self.vcenter:
+                self.vmax = self.vcenter + (self.vcenter - self.vmin)
+
     def __call__(self, value, clip=None):
         '''
         In the following explanation, vcenter is expected to be zero.
@@ -79,7 +90,7 @@ class TwoSlopeLoggedNorm(Normalize):
             mapped_value = np.log(mapped_value) / log_base
         else:
             xp, fp = [vmin, vcenter, vmax], [-1.0, 0.0, 1.0]
-            mapped_value = 2.0 * np.interp(x=value, xp=xp, fp=fp)
+            mapped_value = np.interp(x=value, xp=xp, fp=fp)
 
             for i in range(len(mapped_value)):
                 v = mapped_value[i]
-- 
2.43.0


From 29a35b5fd34f03ef4fdb7cec91ffb5a33036f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:56 +0000
Subject: [PATCH 16/18] fix: refuse workloads whose edge-ids don't fit to the
 edge-info

---
 scripts/balancing/visualizer/visualizing/model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scripts/balancing/visualizer/visualizing/model.py b/scripts/balancing/visualizer/visualizing/model.py
index 2888e7c..153a1f6 100644
--- a/scripts/balancing/visualizer/visualizing/model.py
+++ b/scripts/balancing/visualizer/visualizing/model.py
@@ -93,6 +93,7 @@ class Data():
 
     def __init__(self, global_data):
         self._iteration = -1
+        self._edge_ids = []
         self._lats = Values()
         self._lons = Values()
         self._kilometers = Values()
@@ -275,8 +276,9 @@ class Data():
 
             # add sorted data
             for (
-                _edge_id, mid_lat, mid_lon, kilometers, lane_count
+                edge_id, mid_lat, mid_lon, kilometers, lane_count
             ) in edges_info:
+                self._edge_ids.append(edge_id)
                 self.lats.raw.append(mid_lat)
                 self.lons.raw.append(mid_lon)
                 self.kilometers.raw.append(kilometers)
@@ -302,6 +304,13 @@ class Data():
             # sort by edge-id and add data
             unsorted_values.sort(key=lambda val: val[0])
 
+            # workloads are matched to edges by their position
+            if [edge_id for (edge_id, _) in unsorted_values] != self._edge_ids:
+                raise RuntimeError(
+                    f'The edge-ids in {workloads_csv_path}'
+                    + ' don\'t fit to those of the edge-info.'
+                )
+
             # add sorted data
             for (_edge_idx, (_edge_id, value)) in enumerate(unsorted_values):
                 # self.workloads.raw.append(value / self.volume(edge_idx))
-- 
2.43.0


From 2af6783c748fee1040414716d6268ebd696a65de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:56 +0000
Subject: [PATCH 17/18] fix: plot the histogram of equal workloads

---
 scripts/balancing/visualizer/visualizing/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/balancing/visualizer/visualizing/plotting.py b/scripts/balancing/visualizer/visualizing/plotting.py
index ef4d822..3c08c01 100644
--- a/scripts/balancing/visualizer/visualizing/plotting.py
+++ b/scripts/balancing/visualizer/visualizing/plotting.py
@@ -725,8 +725,9 @@ class Machine():
 
         # plot data
 
-        num_bins = int(np.ceil(data.workloads.max)) - \
-            int(np.floor(data.workloads.min))
+        # at least one, even if all workloads are equal
+        num_bins = max(1, int(np.ceil(data.workloads.max)) -
+                       int(np.floor(data.workloads.min)))
         _n, _bins, _patches = ax.hist(
             data.workloads.raw_nz,
             bins=num_bins,
-- 
2.43.0


From d586c6e17c8472ce4034df1e2fed7fe3c424cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:56 +0000
Subject: [PATCH 18/18] fix: plot iterations without any workload

---
 .../visualizer/visualizing/plotting.py         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/scripts/balancing/visualizer/visualizing/plotting.py b/scripts/balancing/visualizer/visualizing/plotting.py
index 3c08c01..5caa522 100644
--- a/scripts/balancing/visualizer/visualizing/plotting.py
+++ b/scripts/balancing/visualizer/visualizing/plotting.py
@@ -133,13 +133,14 @@ class Machine():
                 alpha=alpha
             )
             # plot maximum
-            ax.plot(
-                len(mapped_values)-1,
-                mapped_values[-1],
-                'x',
-                color=color,
-                alpha=alpha
-            )
+            if mapped_values:
+                ax.plot(
+                    len(mapped_values)-1,
+                    mapped_values[-1],
+                    'x',
+                    color=color,
+                    alpha=alpha
+                )
 
         # finalize plot
 
@@ -803,6 +804,9 @@ class Machine():
         # ]
 
         for vec in zipped_data:
+            # if there is no workload at all
+            if not vec:
+                continue
             workloads = list(map(lambda x: x[1], vec))
             lane_count = int(vec[0][0])
             ax.boxplot(
-- 
2.43.0

