From 8727e868707770903f613bff79d5ed3fd0cc76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 01/14] fix: report errors that occur while flushing written
 files

---
 src/io/writing/network/edges.rs         | 6 ++++++
 src/io/writing/network/graph/fmi.rs     | 3 +++
 src/io/writing/routing/random_or_all.rs | 3 +++
 src/io/writing/smarts.rs                | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..7635064 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -55,6 +55,9 @@ impl Writer {
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
 
+        // dropping the writer would ignore errors
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
@@ -119,6 +122,9 @@ impl Writer {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
 
+        // dropping the writer would ignore errors
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..e1ed655 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -205,6 +205,9 @@ impl Writer {
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
 
+        // dropping the writer would ignore errors
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..71af790 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -154,6 +154,9 @@ impl Writer {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
 
+        // dropping the writer would ignore errors
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..401e408 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -68,6 +68,9 @@ impl Writer {
 
         writeln!(writer, "</data>")?;
 
+        // dropping the writer would ignore errors
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 758c598e48aee1da9951402203bed4eb6624d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 02/14] fix: write the destination's coordinates in DstLat- and
 DstLon-columns

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From afed4aa626afab5c8fd2e42667b0d9069f2cbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 03/14] fix: reset a reused dijkstra correctly when the number
 of nodes changes

---
 src/routing/dijkstra.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..577738f 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,16 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
 
+            // reset before resizing, because touched indices belong to the previous query's graph
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            self.costs[dir].resize(new_len, std::f64::INFINITY);
+            self.predecessors[dir].resize(new_len, None);
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From 137a37c238866c3330433a4f488b4755719bd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 04/14] fix: offset-arrays cover trailing nodes without leaving
 or entering edges

---
 src/network/graph/building.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..c6dd6f9 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -758,8 +758,9 @@ impl GraphBuilder {
                 // update edge-idx
                 edge_idx += 1;
             }
-            // last node needs an upper bound as well for `leaving_edges(...)`
-            graph.fwd_offsets.push(offset);
+            // last node needs an upper bound as well for `leaving_edges(...)`,
+            // and so do trailing nodes without leaving edges
+            graph.fwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -873,7 +874,8 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
-            graph.bwd_offsets.push(offset);
+            // (and so do trailing nodes without entering edges)
+            graph.bwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From bb0ac4c247818a6d8e5771e24d7e11b41b674fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 05/14] fix: accept route-pairs with a route-count of 0 when
 balancing

---
 src/bin/osmgraphing/balancing/multithreading.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..9160f5b 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -464,10 +464,9 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0


From 01fbbf6f32b5f842b6c86eb82800910479ce8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:00 +0000
Subject: [PATCH 06/14] fix: balancing fails if a worker stops before finishing
 its work

---
 src/bin/osmgraphing/balancing/multithreading.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index 9160f5b..03981a8 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -154,6 +154,11 @@ impl Master {
             }
         }
 
+        // workers, which haven't been joined yet, have stopped before finishing their work
+        for worker_socket in self.worker_sockets.iter_mut().filter_map(Option::take) {
+            worker_socket.drop_and_join()?;
+        }
+
         info!(
             "{}{:.1}{}{:.1}{}",
             "On average, ",
-- 
2.43.0


From 3d5cb0e413d7b4b4413c34aa4ecb13846aec4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:20 +0000
Subject: [PATCH 07/14] fix: report read-errors of pbf-files instead of
 skipping the affected data

---
 src/io/parsing/network/graph/pbf.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..bfcb286 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -78,14 +78,15 @@ impl super::Parsing for Parser {
                 builder.cfg().map_file.display()
             ));
 
-        for mut way in OsmPbfReader::new(file)
+        for way in OsmPbfReader::new(file)
             .par_iter()
-            .filter_map(Result::ok)
             .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
+                Ok(OsmObj::Way(way)) => Some(Ok(way)),
+                Ok(_) => None,
+                Err(e) => Some(Err(e)),
             })
         {
+            let mut way = way.map_err(|e| format!("{}", e))?;
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -181,12 +182,13 @@ impl super::Parsing for Parser {
             .expect(&format!("Couldn't open {}", cfg.map_file.display()));
         for node in OsmPbfReader::new(file)
             .par_iter()
-            .filter_map(Result::ok)
             .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
+                Ok(OsmObj::Node(node)) => Some(Ok(node)),
+                Ok(_) => None,
+                Err(e) => Some(Err(e)),
             })
         {
+            let node = node.map_err(|e| format!("{}", e))?;
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
-- 
2.43.0


From a9d08caaa9399a719c34064b2487fb7a67e85732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:59 +0000
Subject: [PATCH 08/14] fix: malformed ids and coordinates of fmi-files are
 errors instead of panics

---
 src/io/parsing/network/graph/fmi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..feeb71a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -190,7 +190,7 @@ impl ProtoShortcut {
                         edge_id = param.parse::<usize>().ok();
 
                         // multi-ch-constructor uses ids like "ch123" for shortcuts
-                        if edge_id.is_none() && &param[0..2] == "ch" {
+                        if edge_id.is_none() && param.starts_with("ch") {
                             edge_id = param[2..].parse::<usize>().ok();
                         }
 
@@ -359,7 +359,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lat '{:?}' from fmi-file, which is not f64.",
-                                    params[2]
+                                    param
                                 ))
                             }
                         };
@@ -370,7 +370,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lon '{:?}' from fmi-file, which is not f64.",
-                                    params[3]
+                                    param
                                 ))
                             }
                         };
-- 
2.43.0


From 9f169806114c676d98f2028957e2d2bf33140b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:20 +0000
Subject: [PATCH 09/14] fix: an edge of a fmi-file with only one shortcut-index
 is an error

---
 src/io/parsing/network/graph/fmi.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index feeb71a..87ad2f7 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -288,11 +288,11 @@ impl ProtoShortcut {
             }
         }
 
-        let sc_edges = {
-            if let (Some(sc_edge_0), Some(sc_edge_1)) = (sc_edge_0, sc_edge_1) {
-                Some([EdgeIdx(sc_edge_0), EdgeIdx(sc_edge_1)])
-            } else {
-                None
+        let sc_edges = match (sc_edge_0, sc_edge_1) {
+            (Some(sc_edge_0), Some(sc_edge_1)) => Some([EdgeIdx(sc_edge_0), EdgeIdx(sc_edge_1)]),
+            (None, None) => None,
+            (Some(_), None) | (None, Some(_)) => {
+                return Err("A shortcut should replace two edges, but replaces only one.".to_owned())
             }
         };
 
-- 
2.43.0


From a88c04163d7b5f712d6b01ffdc4efcf08206ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:18 +0000
Subject: [PATCH 10/14] fix: a fmi-file with less nodes or edges than announced
 is an error

---
 src/io/parsing/network/graph/fmi.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 87ad2f7..7d5b6a1 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -120,6 +120,9 @@ impl super::Parsing for Parser {
             let proto_edge = ProtoShortcut::try_from_str(&line, &builder.cfg().edges.categories)?;
             builder.insert(proto_edge)?;
         }
+        if line_number < self.edge_lines.end {
+            return Err("The provided fmi-map-file has less edges than announced.".into());
+        }
         info!("FINISHED");
 
         Ok(())
@@ -151,6 +154,9 @@ impl super::Parsing for Parser {
             let proto_node = ProtoNode::from_str(&line, &builder.cfg().nodes)?;
             builder.insert(proto_node);
         }
+        if line_number < self.node_lines.end {
+            return Err("The provided fmi-map-file has less nodes than announced.".into());
+        }
         info!("FINISHED");
 
         Ok(())
-- 
2.43.0


From 5c2e1981acecdd2626ddc8522931b3ba472b479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:15 +0000
Subject: [PATCH 11/14] fix: Reject metrics being no number

---
 src/network/graph/building.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6dd6f9..4ac780c 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -657,7 +657,7 @@ impl GraphBuilder {
 
         for metrics in &graph.metrics {
             for metric in metrics {
-                if metric < &defaults::accuracy::F64_ABS {
+                if metric.is_nan() || metric < &defaults::accuracy::F64_ABS {
                     return Err(err::Msg::from(
                         "A metric is smaller than accuracy allows it.",
                     ));
-- 
2.43.0


From 3fc528bd3bfa46d6a32f043ec9b16a0445d74107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:15 +0000
Subject: [PATCH 12/14] fix: Reject generated edge-ids being duplicates of each
 other

---
 src/network/graph/building.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 4ac780c..b86c528 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1394,6 +1394,32 @@ impl GraphBuilder {
                     }
                 }
             }
+
+            // The new ids could be duplicates of each other.
+
+            let categories = &graph.cfg.edges.categories;
+            for i in 0..categories.len() {
+                let id_i = match &categories[i] {
+                    parsing::edges::Category::Meta { info: _, id }
+                    | parsing::edges::Category::Metric { unit: _, id } => id,
+                    parsing::edges::Category::Ignored => continue,
+                };
+
+                for j in (i + 1)..categories.len() {
+                    let id_j = match &categories[j] {
+                        parsing::edges::Category::Meta { info: _, id }
+                        | parsing::edges::Category::Metric { unit: _, id } => id,
+                        parsing::edges::Category::Ignored => continue,
+                    };
+
+                    if id_i == id_j {
+                        return Err(err::Msg::from(format!(
+                            "Id {} has been generated more than once.",
+                            id_i
+                        )));
+                    }
+                }
+            }
         }
 
         if graph.cfg().edges.metrics.are_normalized {
-- 
2.43.0


From 861ac2677ee46b226cb723a62a08edae551e7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 13/14] fix: Detect cycles of shortcuts via their second edge

---
 src/routing/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..47db56b 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -112,7 +112,7 @@ impl Path {
                 edge_idx = sc_edges[0];
 
                 // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                if flattened_path.edges.len() + old_edges.len() > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From 22f6bea45bb04919b5e6a35d8c7da4f06f68bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 14/14] fix: Refuse routes-files with fewer routes than
 announced

---
 src/io/parsing/routing/routes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..441695b 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -136,6 +136,15 @@ impl super::Parsing for Parser {
             ));
         }
 
+        // routes are announced in the header
+        if line_number < self.route_lines.end {
+            return Err(format!(
+                "The provided routes-file announces {} routes, but has only {}.",
+                self.route_lines.len(),
+                route_pairs.len()
+            ));
+        }
+
         Ok(route_pairs)
     }
 }
-- 
2.43.0

