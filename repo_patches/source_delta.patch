From 69163ac0fe6562dfa7f27aa00f76658712fedfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/23] fix: generate pier rays around the centroid of the
 shape

Rays were placed relative to the origin, so shapes away from the origin got
no rays at all (panic) or rays starting inside the shape (failed assertion).
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..579f013 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -27,13 +27,14 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
     let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray through the origin, the transformations position it around the centroid of the shape
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
-    let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
+    let transformations =
+        generate_ray_transformations(&expanded_bbox, centroid, RAYS_PER_ANGLE, N_ANGLES);
 
     //transform the base edge by each transformation
     let rays = transformations
@@ -90,27 +91,28 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
 
 fn generate_ray_transformations(
     bbox: &AARectangle,
+    centroid: Point,
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, relative to the centroid
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| bbox.x_min - centroid.0 + dx * i as fsize)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle around the centroid
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate(*angle).translate(centroid.into()))
         })
         .collect_vec()
 }
-- 
2.43.0


From 31ad764e646df5d3f0dcb84ce17c95bdf865817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:49 +0000
Subject: [PATCH 02/23] fix: square the interior border distance of AARectangle

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..1e27dc7 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance * min_distance)
             }
         }
     }
-- 
2.43.0


From 8b7eaa9b9a2a6ecd8c2d251e96e3e78b3c94680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:04 +0000
Subject: [PATCH 03/23] fix: break ties on y when sorting points for the convex
 hull

---
 jagua-rs/src/geometry/convex_hull.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..98be5be 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,11 +31,8 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
-    points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
-    });
+    //sort the points by x coordinate, ties are broken by the y coordinate
+    points.sort_by(|a, b| (a.0, a.1).partial_cmp(&(b.0, b.1)).unwrap());
 
     let mut lower_hull = points
         .iter()
-- 
2.43.0


From 125d3b2ffa09d4100e0ed1de7aaae357d4a9e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:04 +0000
Subject: [PATCH 04/23] fix: let a circle that contains the others be their
 bounding circle

---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..48a3d8b 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius >= distance_between_centers + bounding_circle.radius {
+                // bounding circle contained in circle, replace
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From f5f6a19324697e2a2eeb9377156e79ef8ecf80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:34 +0000
Subject: [PATCH 05/23] fix: collect all hazards of a quadtree node, not only
 the first that covers it

---
 jagua-rs/src/collision_detection/quadtree/qt_node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..219e0d4 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -186,7 +186,11 @@ impl QTNode {
                 false => (),
                 true => match strongest_hazard.presence {
                     QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
+                    QTHazPresence::Entire => {
+                        detected.push(strongest_hazard.entity);
+                        //Other hazards might be present in this node as well
+                        self.collect_collisions(entity, detected);
+                    }
                     QTHazPresence::Partial(_) => match &self.children {
                         Some(children) => {
                             //Check if any of the children intersect with the entity
-- 
2.43.0


From bc5e19187ba761f621f3eeceb7d86f4e4cef8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:34 +0000
Subject: [PATCH 06/23] fix: a shape that encloses the whole bin collides with
 its exterior

---
 jagua-rs/src/collision_detection/cd_engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/collision_detection/cd_engine.rs b/jagua-rs/src/collision_detection/cd_engine.rs
index 0387665..41c1ad6 100644
--- a/jagua-rs/src/collision_detection/cd_engine.rs
+++ b/jagua-rs/src/collision_detection/cd_engine.rs
@@ -424,8 +424,10 @@ impl CDEngine {
 
         let (s_mu, s_omega) = match bbox_relation {
             GeoRelation::Surrounding => (shape, haz_shape), //inclusion possible
-            GeoRelation::Enclosed => (haz_shape, shape),    //inclusion possible
-            GeoRelation::Disjoint | GeoRelation::Intersecting => {
+            GeoRelation::Enclosed if haz.entity.position() == GeoPosition::Interior => {
+                (haz_shape, shape) //inclusion possible
+            }
+            GeoRelation::Disjoint | GeoRelation::Intersecting | GeoRelation::Enclosed => {
                 //no inclusion is possible
                 return match haz.entity.position() {
                     GeoPosition::Interior => false,
-- 
2.43.0


From 79dab75f9d8a2286257f737321bd11756f205541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:43 +0000
Subject: [PATCH 07/23] fix: start the proximity grid's boundary fill at the
 pole itself

---
 .../collision_detection/hpg/boundary_fill.rs  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
index 1baf0fb..a713523 100644
--- a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
+++ b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
@@ -1,9 +1,14 @@
 use std::collections::VecDeque;
 use std::ops::RangeInclusive;
 
+use ordered_float::{NotNan, OrderedFloat};
+
 use crate::collision_detection::hpg::grid::Grid;
+use crate::fsize;
 use crate::geometry::geo_enums::GeoPosition;
+use crate::geometry::geo_traits::Shape;
 use crate::geometry::primitives::aa_rectangle::AARectangle;
+use crate::geometry::primitives::point::Point;
 
 // Boundary fill algorithm to propagate update through the hazard proximity grid.
 // During the update of an HPGCell, it can often guarantee that the update will also not affect any of its direct neighbors.
@@ -43,16 +48,19 @@ impl BoundaryFillHPG {
             n_visited: 0,
             seeded: false,
         }
-        .init_queue(grid)
+        .init_queue(grid, seed_bbox)
     }
 
-    /// Initializes the queue with the middle cell of the seedbox
-    fn init_queue<T>(mut self, grid: &Grid<T>) -> Self {
+    /// Initializes the queue with the cell closest to the center of the seedbox.
+    /// This is not necessarily the middle of the rows and columns in the seedbox, as it might extend beyond the grid
+    fn init_queue<T>(mut self, grid: &Grid<T>, seed_bbox: &AARectangle) -> Self {
         debug_assert!(self.n_visited == 0 && self.queue.is_empty());
-        let middle_row =
-            self.seedbox_rows.start() + (self.seedbox_rows.end() - self.seedbox_rows.start()) / 2;
-        let middle_col =
-            self.seedbox_cols.start() + (self.seedbox_cols.end() - self.seedbox_cols.start()) / 2;
+        let Point(center_x, center_y) = seed_bbox.centroid();
+        let closest = |coords: &[NotNan<fsize>], to: fsize| {
+            (0..coords.len()).min_by_key(|&i| OrderedFloat((coords[i].into_inner() - to).abs()))
+        };
+        let middle_row = closest(&grid.rows, center_y).expect("grid has no rows");
+        let middle_col = closest(&grid.cols, center_x).expect("grid has no columns");
         let middle_cell = grid.to_index(middle_row, middle_col).unwrap();
 
         self.state[middle_cell].queue();
@@ -120,7 +128,7 @@ impl BoundaryFillHPG {
             n_visited: 0,
             seeded: false,
         }
-        .init_queue(grid)
+        .init_queue(grid, seed_bbox)
     }
 }
 
-- 
2.43.0


From d67ed5a0e9c01deb239e54914dec10669dd95e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:43 +0000
Subject: [PATCH 08/23] fix: flush pending deregisters of the proximity grid
 along with an instant one

---
 .../collision_detection/hpg/hazard_proximity_grid.rs   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
index 7786c29..022d85a 100644
--- a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
+++ b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
@@ -1,5 +1,4 @@
 use std::fmt::{Display, Formatter};
-use std::iter;
 
 use itertools::Itertools;
 
@@ -117,12 +116,11 @@ impl HazardProximityGrid {
     ) where
         I: Iterator<Item = &'a Hazard> + Clone,
     {
+        self.uncommitted_deregisters.push(to_deregister);
         if process_now {
-            for cell in self.grid.cells.iter_mut().flatten() {
-                cell.deregister_hazards(iter::once(to_deregister), remaining.clone());
-            }
-        } else {
-            self.uncommitted_deregisters.push(to_deregister);
+            //earlier uncommitted deregisters need to be flushed as well,
+            //otherwise some cells would still account for them while others no longer do
+            self.flush_deregisters(remaining);
         }
     }
 
-- 
2.43.0


From 0038a12f56821155a548c0c181e98db2be3c2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:11 +0000
Subject: [PATCH 09/23] fix: discard pier clips that lie outside the shape

---
 jagua-rs/src/geometry/fail_fast/piers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index 579f013..70bf414 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -144,6 +144,8 @@ fn clip(shape: &SimplePolygon, ray: &Edge) -> Vec<Edge> {
                 None
             }
         })
+        //a ray through a vertex can pair up the wrong intersections, discard clips outside the shape
+        .filter(|clip| shape.collides_with(&clip.centroid()))
         .collect_vec();
 
     clipped_lines
-- 
2.43.0


From 75eb47f2c5b0001053d8b3da6e932b46879227da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 10/23] fix: restore missing quantities of items placed beyond
 their demand

---
 jagua-rs/src/entities/problems/bin_packing.rs   | 3 ++-
 jagua-rs/src/entities/problems/strip_packing.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..0c0192a 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -287,7 +287,8 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty =
+                    self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..44dd0ef 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From 5596d6683bb8f53bc8ed5c77e4cb7301e5e925fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 11/23] fix: restore the bin of a layout along with its items

---
 jagua-rs/src/entities/layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..79e6b2e 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,12 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            // the bin was swapped since the snapshot was taken, start over from the snapshot's bin
+            self.bin = layout_snapshot.bin.clone();
+            self.cde = self.bin.base_cde.as_ref().clone();
+        }
+
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


From 7b8d07b2510ab762cbe80d470424609f45417db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 12/23] fix: do not overflow when logging the number of bins of
 an instance

---
 jagua-rs/src/io/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 71b15c1..4680bad 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -98,7 +98,9 @@ impl Parser {
                     json_instance.name,
                     bpi.total_item_qty(),
                     bpi.items.len(),
-                    bpi.bins.iter().map(|(_, qty)| *qty).sum::<usize>(),
+                    bpi.bins
+                        .iter()
+                        .fold(0usize, |sum, (_, qty)| sum.saturating_add(*qty)),
                     bpi.bins.len()
                 );
             }
-- 
2.43.0


From 5fc9cb801f3b21930b82dfb0547b0a351e4c3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 13/23] fix: use the cost of a bin given in the instance

---
 jagua-rs/src/io/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 4680bad..e0b1eac 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -14,7 +14,6 @@ use crate::entities::problems::strip_packing::SPProblem;
 use crate::entities::quality_zone::InferiorQualityZone;
 use crate::entities::quality_zone::N_QUALITIES;
 use crate::entities::solution::Solution;
-use crate::fsize;
 use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_enums::AllowedRotation;
 use crate::geometry::geo_traits::{Shape, Transformable};
@@ -203,9 +202,6 @@ impl Parser {
             }
         };
 
-        let material_value =
-            (bin_outer.area() - bin_holes.iter().map(|hole| hole.area()).sum::<fsize>()) as u64;
-
         assert!(
             json_bin.zones.iter().all(|zone| zone.quality < N_QUALITIES),
             "Quality must be less than N_QUALITIES"
@@ -241,7 +237,7 @@ impl Parser {
         let base_bin = Bin::new(
             bin_id,
             bin_outer,
-            material_value,
+            json_bin.cost,
             Transformation::empty(),
             bin_holes,
             quality_zones,
-- 
2.43.0


From 14c4593fe2fc45626c2768a7005f78de16f8807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 14/23] fix: give solutions of different bin packing problems
 different ids

---
 jagua-rs/src/entities/problems/bin_packing.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 0c0192a..a424714 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -1,3 +1,5 @@
+use std::sync::atomic::{AtomicUsize, Ordering};
+
 use itertools::Itertools;
 
 use crate::entities::instances::bin_packing::BPInstance;
@@ -19,7 +21,6 @@ pub struct BPProblem {
     missing_item_qtys: Vec<isize>,
     bin_qtys: Vec<usize>,
     layout_id_counter: usize,
-    solution_id_counter: usize,
     unmodified_layout_ids: Vec<usize>,
     unmodified_layouts_ref_solution: Option<usize>,
     uncommitted_removed_layouts: Vec<Layout>,
@@ -52,7 +53,6 @@ impl BPProblem {
             missing_item_qtys,
             bin_qtys,
             layout_id_counter,
-            solution_id_counter: 0,
             unmodified_layout_ids: unchanged_layouts,
             unmodified_layouts_ref_solution: unchanged_layouts_solution_id,
             uncommitted_removed_layouts,
@@ -326,8 +326,9 @@ impl ProblemGeneric for BPProblem {
 
 impl ProblemGenericPrivate for BPProblem {
     fn next_solution_id(&mut self) -> usize {
-        self.solution_id_counter += 1;
-        self.solution_id_counter
+        //Solutions can be restored into other (cloned) problems, so their ids have to be unique across problems
+        static SOLUTION_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
+        SOLUTION_ID_COUNTER.fetch_add(1, Ordering::Relaxed) + 1
     }
 
     fn next_layout_id(&mut self) -> usize {
-- 
2.43.0


From 732a0040db771dcd19a68c2ade8b61b6a0f28338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 15/23] fix: do not reuse the ids of restored layouts

---
 jagua-rs/src/entities/problems/bin_packing.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index a424714..68b9916 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -293,6 +293,13 @@ impl ProblemGeneric for BPProblem {
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
 
+        //The layouts of the solution may originate from another problem, make sure their ids are not reused
+        self.layout_id_counter = self
+            .layouts
+            .iter()
+            .map(|l| l.id())
+            .fold(self.layout_id_counter, usize::max);
+
         self.uncommitted_removed_layouts.clear();
         self.reset_unmodified_layouts(solution.id);
 
-- 
2.43.0


From 4f92659b9b0b9dc756542093dd7aec6faeac3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:55 +0000
Subject: [PATCH 16/23] fix: never simplify to a vertex far outside the shape

Nearly parallel edges meet very far away, where the area of the
resulting shape is lost to cancellation and could pass for unchanged.
---
 jagua-rs/src/util/polygon_simplification.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/util/polygon_simplification.rs b/jagua-rs/src/util/polygon_simplification.rs
index 9ce308a..df5a8d7 100644
--- a/jagua-rs/src/util/polygon_simplification.rs
+++ b/jagua-rs/src/util/polygon_simplification.rs
@@ -155,7 +155,10 @@ pub fn simplify_shape(
             let new_shape = execute_candidate(&ref_points, best_candidate);
             let new_shape_area = SimplePolygon::calculate_area(&new_shape);
             let area_delta = (new_shape_area - original_area).abs() / original_area;
-            if area_delta <= max_area_delta {
+            //the area of a shape with a vertex very far away is unreliable, the delta of the candidate itself is not
+            let candidate_delta = calculate_area_delta(&ref_points, best_candidate)
+                .map_or(fsize::INFINITY, |d| *d / original_area);
+            if area_delta <= max_area_delta && candidate_delta <= max_area_delta {
                 debug!(
                     "Simplified {:?} causing {:.2}% area change",
                     best_candidate,
-- 
2.43.0


From 824d6e4d2bfe912884e7ced2c20ac6668e3ac25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:08 +0000
Subject: [PATCH 17/23] fix: keep the cells of the proximity grid from
 shrinking to nothing in slender containers

---
 jagua-rs/src/collision_detection/hpg/grid_generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jagua-rs/src/collision_detection/hpg/grid_generator.rs b/jagua-rs/src/collision_detection/hpg/grid_generator.rs
index d465158..fab035f 100644
--- a/jagua-rs/src/collision_detection/hpg/grid_generator.rs
+++ b/jagua-rs/src/collision_detection/hpg/grid_generator.rs
@@ -52,6 +52,12 @@ pub fn generate(bbox: AARectangle, hazards: &[Hazard], target_n_cells: usize) ->
 
         let attempt = cells.len().cmp(&target_n_cells);
 
+        if attempt == Ordering::Less && correction_factor < 2.0 * step_size {
+            //cells can not shrink any further, their size has to remain positive
+            debug!("terminating grid generation, cells can not shrink any further ({} cells vs {} targeted)", cells.len(), target_n_cells);
+            break;
+        }
+
         if Some(attempt) != previous_attempt {
             //we are going in the wrong direction, so decrease the step size
             step_size /= 2.0;
-- 
2.43.0


From f56653b1f1613de1ad7e9aa60802292a06afb221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 18/23] fix: report a usage of zero instead of NaN when there
 are no layouts

A solution without layouts was exported with "Usage": null, which cannot be read back.
---
 jagua-rs/src/entities/problems/problem_generic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 68f7d92..ed25f2a 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -57,7 +57,10 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
                 let used_area = bin_area * l.usage();
                 (acc.0 + bin_area, acc.1 + used_area)
             });
-        total_used_area / total_bin_area
+        match total_bin_area > 0.0 {
+            true => total_used_area / total_bin_area,
+            false => 0.0, //no layouts, nothing is used
+        }
     }
 
     fn used_bin_cost(&self) -> u64 {
-- 
2.43.0


From 0620b0ec3689bd035fc2fea7839b3e18fa3f6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 19/23] fix: notice when the solution file cannot be written

The buffered writer was dropped without flushing, which ignores errors such as a full disk.
---
 lbf/src/io/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lbf/src/io/mod.rs b/lbf/src/io/mod.rs
index 091cb51..b39c42e 100644
--- a/lbf/src/io/mod.rs
+++ b/lbf/src/io/mod.rs
@@ -1,6 +1,6 @@
 use std::fs;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use log::{info, log, Level, LevelFilter};
@@ -29,9 +29,12 @@ pub fn write_json_output(json_output: &JsonOutput, path: &Path) {
     let file = File::create(path)
         .unwrap_or_else(|_| panic!("could not open solution file: {}", path.display()));
 
-    let writer = BufWriter::new(file);
+    let mut writer = BufWriter::new(file);
 
-    serde_json::to_writer_pretty(writer, &json_output)
+    serde_json::to_writer_pretty(&mut writer, &json_output)
+        .unwrap_or_else(|_| panic!("could not write solution file: {}", path.display()));
+    writer
+        .flush()
         .unwrap_or_else(|_| panic!("could not write solution file: {}", path.display()));
 
     info!(
-- 
2.43.0


From 12ada24e778928a1fd6584bea2ced5ca2ee56c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 20/23] fix: draw items that require a quality above all zones

---
 lbf/src/io/layout_to_svg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lbf/src/io/layout_to_svg.rs b/lbf/src/io/layout_to_svg.rs
index 3cc2bb6..76c674e 100644
--- a/lbf/src/io/layout_to_svg.rs
+++ b/lbf/src/io/layout_to_svg.rs
@@ -4,6 +4,7 @@ use jagua_rs::entities::instances::instance::Instance;
 use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
 use jagua_rs::entities::layout::Layout;
 use jagua_rs::entities::layout::LayoutSnapshot;
+use jagua_rs::entities::quality_zone::N_QUALITIES;
 use jagua_rs::fsize;
 use jagua_rs::geometry::primitives::circle::Circle;
 use jagua_rs::geometry::transformation::Transformation;
@@ -112,7 +113,11 @@ pub fn layout_to_svg(layout: &Layout, instance: &Instance, options: SvgDrawOptio
             let shape = item.shape.as_ref();
             let color = match item.base_quality {
                 None => theme.item_fill.to_owned(),
-                Some(q) => svg_util::blend_colors(theme.item_fill, theme.qz_fill[q]),
+                Some(q) => {
+                    //items can require a higher quality than any zone can have
+                    let q = usize::min(q, N_QUALITIES - 1);
+                    svg_util::blend_colors(theme.item_fill, theme.qz_fill[q])
+                }
             };
             item_defs = item_defs.add(Group::new().set("id", format!("item_{}", item.id)).add(
                 svg_export::data_to_path(
-- 
2.43.0


From aebf8401a4f214df7e87cccb5cf53cd96a128d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:46 +0000
Subject: [PATCH 21/23] fix: let the proximity grid handle quality requirements
 above all zones

---
 jagua-rs/src/collision_detection/hpg/hpg_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/hpg/hpg_cell.rs b/jagua-rs/src/collision_detection/hpg/hpg_cell.rs
index a7a4f46..5e5833e 100644
--- a/jagua-rs/src/collision_detection/hpg/hpg_cell.rs
+++ b/jagua-rs/src/collision_detection/hpg/hpg_cell.rs
@@ -232,7 +232,7 @@ impl HPGCell {
         //calculate the minimum distance to either bin, item or qz
         let mut haz_prox = self.uni_prox.0;
         let relevant_qualities = match quality_level {
-            Some(quality_level) => 0..quality_level,
+            Some(quality_level) => 0..usize::min(quality_level, N_QUALITIES),
             None => 0..N_QUALITIES,
         };
 
-- 
2.43.0


From 334f09b960ad28fb260f63e7cf0c9598d5ee8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:30 +0000
Subject: [PATCH 22/23] fix: restore the order of layouts along with the
 layouts themselves

---
 jagua-rs/src/entities/problems/bin_packing.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 68b9916..24a861b 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -279,6 +279,14 @@ impl ProblemGeneric for BPProblem {
                         },
                     }
                 }
+
+                //Restore the order of the layouts, so that their indices match those of the solution
+                self.layouts.sort_by_key(|l| {
+                    solution
+                        .layout_snapshots
+                        .iter()
+                        .position(|sl| sl.id == l.id())
+                });
             }
         }
 
-- 
2.43.0


From 2cd30e1aa8a5abcab3eef808ff40e3c4c3447826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:30 +0000
Subject: [PATCH 23/23] fix: sample cells that are only a rounding error wide

---
 lbf/src/samplers/uniform_rect_sampler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lbf/src/samplers/uniform_rect_sampler.rs b/lbf/src/samplers/uniform_rect_sampler.rs
index 23179a1..22b28de 100644
--- a/lbf/src/samplers/uniform_rect_sampler.rs
+++ b/lbf/src/samplers/uniform_rect_sampler.rs
@@ -18,8 +18,9 @@ pub struct UniformAARectSampler {
 
 impl UniformAARectSampler {
     pub fn new(bbox: AARectangle, item: &Item) -> Self {
-        let uniform_x = Uniform::new(bbox.x_min, bbox.x_max);
-        let uniform_y = Uniform::new(bbox.y_min, bbox.y_max);
+        //`Uniform::new` (exclusive) does not terminate for bounds that are only a rounding error apart
+        let uniform_x = Uniform::new_inclusive(bbox.x_min, bbox.x_max);
+        let uniform_y = Uniform::new_inclusive(bbox.y_min, bbox.y_max);
         let uniform_r = UniformRotDistr::from_item(item);
         Self {
             bbox,
-- 
2.43.0

