From 36b327ac44fdea56429512856e6bc65084cc844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 1/7] fix: nearby-only box no longer overflows near the
 east/south edge at zoom 16

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..02f50f8 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -169,8 +169,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding),
+            prox[1].saturating_add(padding),
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From 7c71f75f01e9d86b616b041df1707391c8b3f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 2/7] fix: adjusting boxes and proximity points by 16 zoom
 levels no longer overflows

---
 rust-src/src/gridstore/common.rs  | 15 ++++++++++-----
 rust-src/src/gridstore/spatial.rs | 11 ++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 02f50f8..87c3e23 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -132,18 +132,23 @@ impl MatchOpts {
                         // If this is a zoom out, divide by 2 for every level of zooming out.
                         let zoom_levels = self.zoom - target_z;
                         // Shifting to the right by a number is the same as dividing by 2 that number of times.
-                        Some([x >> zoom_levels, y >> zoom_levels])
+                        // (at u32, because there may be as many as 16 levels)
+                        Some([
+                            ((*x as u32) >> zoom_levels) as u16,
+                            ((*y as u32) >> zoom_levels) as u16,
+                        ])
                     } else {
                         // If this is a zoom in, choose the closest to the middle of the possible tiles at the higher zoom level.
                         // The scale of the coordinates for zooming in is 2^(difference in zs).
-                        let scale_multiplier = 1 << (target_z - self.zoom);
+                        // (at u32, because there may be as many as 16 levels)
+                        let scale_multiplier: u32 = 1 << (target_z - self.zoom);
                         // Pick a coordinate halfway between the possible higher zoom tiles,
                         // subtracting one to pick the one on the top left of the four middle tiles for consistency.
                         let mid_coord_adjuster = scale_multiplier / 2 - 1;
-                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
-                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_x = (*x as u32) * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_y = (*y as u32) * scale_multiplier + mid_coord_adjuster;
 
-                        Some([adjusted_x, adjusted_y])
+                        Some([adjusted_x as u16, adjusted_y as u16])
                     }
                 }
                 None => None,
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 38034b5..18d21be 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -600,7 +600,9 @@ pub fn scoredist(mut zoom: u16, mut distance: f64, mut score: u8, radius: f64) -
 
 #[inline(always)]
 pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4] {
-    if target_z < source_z {
+    // do this at u32 to avoid overflow when adjusting by 16 levels
+    let bbox = [bbox[0] as u32, bbox[1] as u32, bbox[2] as u32, bbox[3] as u32];
+    let adjusted: [u32; 4] = if target_z < source_z {
         let zoom_levels = source_z - target_z;
         // If this is a zoom out, divide each coordinate by 2^(number of zoom levels).
         // This is the same as shifting bits to the right by the number of zoom levels.
@@ -612,20 +614,19 @@ pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4
         ]
     } else {
         // If this is a zoom in
-        let scale_multiplier = 1 << (target_z - source_z);
+        let scale_multiplier: u32 = 1 << (target_z - source_z);
 
         // Scale the top left (min x and y) tile coordinates by 2^(zoom diff).
         // Scale the bottom right (max x and y) tile coordinates by 2^(zoom diff),
         // and add the new number of tiles (-1) to get the outer edge of possible tiles.
-        // We subtract 1 from the scale_multiplier before adding to prevent an integer overflow
-        // given that we're using a 16bit integer
         [
             bbox[0] * scale_multiplier,
             bbox[1] * scale_multiplier,
             bbox[2] * scale_multiplier + (scale_multiplier - 1),
             bbox[3] * scale_multiplier + (scale_multiplier - 1),
         ]
-    }
+    };
+    [adjusted[0] as u16, adjusted[1] as u16, adjusted[2] as u16, adjusted[3] as u16]
 }
 
 pub fn global_bbox_for_zoom(zoom: u16) -> Vec<[u16; 4]> {
-- 
2.43.0


From 761d60143bd2948e5d1bd570b0aeda040caa64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 3/7] fix: storing and looking up the largest phrase id no
 longer hangs or overflows

---
 rust-src/src/gridstore/builder.rs |  6 +++---
 rust-src/src/gridstore/store.rs   | 11 +++++------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..df24573 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,11 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
+        let mut next_boundary = Some(0u32);
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            while next_boundary.map_or(false, |boundary| key.phrase_id >= boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
+                next_boundary = bin_seq.peek().cloned();
             }
 
             current_bin
diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..1207906 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,21 +321,20 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
+        let range_key = match_key.clone();
         let mut db_key: Vec<u8> = Vec::new();
         range_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
-- 
2.43.0


From bb9fa378f37b4178813afa7fcead24c40d3a9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 4/7] fix: feature 0 with score 0 is no longer dropped from
 single-subquery results

---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..209c806 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -86,7 +86,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -98,7 +98,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -140,7 +140,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -149,7 +149,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -871,7 +871,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -883,7 +883,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -925,7 +925,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -934,7 +934,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From 34471330b463ee06fa13846690a69cdc758ec663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 5/7] fix: grouping equal phrasematches keeps every match key
 of each of them

---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 209c806..2269ed7 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -963,7 +963,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0


From 8ae17b70e0937b24500b35a7687172a22d0a69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 6/7] fix: stacking a zoom-16 index no longer overflows the
 zoom scale factor

---
 rust-src/src/gridstore/coalesce.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 2269ed7..537bcbc 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -230,11 +230,11 @@ fn coalesce_multi<T: Borrow<GridStore> + Clone>(
             // See which other zooms are compatible.
             // These should all be lower zooms, so "zoom out" by dividing by 2^(difference in zooms)
             for other_zoom in compatible_zooms.iter() {
-                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
+                let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - *other_zoom);
                 let other_zxy = (
                     *other_zoom,
-                    entries[0].grid_entry.x / scale_factor,
-                    entries[0].grid_entry.y / scale_factor,
+                    (entries[0].grid_entry.x as u32 / scale_factor) as u16,
+                    (entries[0].grid_entry.y as u32 / scale_factor) as u16,
                 );
 
                 if let Some(already_coalesced) = coalesced.get(&other_zxy) {
@@ -702,7 +702,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                     let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
 
-                    let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
+                    let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
 
                     let mut state_contexts: Vec<CoalesceContext> = Vec::new();
 
@@ -722,8 +722,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             // we're stacking on top of something that was already there
                             for grid in grids.iter() {
                                 let prev_zoom_xy = (
-                                    grid.grid_entry.x / scale_factor,
-                                    grid.grid_entry.y / scale_factor,
+                                    (grid.grid_entry.x as u32 / scale_factor) as u16,
+                                    (grid.grid_entry.y as u32 / scale_factor) as u16,
                                 );
 
                                 let entry = grid_to_coalesce_entry(
-- 
2.43.0


From 59d783c6e970174626c585fb16fd906bafba8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 7/7] fix: an empty bounding box matches nothing instead of
 failing an assertion

---
 rust-src/src/gridstore/spatial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 18d21be..757943e 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -14,7 +14,10 @@ use crate::gridstore::gridstore_format;
 pub fn bbox_range<'a>(coords: UniformVec<'a, Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
     let min = interleave_morton(bbox[0], bbox[1]);
     let max = interleave_morton(bbox[2], bbox[3]);
-    debug_assert!(min <= max, "Invalid bounding box");
+    if min > max {
+        // the box is empty (e.g. a nearby-only restriction that doesn't meet the requested box)
+        return None;
+    }
 
     let len = coords.len();
     if len == 0 {
-- 
2.43.0

