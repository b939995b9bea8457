From 2355c580d442531314281569ab975b59799b6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 1/9] fix: compute child counts in 64 bits (7^12 and above
 overflowed i32)

---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..cb19f69 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From 784839d55a4788feff25dfa2903ebda5e8fd56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 2/9] fix: report a pentagon for rings too large for their
 resolution

A ring around six pentagons closes up, and was returned as a valid ring.
---
 src/algos.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..5576f76 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -760,7 +760,6 @@ pub fn gridDiskDistancesUnsafe(
  */
 pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error> {
     let mut out = Vec::<H3Index>::new();
-    out.reserve_exact(6 * k as usize);
 
     // Short-circuit on 'identity' ring
     if k == 0 {
@@ -768,6 +767,14 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
         return Ok(out);
     }
 
+    // No cell is farther than 2.3 * sqrt(7)^res steps from a pentagon. A ring
+    // much larger than that can go around six of them, whose distortions cancel
+    // out, and close up even though it is not a ring.
+    if (k as u64) * (k as u64) > 9 * 7u64.pow(H3_GET_RESOLUTION(origin) as u32) {
+        return Err(Error::Pentagon);
+    }
+    out.reserve_exact(6 * k as usize);
+
     // Number of 60 degree ccw rotations to perform on the direction (based on
     // which faces have been crossed.)
     let mut rotations: i32 = 0;
-- 
2.43.0


From 5f38301a8e852050adfa351f32afd281b8104e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 3/9] fix: bound maxGridDiskSize by the number of cells on the
 globe

3k(k+1)+1 overflowed for large k.
---
 src/algos.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 5576f76..40919b6 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -327,6 +327,12 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
     ],
 ];
 
+/** Number of cells at the finest resolution, 2 + 120 * 7^15 */
+const NUM_CELLS_AT_RES_15: usize = 569707381193162;
+
+/** Smallest k for which the disk size formula exceeds the number of cells at the finest resolution */
+const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
+
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
  * given k. Formula source and proof: https://oeis.org/A003215
@@ -335,6 +341,10 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
+    if k >= K_ALL_CELLS_AT_RES_15 {
+        // A disk this large holds every cell of the finest resolution.
+        return NUM_CELLS_AT_RES_15;
+    }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
 
-- 
2.43.0


From a71f32448119b178a8ebb8abebc3f01bc0ae5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 4/9] fix: constrainLat and constrainLng end for large values

Subtracting one turn at a time took very long for large values, and never
ended once a turn was below their precision.
---
 src/lat_lng.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 89b4701..066202d 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -91,6 +91,9 @@ pub fn _setGeoRads(p: &mut LatLng, lat_rads: f64, lng_rads: f64) {
  * @return The corrected lat value
  */
 pub fn constrainLat(mut lat: f64) -> f64 {
+    if lat > FRAC_PI_2 {
+        lat = lat % PI;
+    }
     while lat > FRAC_PI_2 {
         lat = lat - PI;
     }
@@ -104,6 +107,7 @@ pub fn constrainLat(mut lat: f64) -> f64 {
  * @return The corrected lng value
  */
 pub fn constrainLng(mut lng: f64) -> f64 {
+    lng = lng % (2.0 * PI);
     while lng > PI {
         lng = lng - (2.0 * PI);
     }
-- 
2.43.0


From d20382a7f8cc7b46c8b36df561892ca6a6b11737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 5/9] fix: normalize angles more than one turn out of range

_posAngleRads only added or removed one turn, so an azimuth below -2 pi was
taken for due north by _geoAzDistanceRads.
---
 src/lat_lng.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 066202d..88bfca4 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -27,9 +27,9 @@ const EPSILON_RAD: f64 = EPSILON_DEG * M_PI_180;
  * @return The normalized radians value.
  */
 pub fn _posAngleRads(rads: f64) -> f64 {
-    let mut tmp: f64 = if rads < 0.0 { rads + M_2PI } else { rads };
-    if rads >= M_2PI {
-        tmp -= M_2PI;
+    let mut tmp: f64 = rads % M_2PI;
+    if tmp < 0.0 {
+        tmp += M_2PI;
     }
     return tmp;
 }
-- 
2.43.0


From f7a727c19b8019b5ead52e0fc195ec74f8520534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 6/9] fix: let the child iterator's increment carry out of a
 malformed index

---
 src/iterators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 7c3ca42..2ffbd31 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -57,7 +57,8 @@ impl IterCellsChildren {
     pub fn _incrementResDigit(&mut self, res: i32) {
         let mut val: H3Index = 1;
         val <<= H3_PER_DIGIT_OFFSET * (MAX_H3_RES - res);
-        self.h += val;
+        // the last digits of a malformed index carry out of the top bits
+        self.h = self.h.wrapping_add(val);
     }
 }
 
-- 
2.43.0


From 76c600da7ceee8da6a7391abc6a89b24dcf0967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 7/9] fix: find grid disks breadth first, within the size of
 the disk

Around pentagons gridDiskDistances allocated a table of 3k(k+1)+1 entries
even where the globe has fewer cells (res 0, k = 20000 aborts), overflowed
the stack (res 4, k = 20000) and revisited cells over and over (res 8,
k = 1000 took minutes).
---
 src/algos.rs | 90 +++++++++++++++++++---------------------------------
 1 file changed, 32 insertions(+), 58 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 40919b6..6ef5121 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use enum_primitive::FromPrimitive;
 
 use crate::{
@@ -372,79 +374,51 @@ pub fn gridDiskDistances(origin: H3Index, k: u32) -> Result<Vec<(H3Index, u32)>,
         Err(e) => e,
     };
 
-    let maxIdx = maxGridDiskSize(k);
-
     // Fast algo failed, fall back to slower, correct algo
-    let mut out: Vec<(H3Index, u32)> = Vec::new();
-    out.resize(maxIdx, (0, 0));
-
-    _gridDiskDistancesInternal(origin, k, &mut out, maxIdx, 0)?;
-    Ok(out
-        .into_iter()
-        .filter(|(h3index, _distance)| *h3index != 0)
-        .collect())
+    _gridDiskDistancesInternal(origin, k)
 }
 
 /**
  * Internal algorithm for the safe but slow version of gridDiskDistances
  *
- * Adds the origin cell to the output set (treating it as a hash set)
- * and recurses to its neighbors, if needed.
+ * Visits the cells in order of their distance from the origin, each cell once,
+ * so that the work and the memory are bounded by the number of cells in the
+ * disk however large k is.
  *
  * @param  origin      Origin cell
  * @param  k           Maximum distance to move from the origin
- * @param  out         Array treated as a hash set, elements being either
- *                     H3Index or 0.
- * @param  distances   Scratch area, with elements paralleling the out array.
- *                     Elements indicate ijk distance from the origin cell to
- *                     the output cell
- * @param  maxIdx      Size of out and scratch arrays (must be
- * maxGridDiskSize(k))
- * @param  curK        Current distance from the origin
  */
-fn _gridDiskDistancesInternal(
-    mut origin: H3Index,
-    k: u32,
-    out: &mut Vec<(H3Index, u32)>,
-    maxIdx: usize,
-    curK: u32,
-) -> Result<(), Error> {
-    // Put origin in the output array. out is used as a hash set.
-    let mut off: usize = (origin % maxIdx as u64) as usize;
-    while out[off].0 != 0 && out[off].0 != origin {
-        off = ((off + 1) % maxIdx) as usize;
-    }
-
-    // We either got a free slot in the hash set or hit a duplicate
-    // We might need to process the duplicate anyways because we got
-    // here on a longer path before.
-    if out[off].0 == origin && out[off].1 <= curK {
-        return Ok(());
-    }
+fn _gridDiskDistancesInternal(origin: H3Index, k: u32) -> Result<Vec<(H3Index, u32)>, Error> {
+    let mut out: Vec<(H3Index, u32)> = vec![(origin, 0)];
+    let mut found: HashSet<H3Index> = HashSet::from([origin]);
+    let mut idx: usize = 0;
 
-    out[off].0 = origin;
-    out[off].1 = curK;
+    while idx < out.len() {
+        let (cell, distance) = out[idx];
+        idx += 1;
 
-    // Base case: reached an index k away from the origin.
-    if curK >= k {
-        return Ok(());
-    }
+        // This cell and all that follow are k away from the origin.
+        if distance >= k {
+            break;
+        }
 
-    // Recurse to all neighbors in no particular order.
-    for i in 0..6 {
-        let mut rotations: i32 = 0;
-        match h3NeighborRotations(origin, DIRECTIONS[i], &mut rotations) {
-            Ok(result) => {
-                _gridDiskDistancesInternal(result, k, out, maxIdx, curK + 1)?;
-            }
-            Err(e) => {
-                if e != Error::Pentagon {
-                    return Err(e);
+        for i in 0..6 {
+            let mut rotations: i32 = 0;
+            match h3NeighborRotations(cell, DIRECTIONS[i], &mut rotations) {
+                Ok(neighbor) => {
+                    if found.insert(neighbor) {
+                        out.push((neighbor, distance + 1));
+                    }
                 }
-            }
-        };
+                Err(e) => {
+                    if e != Error::Pentagon {
+                        return Err(e);
+                    }
+                }
+            };
+        }
     }
-    return Ok(());
+    return Ok(out);
 }
 
 /**
-- 
2.43.0


From 63bfe47d1601c0be352089381f073a4a163ceae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:29 +0000
Subject: [PATCH 8/9] fix: keep full precision near the icosahedron face
 centers

latLngToCell took the angular distance to the face center from the arc cosine
of 1 - sqd/2, which has no more than half the digits when the distance is
small. At resolution 15 points near a face center could be assigned to the
neighbor of the cell that contains them, e.g. (0.8035825642689506,
1.2483974896918253), which lies in 8f2000000000000, to 8f2000000000003.
---
 src/face_ijk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/face_ijk.rs b/src/face_ijk.rs
index bd73d5b..ac2686e 100644
--- a/src/face_ijk.rs
+++ b/src/face_ijk.rs
@@ -865,8 +865,9 @@ fn _geoToHex2d(g: &LatLng, res: i32, face: &mut i32, v: &mut Vec2d) {
     let mut sqd: f64 = 0.0;
     _geoToClosestFace(g, face, &mut sqd);
 
-    // cos(r) = 1 - 2 * sin^2(r/2) = 1 - 2 * (sqd / 4) = 1 - sqd/2
-    let mut r: f64 = (1.0 - sqd / 2.0).acos();
+    // sin(r/2) = sqrt(sqd) / 2; the arc cosine of 1 - sqd/2 would lose half of
+    // the digits near the face center
+    let mut r: f64 = 2.0 * (sqd.sqrt() / 2.0).asin();
 
     if r < EPSILON {
         v.x = 0.0;
-- 
2.43.0


From 9f61faf6a1f53463fb0c20fc870b14d197bf3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 9/9] fix: keep full precision of points near the poles

_geoAzDistanceRads took the latitude from its sine alone, which has no more
than half the digits near a pole, so cellToLatLng misplaced cells there: at
resolution 15 by up to 1.7e-9 rad (one centimeter) next to the poles.
---
 src/lat_lng.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 88bfca4..cb82da4 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -183,7 +183,12 @@ pub fn _geoAzDistanceRads(p1: &LatLng, mut az: f64, distance: f64) -> LatLng {
         if sinlat < -1.0 {
             sinlat = -1.0;
         }
-        p2.lat = (sinlat).asin();
+        // distance from the axis; the arc sine alone would lose half of the
+        // digits near the poles
+        let coslat = ((az).sin() * (distance).sin()).hypot(
+            (p1.lat).cos() * (distance).cos() - (p1.lat).sin() * (distance).sin() * (az).cos(),
+        );
+        p2.lat = (sinlat).atan2(coslat);
         if (p2.lat - FRAC_PI_2).abs() < EPSILON {
             // north pole
             p2.lat = FRAC_PI_2;
-- 
2.43.0

