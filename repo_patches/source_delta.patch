From 173af0f723f33d61cdc839fb443a392671bfcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:28 +0000
Subject: [PATCH 01/30] fix: start simplex searches at the first simplex so a
 single-simplex triangulation can be searched

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..4c91244 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From 2943772c6826399552ef8167154768f3401f1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:28 +0000
Subject: [PATCH 02/30] fix: compute simplex plane distances and the paraboloid
 lift correctly

---
 qhull-rs/src/delaunay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4c91244..92428ae 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From bc9a38ae861ffe608354b3031e061a3aa3acec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:53 +0000
Subject: [PATCH 03/30] fix: treat failed or ill-conditioned barycentric
 inversions as degenerate and search their neighbours

---
 qhull-rs/src/delaunay.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 92428ae..c293a5a 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -462,9 +462,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
@@ -612,9 +612,20 @@ impl<N> BarycentricTransformation<N>
                 .map(move |vert| vert[i] - rn)
             );
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
+        let norm1 = |m: &OMatrix<f64, N, N>| m.column_iter()
+            .map(|col| col.iter().map(|f| f.abs()).sum::<f64>())
+            .fold(0.0, f64::max);
+        let t_norm = norm1(&t);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        let invertible = decomp.try_inverse_to(&mut t_inv);
+        // A failed inversion leaves garbage in `t_inv`, and the inverse of a (nearly) singular
+        // matrix is useless for computing coordinates. Mark both cases as degenerate. (This is
+        // the same limit that SciPy uses.)
+        let rcond = 1.0 / (t_norm * norm1(&t_inv));
+        if !invertible || !(rcond >= 1000.0 * f64::EPSILON) {
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From b90534923ea42637057bef99002596629852e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:39 +0000
Subject: [PATCH 04/30] fix: report qhull errors as a panic instead of jumping
 to an uninitialized jmp_buf

---
 qhull-rs/src/raw.rs                  | 33 +++++++++++++++-------------
 qhull-sys/src/bindings/unix_64bit.rs | 10 +++++++++
 qhull-sys/src/bindings/wasm_32bit.rs | 10 +++++++++
 qhull-sys/src/ext.c                  | 33 ++++++++++++++++++++++++++++
 4 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..1a0111b 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -55,16 +55,19 @@ impl<N: DimName> ConvexHull<N> {
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull   Qc Qx         Qt\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-        ConvexHull {
+        // This takes care of freeing everything, even if the computation fails
+        let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
+        };
+        let mut cmd = *b"qhull   Qc Qx         Qt\0";
+        let res = qhull_sys::rqh_compute(
+            qh, cmd.as_mut_ptr().cast(), 0, buf, len as _, N::dim() as _
+        );
+        if res != 0 {
+            panic!("qhull failed to compute a convex hull (exit code {res})");
         }
+        cv
     }
 
     pub fn facets<'a>(&'a self) -> FacetListIterator<'a, N> {
@@ -417,18 +420,18 @@ impl<N: DimName> Delaunay<N>
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        *qhull_sys::rqh_get_PROJECTdelaunay(qh) = 1;
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-
+        // This takes care of freeing everything, even if the computation fails
         let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
         };
+        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
+        let res = qhull_sys::rqh_compute(
+            qh, cmd.as_mut_ptr().cast(), 1, buf, len as _, N::dim() as _
+        );
+        if res != 0 {
+            panic!("qhull failed to compute a Delaunay triangulation (exit code {res})");
+        }
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
         for vertex in cv.vertices() {
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index 8f5103b..1b6cf6c 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -1065,3 +1065,13 @@ extern "C" {
 extern "C" {
     pub fn rqh_stderr() -> *mut FILE;
 }
+extern "C" {
+    pub fn rqh_compute(
+        qh: *mut qhT,
+        flags: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 8f4835b..2243e5f 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -1070,3 +1070,13 @@ extern "C" {
 extern "C" {
     pub fn rqh_stderr() -> *mut FILE;
 }
+extern "C" {
+    pub fn rqh_compute(
+        qh: *mut qhT,
+        flags: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index c0e324b..2c00891 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -57,3 +57,36 @@ FILE* rqh_stdout() {
 FILE* rqh_stderr() {
     return stderr;
 }
+
+/* Computes a (triangulated) convex hull or, if `delaunay` is set, a Delaunay
+   triangulation. Returns zero on success or else the exit code of the error
+   qhull ran into.
+
+   When qhull encounters an error (degenerate input being the most likely one)
+   it jumps to `errexit`, so that must be set for the whole computation and
+   it must not outlive this function.
+
+   `points` must have been allocated with malloc. `qh` takes ownership of it.
+   No matter the result, `qh` must be freed by the caller.
+   */
+int rqh_compute(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoints, int dim) {
+    int exitcode;
+
+#ifdef WASM
+    /* There's no setjmp/longjmp for this target */
+    exitcode = 0;
+#else
+    exitcode = setjmp(qh->errexit);
+#endif
+    if (!exitcode) {
+        qh->NOerrexit = False;
+        qh_initflags(qh, flags);
+        if (delaunay)
+            qh->PROJECTdelaunay = True;
+        qh_init_B(qh, points, numpoints, dim, True);
+        qh_qhull(qh);
+        qh_triangulate(qh);
+    }
+    qh->NOerrexit = True;
+    return exitcode;
+}
-- 
2.43.0


From 2cce5e019a6e0949ed83dee3275e17d33e48dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 05/30] fix: stop simplifying a palette when no edge can be
 collapsed instead of panicking

---
 image-palette-recoloring/src/palette.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..0be9f98 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -78,7 +78,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // None of the edges can be collapsed, so this is as simple as the hull gets.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -228,7 +231,8 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+// Returns `None` if there isn't an edge that can be collapsed to a point without losing volume.
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -293,10 +297,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From b2603d663381379d938061e26a0120b53b0826f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 06/30] fix: reject flat palettes and palettes with duplicated
 colors

---
 image-palette-recoloring/src/lib.rs     | 10 +++++++---
 image-palette-recoloring/src/palette.rs | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..78ccb69 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -160,10 +160,14 @@ impl DecomposedImage {
                 palette.len()
             ))
         }
-        let palette_ch: ConvexHull<Const<3>> = palette.iter()
-            .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
-            .collect();
+        let Some(palette_ch) = crate::palette::compute_palette_hull(palette) else {
+            return Err("The colors of the palette all lie on a single plane.".into())
+        };
 
+        // A duplicated color would be present in the hull, but it's still redundant
+        if palette_ch.vertices().len() != palette.len() {
+            return Err("The palette contains redundant colors.".into())
+        }
         for color in palette {
             let color = [color[0] as f64, color[1] as f64, color[2] as f64];
             if palette_ch.vertices().all(|v| v.point().as_slice() != &color[..]) {
diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 0be9f98..19fcba1 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -309,6 +309,25 @@ fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &
 }
 
 
+/// Compute the convex hull of a palette.
+///
+/// Returns `None` if the colors are all on a single plane (or line, or point) since such palettes
+/// don't have a 3D convex hull.
+pub(crate) fn compute_palette_hull(palette: &[Rgb<u8>]) -> Option<ConvexHull<Const<3>>> {
+    let point = |color: &Rgb<u8>| Vector3::new(color[0] as i64, color[1] as i64, color[2] as i64);
+    let origin = point(palette.first()?);
+    let mut edges = palette.iter().map(|c| point(c) - origin);
+    let edge0 = edges.find(|e| *e != Vector3::zeros())?;
+    let normal = edges.by_ref().map(|e| edge0.cross(&e)).find(|n| *n != Vector3::zeros())?;
+    if edges.all(|e| normal.dot(&e) == 0) {
+        return None
+    }
+
+    Some(palette.iter()
+        .map(|c| Vector3::new(c[0] as f64, c[1] as f64, c[2] as f64))
+        .collect())
+}
+
 pub(crate) fn compute_star_triangulation_coordinates(
     palette: &[Rgb<u8>],
     palette_ch: &ConvexHull<Const<3>>,
-- 
2.43.0


From 614254399a143a5afe3dbf5b231339f9e07ea88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 07/30] fix: never return redundant colors or less than the
 minimum from compute_palette

---
 image-palette-recoloring/src/palette.rs | 33 ++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 19fcba1..fca9a89 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -53,6 +53,7 @@ pub fn compute_palette(
             pix[2] as f64 / 255.0,
         ].into())
         .collect();
+    let mut palette = hull_to_palette(&ch);
     let mut previous_vcount = ch.vertices().len();
 
     // Build up the list of unique pixels and their counts
@@ -82,13 +83,20 @@ pub fn compute_palette(
             // None of the edges can be collapsed, so this is as simple as the hull gets.
             break
         };
-        let new_hull = ch.vertices()
+        let new_hull: ConvexHull<Const<3>> = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
             .cloned()
             .chain(std::iter::once(new_vertex.into()))
             .collect();
 
+        // Clamping the colors could've caused some of them to become redundant. If that doesn't
+        // leave us with enough colors, then we can't make use of the new hull.
+        let new_palette = hull_to_palette(&new_hull);
+        if new_palette.len() < min_palette_size {
+            break
+        }
+
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
@@ -100,6 +108,7 @@ pub fn compute_palette(
             }
         }
         ch = new_hull;
+        palette = new_palette;
 
         let vcount = ch.vertices().len();
         if vcount == previous_vcount {
@@ -109,14 +118,32 @@ pub fn compute_palette(
         previous_vcount = vcount;
     }
 
-    ch.vertices()
+    palette
+}
+
+// Convert the vertices of a hull into colors that are representable and none of which are
+// redundant. The result is empty if all of the colors end up on a single plane.
+fn hull_to_palette(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
+    let mut palette: Vec<_> = ch.vertices()
         .map(|v| v.point())
         .map(|p| Rgb([
             (p[0].clamp(0.0, 1.0) * 255.0).round() as u8,
             (p[1].clamp(0.0, 1.0) * 255.0).round() as u8,
             (p[2].clamp(0.0, 1.0) * 255.0).round() as u8,
         ]))
-        .collect()
+        .collect();
+    loop {
+        let Some(palette_ch) = compute_palette_hull(&palette) else {
+            return vec![]
+        };
+        if palette_ch.vertices().len() == palette.len() {
+            return palette
+        }
+        palette = palette_ch.vertices()
+            .map(|v| v.point())
+            .map(|p| Rgb([p[0] as u8, p[1] as u8, p[2] as u8]))
+            .collect();
+    }
 }
 
 // TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
-- 
2.43.0


From 9d084bbf20110efd654bea8365d7f920a0cfcd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 08/30] fix: honor the error bound of compute_palette for the
 palette that gets returned

---
 image-palette-recoloring/src/palette.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index fca9a89..45e0c08 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -4,7 +4,7 @@ use good_lp::{ProblemVariables, VariableDefinition, SolverModel};
 use good_lp::solvers::Solution;
 use image::{GenericImageView, Rgb};
 use nalgebra::{Const, Vector3, DMatrix, Matrix4, Vector4};
-use qhull_rs::{ConvexHull, Delaunay};
+use qhull_rs::ConvexHull;
 use qhull_rs::convex_hull::{Vertex, Facet};
 
 use crate::triangle_distance::triangle_distance_sqr;
@@ -100,7 +100,7 @@ pub fn compute_palette(
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&ch, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
@@ -146,8 +146,6 @@ fn hull_to_palette(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
     }
 }
 
-// TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
-//       actual reproduction error. :\
 fn compute_pixel_error(
     ch: &ConvexHull<Const<3>>,
     pixel_counts: &[(Vector3<f64>, f64)],
@@ -157,20 +155,13 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
-        .map(|v| v.point())
-        .map(|p| [p.x, p.y, p.z])
-        .collect::<Vec<[f64; 3]>>()
-        .as_slice()
-    );
-    let mut searcher = tri.simplex_searcher();
-    // TODO: Finely tune this value. Too tight of a tolerance will report false positives (errors)
-    //       while too loose will report false negatives.
-    searcher.set_eps(f64::EPSILON);
+    // Pixels that are no further than this from the hull are considered to be part of it. It only
+    // needs to be large enough to account for rounding errors.
+    const TOL: f64 = 1e-9;
     let mut error = 0.0;
 
     for (pixel, count) in pixel_counts {
-        if searcher.find_simplex(pixel).is_some() {
+        if new_ch.facets().all(|f| f.normal().dot(pixel) + f.offset() <= TOL) {
             // This pixel is inside the hull, so we can skip it
             continue
         }
-- 
2.43.0


From b989de050c1db4e6491549db2fb8e29dd77f7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 09/30] fix: don't read past the end of a facet's normal

---
 qhull-rs/src/convex_hull.rs | 4 +---
 qhull-rs/src/delaunay.rs    | 4 ++--
 qhull-rs/src/raw.rs         | 6 +++++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..330d88a 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -51,9 +51,7 @@ impl<N> ConvexHull<N>
         for facet in hull.facets() {
             facet_id_map.insert(facet.id(), facets.len());
             offsets_and_normals.push((
-                // XXX This feels really gross, but it's necessary until a change is made to the
-                //     facet api :(
-                OVector::<f64, N>::from_row_slice(&facet.normal()[..N::USIZE]),
+                OVector::<f64, N>::from_row_slice(facet.normal()),
                 facet.offset(),
             ));
         }
diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index c293a5a..30ced42 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -60,14 +60,14 @@ impl<N> Delaunay<N>
         let mut simplex_id_map = HashMap::<u64, usize>::new();
         let mut normals_and_offsets = vec![];
 
-        for simplex in delaunay.simplices() {
+        for (simplex, full_simplex) in delaunay.simplices().zip(delaunay.full_simplices()) {
             if simplex.is_upper_delaunay() {
                 continue
             }
             let next_id = simplex_id_map.len();
             simplex_id_map.insert(simplex.id(), next_id);
             normals_and_offsets.push((
-                OVector::<f64, Plus1<N>>::from_row_slice(simplex.normal()),
+                OVector::<f64, Plus1<N>>::from_row_slice(full_simplex.normal()),
                 simplex.offset(),
             ));
             let it = simplex.vertices().map(|vertex| {
diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 1a0111b..83b861d 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -207,10 +207,14 @@ impl<'a, N: DimName> Facet<'a, N> {
         }
     }
 
+    /// The normal vector of this facet.
+    ///
+    /// Note, the simplices of a Delaunay triangulation are facets of a hull with an additional
+    /// dimension, so use `Delaunay::full_simplices` if you need all of the normal.
     pub fn normal(&self) -> &'a [f64] {
         unsafe {
             let normal_ptr = ptr::addr_of!((*self.ptr.as_ptr()).normal).read();
-            std::slice::from_raw_parts(normal_ptr, N::dim() + 1)
+            std::slice::from_raw_parts(normal_ptr, N::dim())
         }
     }
 
-- 
2.43.0


From c6e81e0e3f10d3179209a37b8c81547f81d03f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 10/30] fix: only accept hexadecimal digits in the color lists
 of the CLI

---
 image-palette-recoloring-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..9412c0d 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        // `from_str_radix` would accept a leading plus sign
+        if let Some(c) = color_str.chars().find(|c| !c.is_ascii_hexdigit()) {
+            Err(format!("Color {i} isn't valid: {c:?} isn't a hexadecimal digit."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From 62f0f75e8b934ae4133e8772b8e170d8ce9f0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 11/30] fix: accept the digit 6 in the color text fields

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From 0747a6054e065bd28a3b5a14c8eb9fe06b9bc573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 12/30] fix: free the web worker's image buffers on every path
 and with their actual size

---
 image-palette-recoloring-web/src/js/webworker.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..c5a1e9e 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -182,6 +182,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -195,7 +196,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -213,6 +214,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From d4b0dcd87b3f93f81d113f6867d5a3099381d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 13/30] fix: don't use a null pointer as the decomposed image
 when the palette is invalid

---
 image-palette-recoloring-web/src/js/index.js     | 1 +
 image-palette-recoloring-web/src/js/webworker.js | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..ecc7e67 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -212,6 +212,7 @@ async function reconstructImage() {
                 method: "freeDecomposedImage",
                 args: [g_deconstructedImagePtr],
             })
+            g_deconstructedImagePtr = undefined;
         }
         g_deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index c5a1e9e..cb75cd9 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -134,7 +134,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(paletteColors.length * 3, palettePtr);
             }
 
-            this.sendResponse(id, decomposedImagePtr);
+            if (decomposedImagePtr) {
+                this.sendResponse(id, decomposedImagePtr);
+            } else {
+                this.sendError(id, "Invalid palette");
+            }
         } else if (method == "freeImageWeights") {
             let [ptr] = args;
             wasmInst.exports.free_image_weights(ptr);
-- 
2.43.0


From 0f75b100c5e3faef2c4f0fbafaaa15318ef7e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 14/30] fix: declare the max_palette_size parameter of
 compute_palette in the C header

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From 8d9bfe4054a819c0624f6ea30e14b4a3389ce881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 15/30] fix: return NULL from the C API for degenerate images
 instead of aborting

---
 .../image-palette-recoloring.h                    |  6 +++++-
 image-palette-recoloring-c/src/lib.rs             | 15 +++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 0b0dde4..248c99f 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -13,7 +13,8 @@ typedef struct image_weights image_weights;
 /// This is the most expensive part of the process, so save the return to avoid
 /// unnecessarily recomputing it where possible.
 ///
-/// This computation shouldn't be able to fail.
+/// If the pixels of the image are too few or too similar (eg a grayscale image)
+/// to span all of RGBXY space, then the function will return NULL.
 image_weights* create_image_weights(uint32_t width, uint32_t height, const uint8_t *rgb_bytes);
 void free_image_weights(image_weights *weights);
 
@@ -22,6 +23,9 @@ void free_image_weights(image_weights *weights);
 /// buffer returned is 3 times the value stored into out_palette_color_count.
 ///
 /// The return palette will never be smaller than 4 colors.
+///
+/// If the colors of the image all lie on a single plane (eg a grayscale image),
+/// then the function will return NULL.
 uint8_t *compute_palette(
     uint32_t img_width,
     uint32_t img_heigh,
diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index b0ed75c..515e7b7 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -1,5 +1,6 @@
 use libc::c_void;
 
+use std::panic;
 use std::ptr;
 use std::slice;
 
@@ -29,9 +30,12 @@ unsafe extern "C" fn create_image_weights(width: u32, height: u32, bytes: *const
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {
         return ptr::null()
     };
-    let weights = Box::new(ImageWeights::new(&img));
+    // Panics can't be allowed to unwind into C code
+    let Ok(weights) = panic::catch_unwind(|| ImageWeights::new(&img)) else {
+        return ptr::null()
+    };
 
-    Box::into_raw(weights) as *const _
+    Box::into_raw(Box::new(weights)) as *const _
 }
 
 #[no_mangle]
@@ -55,12 +59,15 @@ unsafe extern "C" fn compute_palette(
         return ptr::null_mut()
     };
 
-    let palette = image_palette_recoloring::compute_palette(
+    // Panics can't be allowed to unwind into C code
+    let Ok(palette) = panic::catch_unwind(|| image_palette_recoloring::compute_palette(
         &img,
         min_palette_size as usize,
         max_palette_size as usize,
         error_bound
-    );
+    )) else {
+        return ptr::null_mut()
+    };
 
     *out_palette_size = palette.len() as u8;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
-- 
2.43.0


From d834a5f64c8cffb79d692eb604c9bc48d9d4a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 16/30] fix: map the neighbors of a hull's facets to the right
 facets

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index 330d88a..34952e9 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), facet_id_map.len());
             offsets_and_normals.push((
                 OVector::<f64, N>::from_row_slice(facet.normal()),
                 facet.offset(),
-- 
2.43.0


From 2e4ee9d7ae88223ce983dc76e1c71ddcf25fbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 17/30] fix: include the exit code in the panic message for
 qhull errors

---
 qhull-rs/src/raw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 83b861d..f7f0a1c 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -65,7 +65,7 @@ impl<N: DimName> ConvexHull<N> {
             qh, cmd.as_mut_ptr().cast(), 0, buf, len as _, N::dim() as _
         );
         if res != 0 {
-            panic!("qhull failed to compute a convex hull (exit code {res})");
+            panic!("qhull failed to compute a convex hull (exit code {})", res);
         }
         cv
     }
@@ -434,7 +434,7 @@ impl<N: DimName> Delaunay<N>
             qh, cmd.as_mut_ptr().cast(), 1, buf, len as _, N::dim() as _
         );
         if res != 0 {
-            panic!("qhull failed to compute a Delaunay triangulation (exit code {res})");
+            panic!("qhull failed to compute a Delaunay triangulation (exit code {})", res);
         }
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
-- 
2.43.0


From 08de105766320eb459de0690cebb26e81c07d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 18/30] fix: support palettes with colors on a shared face with
 the star color

---
 image-palette-recoloring/src/palette.rs | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 45e0c08..155e267 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -376,9 +376,19 @@ pub(crate) fn compute_star_triangulation_coordinates(
     // hull - the "star". (Naturally, we exclude the triangles that include the star itself to
     // avoid degenerate tetrahedrons.)
 
+    // Facets involving the star vertex would create degenerate tetrahedrons, and so would those that
+    // are part of a face with more than 3 vertices, one of which is the star. (The coordinates are
+    // small integers, so there are no rounding errors.)
+    let forms_tetrahedron = |f: &Facet<Const<3>>| {
+        let mut it = f.vertices().map(|v| v.point() - star_value);
+        let a = it.next().unwrap();
+        let b = it.next().unwrap();
+        let c = it.next().unwrap();
+        a.dot(&b.cross(&c)) != 0.0
+    };
+
     let solvers: Vec<_> = palette_ch.facets()
-        // Facets involving the star vertex would create degenerate tetrahedrons, so skip them.
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+        .filter(|f| forms_tetrahedron(f))
         .map(|f| {
             // TODO: Is there a better way to do this??? Can I do this with an iterator without
             //       completely losing my mind?
@@ -402,7 +412,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         .map(|mat| mat.lu().try_inverse().unwrap())
         .collect();
     let simplex_indices: Vec<_> = palette_ch.facets()
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+        .filter(|f| forms_tetrahedron(f))
         .map(|f| Vector4::from_iterator(
                 std::iter::once(star_index).chain(f.vertices().map(|v| v.index()))
             ))
@@ -429,7 +439,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         } else {
             // If this point is outside of the convex hull, then we want to find the point on the
             // hull closest to the point.
-            let (closest_facet, projected_point, _) = palette_ch.facets()
+            let (projected_point, _) = palette_ch.facets()
                 .map(|f| {
                     let mut it = f.vertices();
                     let v0 = it.next().unwrap().point().clone();
@@ -440,26 +450,22 @@ pub(crate) fn compute_star_triangulation_coordinates(
                     );
                     let diff = pixel - projected_point;
                     let dist = diff.dot(&diff);
-                    (f, projected_point, dist)
+                    (projected_point, dist)
                 })
-                .min_by(|(_, _, left), (_, _, right)| left.total_cmp(right))
+                .min_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
-            let solver_index = simplex_indices.iter().enumerate()
-                .find(|(_, indices)| {
-                    // This is a match if the simplex has all 3 of the vertices of closest facet.
-                    // There should only every be 1 simplex for which that is true.
-                    let indices = indices.as_slice();
-                    closest_facet.vertices()
-                        .map(|v| v.index())
-                        .all(|i| indices.contains(&i))
-                })
-                .map(|(i, _)| i)
+            // The projected point is on the surface, so there is a simplex that contains it. (It
+            // needn't be one that has all 3 of the vertices of the closest facet since faces with
+            // more than 3 vertices can be split in different ways.)
+            let projected = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
+            let (solver_index, _) = solvers.iter().enumerate()
+                .map(|(i, solver)| (i, (solver * projected).min()))
+                .max_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
             let solver = &solvers[solver_index];
-            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
-            solver.mul_to(&vec, &mut bcoords);
+            solver.mul_to(&projected, &mut bcoords);
             &simplex_indices[solver_index]
         };
         let mut row = matrix.row_mut(row_number);
-- 
2.43.0


From 177221bd32b7a5913bdb1e45696796669b6221a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 19/30] fix: free the points when there are none of them

---
 qhull-sys/src/ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index 2c00891..cd915a0 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -80,6 +80,9 @@ int rqh_compute(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoi
 #endif
     if (!exitcode) {
         qh->NOerrexit = False;
+        /* qh_init_B does this too, but not if there are no points at all */
+        qh->first_point = points;
+        qh->POINTSmalloc = True;
         qh_initflags(qh, flags);
         if (delaunay)
             qh->PROJECTdelaunay = True;
-- 
2.43.0


From 56ca9cf13c410287283767a97728afcaa2df96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 20/30] fix: report images without weights or a palette as
 errors in the web worker

---
 image-palette-recoloring-web/src/js/webworker.js | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index cb75cd9..bc24931 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -66,7 +66,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 // We don't want to leak wasm memory :(
                 wasmInst.exports.free_image_buffer(width * height * 3, bufPtr);
             }
-            this.sendResponse(id, [weightsPtr, array], [array.buffer]);
+            if (weightsPtr) {
+                this.sendResponse(id, [weightsPtr, array], [array.buffer]);
+            } else {
+                this.sendError(id, "The image's pixels are too few or too similar");
+            }
         } else if (method == "computePalette") {
             let [array, width, height, minPaletteSize, maxPaletteSize, errorBound] = args;
             let bufPtr = wasmInst.exports.create_image_buffer(width * height * 3 + 1);
@@ -102,6 +106,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(width * height * 3 + 1, bufPtr);
             }
 
+            if (!palettePtr) {
+                this.sendError(id, "The image's colors are too similar");
+                return;
+            }
+
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize);
             let palette = [];
             for (let i = 0; i < paletteSize; i++) {
-- 
2.43.0


From 995692edc69c5c21b1a65d5ccf75cb56a23bf1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 21/30] fix: don't let computations of the web page free each
 other's images

---
 image-palette-recoloring-web/src/js/index.js | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index ecc7e67..4bbaf0c 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -23,6 +23,16 @@ let g_imageWeightsPtr;
 let g_deconstructedImagePtr;
 let g_savedDecompositionPalette;
 
+let g_lastComputation = Promise.resolve();
+
+// Computations wait for each other: otherwise one of them could free the weights or the decomposed
+// image that another one is still using.
+function runAlone(computation) {
+    const result = g_lastComputation.then(() => computation());
+    g_lastComputation = result.catch(() => {});
+    return result;
+}
+
 function colorInputUpdateTextInput(event) {
     event.target.nextElementSibling.value = event.target.value;
 }
@@ -267,7 +277,7 @@ async function reconstructImage() {
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", async () => await runAlone(initialSetup));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
@@ -279,10 +289,10 @@ window.addEventListener("load", (event) => {
     });
 
     recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+        await runAlone(reconstructImage);
     });
     recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+        await runAlone(recomputePalette);
     });
 
     // Load "example.png" into the main image
-- 
2.43.0


From 77f5529b4b0253e0c217252b2917052ccaad641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 22/30] fix: sum the palette's error in a fixed order

The order of a HashMap differs from call to call, and with it the rounding of
the sum: for error bounds close to the error of a palette the same call gave
different palettes.
---
 image-palette-recoloring/src/palette.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 155e267..07fafe5 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use good_lp::{ProblemVariables, VariableDefinition, SolverModel};
 use good_lp::solvers::Solution;
@@ -56,10 +56,11 @@ pub fn compute_palette(
     let mut palette = hull_to_palette(&ch);
     let mut previous_vcount = ch.vertices().len();
 
-    // Build up the list of unique pixels and their counts
-    let mut pixel_map = HashMap::new();
+    // Build up the list of unique pixels and their counts. They need to be in a fixed order since
+    // the rounding of the error below depends on it.
+    let mut pixel_map = BTreeMap::new();
     for (_, _, pixel) in img.pixels() {
-        let count = pixel_map.entry(pixel).or_insert(0);
+        let count = pixel_map.entry(pixel.0).or_insert(0);
         *count += 1
     }
     let pixel_counts = pixel_map.into_iter()
-- 
2.43.0


From c74e73178b606b9c8fd124258c6c20d3a0f8e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 23/30] fix: the web worker checks a recolouring palette's size
 before the library reads it

The library reads one colour for each channel, so a shorter palette made it
read past the end of the buffer instead of giving the error for that case.
---
 image-palette-recoloring-web/src/js/webworker.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index bc24931..0f8abcd 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -159,6 +159,12 @@ class RecoloringThreadWorker extends ThreadWorker {
         } else if (method == "reconstructImage") {
             let [decompImagePtr, paletteColors] = args;
 
+            // The library reads as many colors as there are channels
+            if (paletteColors.length != wasmInst.exports.get_decomposed_image_num_channels(decompImagePtr)) {
+                this.sendError(id, "Invalid palette size");
+                return;
+            }
+
             let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);
 
-- 
2.43.0


From 3d4133fca8b1282917f0eea7b985e4a9117ab4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 24/30] fix: a palette that clamping flattened is refused even
 if rounding hides that

Clamping can move all colours of a simplified hull onto one plane. The rounded
colours may still span a volume then, so the simplification went on with the
flattened hull, on which qhull fails.
---
 image-palette-recoloring/src/palette.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 07fafe5..24ab9a7 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -125,6 +125,14 @@ pub fn compute_palette(
 // Convert the vertices of a hull into colors that are representable and none of which are
 // redundant. The result is empty if all of the colors end up on a single plane.
 fn hull_to_palette(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
+    // Clamping can move all of the colors onto a single plane and rounding can hide that it did.
+    let clamped: Vec<Vector3<f64>> = ch.vertices()
+        .map(|v| v.point().map(|c| c.clamp(0.0, 1.0)))
+        .collect();
+    if is_flat(&clamped) {
+        return vec![]
+    }
+
     let mut palette: Vec<_> = ch.vertices()
         .map(|v| v.point())
         .map(|p| Rgb([
@@ -147,6 +155,19 @@ fn hull_to_palette(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
     }
 }
 
+// Whether all points are on a single plane, apart from rounding errors.
+fn is_flat(points: &[Vector3<f64>]) -> bool {
+    const TOL: f64 = 1e-9;
+    let edges = || points.iter().map(|p| p - points[0]);
+    let longest = |l: Vector3<f64>, r: Vector3<f64>| if r.norm() > l.norm() { r } else { l };
+    let edge0 = edges().fold(Vector3::zeros(), longest);
+    let normal = edges().map(|e| edge0.cross(&e)).fold(Vector3::zeros(), longest);
+    match normal.try_normalize(TOL) {
+        Some(normal) => edges().all(|e| normal.dot(&e).abs() <= TOL),
+        None => true,
+    }
+}
+
 fn compute_pixel_error(
     ch: &ConvexHull<Const<3>>,
     pixel_counts: &[(Vector3<f64>, f64)],
-- 
2.43.0


From ea6ab26ec9ee5c1285a01f181c94684f42711f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 25/30] fix: palettes of more than 255 colors aren't returned
 with a truncated size by the C API

---
 image-palette-recoloring-c/image-palette-recoloring.h | 3 ++-
 image-palette-recoloring-c/src/lib.rs                 | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 248c99f..6c0ee4b 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -25,7 +25,8 @@ void free_image_weights(image_weights *weights);
 /// The return palette will never be smaller than 4 colors.
 ///
 /// If the colors of the image all lie on a single plane (eg a grayscale image),
-/// then the function will return NULL.
+/// then the function will return NULL. It also returns NULL in the rare case that
+/// the palette can't be simplified to at most 255 colors.
 uint8_t *compute_palette(
     uint32_t img_width,
     uint32_t img_heigh,
diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index 515e7b7..88eda1f 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -69,7 +69,12 @@ unsafe extern "C" fn compute_palette(
         return ptr::null_mut()
     };
 
-    *out_palette_size = palette.len() as u8;
+    // Palettes are simplified as long as possible, but that can leave more than 255 colors
+    let Ok(palette_size) = u8::try_from(palette.len()) else {
+        return ptr::null_mut()
+    };
+
+    *out_palette_size = palette_size;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
 }
 
-- 
2.43.0


From 45906aae64b1b28957cd6da148c8f38ebb8485f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 26/30] fix: the web page keeps its image when the file dialog
 is cancelled

---
 image-palette-recoloring-web/src/js/index.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 4bbaf0c..bf727fb 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -281,6 +281,10 @@ window.addEventListener("load", (event) => {
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
+        if (selectedFile === undefined) {
+            // The file dialog was cancelled
+            return;
+        }
         if (srcImg.src.length != 0) {
             URL.revokeObjectURL(srcImg.src);
         }
-- 
2.43.0


From ecde5b3e143b79ad5ad3381ff437758934871a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 27/30] fix: another image can be chosen after one that can't
 be recolored

---
 image-palette-recoloring-web/src/js/index.js | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index bf727fb..d1d3332 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -114,9 +114,16 @@ async function initialSetup() {
         g_deconstructedImagePtr = undefined;
     }
 
-    let array = computeSrcImageArray();
-    array = await recomputeImageWeights(array);
-    await recomputePalette(array);
+    try {
+        let array = computeSrcImageArray();
+        array = await recomputeImageWeights(array);
+        await recomputePalette(array);
+    } catch (e) {
+        // This image can't be recolored, but another one might
+        dstSpinner.style.visibility = "hidden";
+        srcImgPicker.disabled = false;
+        throw e;
+    }
 }
 
 async function recomputeImageWeights(array) {
-- 
2.43.0


From 8779de041794d5f54b6fbc93ba18140cfe53452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 28/30] fix: the web page doesn't decompose images without
 weights

---
 image-palette-recoloring-web/src/js/index.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index d1d3332..467a208 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -210,6 +210,11 @@ async function recomputePalette(array) {
 }
 
 async function reconstructImage() {
+    if (g_imageWeightsPtr == undefined) {
+        // The image was replaced by one that can't be recolored since this was requested
+        return;
+    }
+
     const currentPaletteColors = [];
     for (const paletteNode of paletteWrapper.children) {
         const value = paletteNode.children["palette-src-color"].value;
-- 
2.43.0


From 9fa8cffbc805dbe93983f77e6562d61237d78dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 29/30] fix: the facets around a raw vertex are always
 available

---
 qhull-sys/src/ext.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index cd915a0..102d286 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -89,6 +89,8 @@ int rqh_compute(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoi
         qh_init_B(qh, points, numpoints, dim, True);
         qh_qhull(qh);
         qh_triangulate(qh);
+        /* Only hulls with merged facets have these already */
+        qh_vertexneighbors(qh);
     }
     qh->NOerrexit = True;
     return exitcode;
-- 
2.43.0


From 82894ef97152bc6a9fc5f3cb2582fba653bd1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 30/30] fix: upper simplices can be hints

---
 qhull-rs/src/raw.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index f7f0a1c..bc50955 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -552,10 +552,11 @@ impl<N: DimName> Delaunay<N>
 
         projected_point[N::dim()] = 1.0;
         'outer: for _cycle in 0..(solver_cache.0.len() / 4 + 1) {
-            let mat = if let Some(solver) = &solver_cache.0[simplex.id() as usize] {
+            let mat = if let Some(Some(solver)) = solver_cache.0.get(simplex.id() as usize) {
                 &solver.mat
             } else {
-                // If we encounter a degenerate simplex, fall back to bruteforce
+                // If we encounter a degenerate simplex (or the hint is an upper one), fall back to
+                // bruteforce
                 break;
             };
             let mut inside = true;
@@ -747,10 +748,11 @@ impl<N: DimName> Delaunay<N>
 
         projected_point[N::dim()] = 1.0;
         'outer: for _cycle in 0..(solver_cache.0.len() / 4 + 1) {
-            let mat = if let Some(solver) = &solver_cache.0[simplex.id() as usize] {
+            let mat = if let Some(Some(solver)) = solver_cache.0.get(simplex.id() as usize) {
                 &solver.mat
             } else {
-                // If we encounter a degenerate simplex, fall back to bruteforce
+                // If we encounter a degenerate simplex (or the hint is an upper one), fall back to
+                // bruteforce
                 break;
             };
             let mut inside = true;
-- 
2.43.0

