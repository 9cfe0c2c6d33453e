From 869f615361946e97b9a405262894b17db6a1c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 01/15] fix: reject duplicate points in KDTree::insert even
 when the original has a right subtree

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..aeab321 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -63,10 +63,12 @@ where
                 Ordering::Greater => (&mut self.right, false)
             };
 
+        if verify_equals && self.internal_data == data {
+            return false;
+        }
+
         if let Some(branch_exists) = branch_to_use.as_mut() {
             return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
-            return false;
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From ac64d55a99efc95d45f520586638997d0471676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 02/15] fix: compile the convex hull modules without the
 pregenerated feature

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs  | 2 ++
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..974ffd4 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -172,7 +172,9 @@ macro_rules! impl_graham_scan {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f64, doc double);
 
 #[cfg(test)]
diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..37ddc2f 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -136,7 +136,9 @@ macro_rules! impl_jarvis_march {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f64, doc double);
 
 #[cfg(test)]
-- 
2.43.0


From b33f95291db58202631182f979d034b9ad3bbc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 03/15] fix: keep hull determinants from wrapping around in
 narrow and unsigned point types

---
 crates/mapping-algorithms/src/polygons/mod.rs | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..bdf7e4b 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -26,7 +26,7 @@ pub use jarvis_march::jarvis_march;
 pub use point_in_polygon::{are_multiple_points_in_polygon, is_single_point_in_polygon};
 
 use nalgebra::{ComplexField, Point, Point2, RealField, Scalar};
-use num_traits::{AsPrimitive, Bounded, NumOps};
+use num_traits::{AsPrimitive, Bounded, NumOps, Zero};
 
 use crate::{array, ops::RangeInclusive, types::PolygonExtents};
 
@@ -90,15 +90,28 @@ where
     Some(extents_accumulator)
 }
 
-fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitive<O>>(
-    point_a: &Point2<T>,
-    point_b: &Point2<T>,
-    point_c: &Point2<T>,
-) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+// Subtracts in `T` where that cannot leave the range of `T`, and in `O` otherwise.
+fn calculate_difference<O, T>(minuend: T, subtrahend: T) -> O
+where
+    O: ComplexField + Copy,
+    T: AsPrimitive<O> + NumOps + PartialOrd + Zero,
+{
+    if (minuend < T::zero()) != (subtrahend < T::zero()) {
+        minuend.as_() - subtrahend.as_()
+    } else if minuend < subtrahend {
+        -(subtrahend - minuend).as_()
+    } else {
+        (minuend - subtrahend).as_()
+    }
+}
+
+fn calculate_determinant<O, T>(point_a: &Point2<T>, point_b: &Point2<T>, point_c: &Point2<T>) -> O
+where
+    O: ComplexField + Copy,
+    T: AsPrimitive<O> + NumOps + PartialOrd + Scalar + Zero,
+{
+    (calculate_difference(point_b.y, point_a.y) * calculate_difference(point_c.x, point_b.x))
+        - (calculate_difference(point_b.x, point_a.x) * calculate_difference(point_c.y, point_b.y))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7ad2f86de78eaa55e29c7a31f74794e29e936ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 04/15] fix: keep jarvis_march from skipping vertices or
 looping forever on collinear points

---
 .../src/polygons/jarvis_march.rs              | 57 ++++++++++++-------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 37ddc2f..1f2da54 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -64,36 +64,55 @@ where
         points_downsampled_slice = points;
     }
 
-    // Get leftest, lowest point as a starting point
-    let mut current_vertex = points_downsampled_slice.iter().min_by(|a, b| {
+    let compare = |a: &Point2<T>, b: &Point2<T>| {
         a.coords
             .iter()
             .zip(b.coords.iter())
             .fold(Ordering::Equal, |ord, (a, b)| {
                 ord.then_with(|| a.partial_cmp(b).unwrap())
             })
-    })?;
-
-    let mut hull = Vec::with_capacity(points_downsampled_slice.len());
-    loop {
-        hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
-        for point in points_downsampled_slice {
-            if endpoint == current_vertex
-                || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
-            {
-                endpoint = point;
-            }
-        }
+    };
 
-        current_vertex = endpoint;
+    // Get leftest, lowest point as a starting point, and the rightest, highest one as the turning point
+    let first_vertex = points_downsampled_slice
+        .iter()
+        .min_by(|a, b| compare(a, b))?;
+    let last_vertex = points_downsampled_slice
+        .iter()
+        .max_by(|a, b| compare(a, b))?;
 
-        if current_vertex == &hull[0] {
-            break;
+    let mut hull = Vec::with_capacity(points_downsampled_slice.len());
+    let mut current_vertex = first_vertex;
+    // March over the top to the turning point, then back underneath,
+    // never backwards, so that collinear points (or rounding) cannot lead into a cycle
+    for (direction, target) in [
+        (Ordering::Greater, last_vertex),
+        (Ordering::Less, first_vertex),
+    ] {
+        while current_vertex != target {
+            hull.push(*current_vertex);
+            current_vertex = points_downsampled_slice
+                .iter()
+                .filter(|point| compare(point, current_vertex) == direction)
+                .reduce(|endpoint, point| {
+                    let turn: O = calculate_determinant(current_vertex, endpoint, point);
+                    if turn < O::zero()
+                        // The closest of several collinear points comes first
+                        || (turn == O::zero() && compare(endpoint, point) == direction)
+                    {
+                        point
+                    } else {
+                        endpoint
+                    }
+                })?;
         }
     }
 
-    if hull.len() < 3 {
+    // All of the points are collinear
+    if hull
+        .iter()
+        .all(|vertex| calculate_determinant::<O, T>(first_vertex, last_vertex, vertex) == O::zero())
+    {
         return None;
     }
 
-- 
2.43.0


From 1f3a499d80a99a468b68390d54b4e36ae0c76f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 05/15] fix: sort after downsampling in graham_scan even if the
 input was sorted

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 974ffd4..eee6367 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling does not keep the order of the points
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 3cc33aa6bb5d72da720fc65fa0d6071bca42577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 06/15] fix: haversine distance of antipodal points is not NaN

---
 crates/mapping-algorithms/src/geo/haversine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..e9da93c 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -62,8 +62,10 @@ where
     let lat1_radians = point_a.x.to_radians();
     let lat2_radians = point_b.x.to_radians();
 
-    let basic_haversine = half_angle_sine_squared(delta_lat)
-        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos();
+    // Rounding can exceed one for (nearly) antipodal points
+    let basic_haversine = (half_angle_sine_squared(delta_lat)
+        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos())
+    .min(T::one());
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
-- 
2.43.0


From 991fa7a6387a4f91c8c8540d9c68c5a3ae09645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 07/15] fix: only build the KD tree in icp when it is used

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..8773cdd 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -175,7 +175,7 @@ where
     }
 
     let mut points_to_transform = points_a.to_vec();
-    let target_points_tree = config.use_kd_tree.then_some(KDTree::from(points_b));
+    let target_points_tree = config.use_kd_tree.then(|| KDTree::from(points_b));
     let mut current_transform = Isometry::identity();
     let mut current_mse = <T as Bounded>::max_value();
 
-- 
2.43.0


From 3b5ed76fb4e63cc140a5984ff76276ddde055f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 08/15] fix: reject a NaN interval threshold in icp, like a NaN
 absolute threshold

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 8773cdd..3414bbc 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -162,7 +162,9 @@ where
         return Err(ICPError::IterationNumIsZero);
     }
 
-    if config.mse_interval_threshold <= T::default_epsilon() {
+    if config.mse_interval_threshold.is_nan()
+        || config.mse_interval_threshold <= T::default_epsilon()
+    {
         return Err(ICPError::MSEIntervalThreshold);
     }
 
-- 
2.43.0


From 7c970df8f4e234279ed34f327aa3a3c4fb3b4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 09/15] fix: plot_bresenham_line no longer loops forever where
 a unit step is below the precision

---
 crates/mapping-algorithms/src/lines/bresenham.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/lines/bresenham.rs b/crates/mapping-algorithms/src/lines/bresenham.rs
index e8b737b..a867ef1 100644
--- a/crates/mapping-algorithms/src/lines/bresenham.rs
+++ b/crates/mapping-algorithms/src/lines/bresenham.rs
@@ -72,12 +72,10 @@ where
 
     let mut current_point = start_point;
     let mut errors = Vec::from([F::zero(); N]);
-    let mut points = Vec::with_capacity(<F as AsPrimitive<usize>>::as_(
-        deltas[primary_axis] + F::one(),
-    ));
-    while <F as ComplexField>::abs(current_point[primary_axis] - end_point[primary_axis])
-        >= F::one()
-    {
+    // Counted in advance, as stepping may not change the coordinate once it is too large for its precision
+    let num_steps: usize = deltas[primary_axis].as_();
+    let mut points = Vec::with_capacity(num_steps + 1);
+    for _ in 0..num_steps {
         points.push(current_point.map(|element| element.as_()));
 
         for axis in 0..N {
-- 
2.43.0


From 90674d331f124d21a208e620c8233b56496970a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 10/15] fix: take the ICP rotation from its matrix directly
 instead of searching for it iteratively

---
 .../mapping-algorithms/src/types/isometry.rs  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..bb58360 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation, SMatrix, UnitComplex, UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +70,13 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The matrix is a rotation by construction, `from_matrix` would search for it iteratively,
+        // which can stop at another rotation or never stop at all.
+        let mut rotation =
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation));
+        rotation.renormalize();
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
 
@@ -95,7 +100,12 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The matrix is a rotation by construction, `from_matrix` would search for it iteratively,
+        // which can stop at another rotation or never stop at all.
+        let mut rotation =
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation));
+        rotation.renormalize();
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
-- 
2.43.0


From 975f31531a9ddf0443a1d4fc63321629e63847b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 11/15] fix: keep the ICP transform finite and rigid when the
 covariance is degenerate

---
 .../mapping-algorithms/src/types/isometry.rs  | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb58360..f2b12b1 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -50,6 +50,27 @@ pub trait AbstractIsometry<T: RealField, const N: usize> {
     ) -> Isometry<T, Self::RotType, N>;
 }
 
+/// Scales the covariance matrix to a largest element of 1 and drops the elements that are then mere rounding noise,
+/// neither of which matters to the rotation, so that the products the SVD makes of its elements do not underflow or overflow.
+fn normalize_covariance<T, const N: usize>(rot_mat: &SMatrix<T, N, N>) -> SMatrix<T, N, N>
+where
+    T: Copy + RealField,
+{
+    let largest = rot_mat.amax();
+    if largest <= T::zero() {
+        return *rot_mat;
+    }
+
+    rot_mat.map(|element| {
+        let scaled = element / largest;
+        if scaled.abs() < T::default_epsilon() {
+            T::zero()
+        } else {
+            scaled
+        }
+    })
+}
+
 impl<T> AbstractIsometry<T, 2> for IsometryAbstractor<T, 2>
 where
     T: Copy + RealField,
@@ -66,15 +87,14 @@ where
         mean_b: Point<T, 2>,
         rot_mat: &SMatrix<T, 2, 2>,
     ) -> Isometry<T, Self::RotType, 2> {
-        let svd = rot_mat.svd(true, true);
+        let svd = normalize_covariance(rot_mat).svd(true, true);
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
-        let translation = mean_b.coords - (rotation * mean_a.coords);
-
         // The matrix is a rotation by construction, `from_matrix` would search for it iteratively,
         // which can stop at another rotation or never stop at all.
         let mut rotation =
             Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation));
         rotation.renormalize();
+        let translation = mean_b.coords - (rotation * mean_a.coords);
 
         Isometry::from_parts(translation.into(), rotation) * old_transform
     }
@@ -96,15 +116,14 @@ where
         mean_b: Point<T, 3>,
         rot_mat: &SMatrix<T, 3, 3>,
     ) -> Isometry<T, Self::RotType, 3> {
-        let svd = rot_mat.svd(true, true);
+        let svd = normalize_covariance(rot_mat).svd(true, true);
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
-        let translation = mean_b.coords - (rotation * mean_a.coords);
-
         // The matrix is a rotation by construction, `from_matrix` would search for it iteratively,
         // which can stop at another rotation or never stop at all.
         let mut rotation =
             Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation));
         rotation.renormalize();
+        let translation = mean_b.coords - (rotation * mean_a.coords);
 
         Isometry::from_parts(translation.into(), rotation) * old_transform
     }
-- 
2.43.0


From d23a07b22e5f7eb8b4d7796d41d8f6b6dd31e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 12/15] fix: measure the turns of jarvis_march from the current
 vertex

---
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 1f2da54..442efa8 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -95,8 +95,10 @@ where
                 .iter()
                 .filter(|point| compare(point, current_vertex) == direction)
                 .reduce(|endpoint, point| {
-                    let turn: O = calculate_determinant(current_vertex, endpoint, point);
-                    if turn < O::zero()
+                    // Both differences are from the current vertex, as a difference of the other two
+                    // would drown the direction of a point that is much closer than the other
+                    let turn: O = calculate_determinant(endpoint, current_vertex, point);
+                    if turn > O::zero()
                         // The closest of several collinear points comes first
                         || (turn == O::zero() && compare(endpoint, point) == direction)
                     {
-- 
2.43.0


From 660103451c99802b78d6a3acffed03b1221a5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 13/15] fix: haversine distance at the poles is not NaN, and
 stays NaN for NaN input

---
 crates/mapping-algorithms/src/geo/haversine.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index e9da93c..dfed78f 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -62,10 +62,13 @@ where
     let lat1_radians = point_a.x.to_radians();
     let lat2_radians = point_b.x.to_radians();
 
-    // Rounding can exceed one for (nearly) antipodal points
-    let basic_haversine = (half_angle_sine_squared(delta_lat)
-        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos())
-    .min(T::one());
+    // Rounding can leave the range for (nearly) antipodal points and at the poles
+    let basic_haversine = num_traits::clamp(
+        half_angle_sine_squared(delta_lat)
+            + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos(),
+        T::zero(),
+        T::one(),
+    );
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
-- 
2.43.0


From 89a99c5b979359c6c153c096f6e03b0de70c7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 14/15] fix: find the 3D ICP rotation with an SVD that is
 accurate for close singular values

---
 .../mapping-algorithms/src/types/isometry.rs  | 75 ++++++++++++++++++-
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index f2b12b1..681abb1 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,8 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, Rotation, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Matrix3, Point, RealField, Rotation, SMatrix, UnitComplex,
+    UnitQuaternion, Vector3, SVD, U3,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -71,6 +72,76 @@ where
     })
 }
 
+/// Performs an SVD on a 3x3 matrix, whose largest element is 1, by making its columns orthogonal with Jacobi rotations.
+/// nalgebra takes the singular vectors of a 3x3 matrix from the eigenvectors of its Gram matrix,
+/// which can be off by any angle when two of the singular values are close to each other.
+fn svd_3x3<T>(matrix: &Matrix3<T>) -> SVD<T, U3, U3>
+where
+    T: Copy + RealField,
+{
+    let mut b = *matrix;
+    let mut v = Matrix3::<T>::identity();
+
+    // This converges quadratically, the limit only matters to NaN elements and to columns of mere rounding noise
+    for _ in 0..16 {
+        let mut is_orthogonal = true;
+        for (i, j) in [(0, 1), (0, 2), (1, 2)] {
+            let (norm_i, norm_j) = (b.column(i).norm(), b.column(j).norm());
+            let dot = b.column(i).dot(&b.column(j));
+            if dot.abs() <= T::default_epsilon() * norm_i * norm_j {
+                continue;
+            }
+            is_orthogonal = false;
+
+            let zeta = (norm_j - norm_i) * (norm_j + norm_i) / (dot + dot);
+            let tangent = T::one().copysign(zeta) / (zeta.abs() + (T::one() + zeta * zeta).sqrt());
+            let cosine = T::one() / (T::one() + tangent * tangent).sqrt();
+            let sine = cosine * tangent;
+            for columns in [&mut b, &mut v] {
+                let old_i = columns.column(i).into_owned();
+                let old_j = columns.column(j).into_owned();
+                columns.set_column(i, &(old_i * cosine - old_j * sine));
+                columns.set_column(j, &(old_i * sine + old_j * cosine));
+            }
+        }
+        if is_orthogonal {
+            break;
+        }
+    }
+
+    for (i, j) in [(0, 1), (0, 2), (1, 2)] {
+        if b.column(i).norm() < b.column(j).norm() {
+            b.swap_columns(i, j);
+            v.swap_columns(i, j);
+        }
+    }
+    let singular_values = Vector3::from_fn(|i, _| b.column(i).norm());
+
+    // Any orthogonal vectors will do for the singular values that are zero
+    let noise = singular_values[0] * T::default_epsilon();
+    let u_0 = b
+        .column(0)
+        .into_owned()
+        .try_normalize(T::zero())
+        .unwrap_or_else(Vector3::x);
+    let u_1 = (b.column(1) - u_0 * u_0.dot(&b.column(1)))
+        .try_normalize(noise)
+        .unwrap_or_else(|| {
+            let unit = Matrix3::identity().column(u_0.iamin()).into_owned();
+            u_0.cross(&unit).normalize()
+        });
+    let mut u_2 = u_0.cross(&u_1);
+    if u_2.dot(&b.column(2)) < T::zero() {
+        u_2.neg_mut();
+    }
+
+    SVD {
+        u: Some(Matrix3::from_columns(&[u_0, u_1, u_2])),
+        v_t: Some(v.transpose()),
+        singular_values,
+    }
+}
+
 impl<T> AbstractIsometry<T, 2> for IsometryAbstractor<T, 2>
 where
     T: Copy + RealField,
@@ -116,7 +187,7 @@ where
         mean_b: Point<T, 3>,
         rot_mat: &SMatrix<T, 3, 3>,
     ) -> Isometry<T, Self::RotType, 3> {
-        let svd = normalize_covariance(rot_mat).svd(true, true);
+        let svd = svd_3x3(&normalize_covariance(rot_mat));
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         // The matrix is a rotation by construction, `from_matrix` would search for it iteratively,
         // which can stop at another rotation or never stop at all.
-- 
2.43.0


From 65fed05b94f79df344352ce6c0920097c4f074dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 15/15] fix: jarvis_march returns None for points with NaN
 instead of panicking

---
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 442efa8..25b6f37 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -64,6 +64,16 @@ where
         points_downsampled_slice = points;
     }
 
+    // Points with coordinates that do not even equal themselves, such as NaN, have no hull
+    if points_downsampled_slice.iter().any(|point| {
+        point
+            .coords
+            .iter()
+            .any(|coord| coord.partial_cmp(coord).is_none())
+    }) {
+        return None;
+    }
+
     let compare = |a: &Point2<T>, b: &Point2<T>| {
         a.coords
             .iter()
-- 
2.43.0

