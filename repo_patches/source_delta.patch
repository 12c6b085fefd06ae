From 65009f0bbfadb210bd1f70259616085f4ce0036c Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/34] fix: so(3) log map at and near half-turn rotations

The axis was taken from the antisymmetric part of the rotation matrix, which
vanishes at an angle of pi, so the log of any half turn was zero (identity)
and the log lost precision close to it. Go through the quaternion instead.
---
 cv-core/src/so3.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..43c0255 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -263,7 +265,9 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
+        // The conversion goes through the quaternion, as extracting the axis from the antisymmetric
+        // part of the matrix is degenerate when the angle is near (or exactly) pi.
+        let skew3 = UnitQuaternion::from_rotation_matrix(&r).scaled_axis();
         // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
         let skew3 = if skew3.iter().any(|n| n.is_nan()) {
             Vector3::zeros()
-- 
2.43.0


From 2dc015f2bf20d864666832161f0aea1e98ebe491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/34] fix: Projective::point returns None when the euclidean
 point overflows

As documented, a point so far away that its euclidean coordinates overflow has
no euclidean form. It came back as Some with infinite coordinates.
---
 cv-core/src/point.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv-core/src/point.rs b/cv-core/src/point.rs
index f9e2b3e..200f20c 100644
--- a/cv-core/src/point.rs
+++ b/cv-core/src/point.rs
@@ -36,6 +36,7 @@ pub trait Projective: Clone + Copy {
     /// whereas a 3d euclidean point cannot (it would overflow).
     fn point(self) -> Option<Point3<f64>> {
         Point3::from_homogeneous(self.homogeneous())
+            .filter(|point| point.iter().all(|n| n.is_finite()))
     }
 
     /// Convert the euclidean 3d point into homogeneous coordinates.
-- 
2.43.0


From de11ce6d24b40ea9f8169a95d860e007fddd38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/34] fix: sign of Skew3::jacobian_self and w row of the pose
 Jacobian

---
 cv-core/src/pose.rs | 35 +++++++++++------------------------
 cv-core/src/so3.rs  |  2 +-
 2 files changed, 12 insertions(+), 25 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..d69c959 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -1,7 +1,7 @@
 use crate::{CameraPoint, FeatureMatch, FeatureWorldMatch, Projective, Skew3, WorldPoint};
 use derive_more::{AsMut, AsRef, From, Into};
 use nalgebra::{
-    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Matrix6x4, Rotation3, Vector3, Vector4,
+    zero, IsometryMatrix3, Matrix3, Matrix3x4, Matrix4, Matrix4x6, Rotation3, Vector3, Vector4,
     Vector6,
 };
 use sample_consensus::Model;
@@ -78,7 +78,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
     ) -> (Self::OutputPoint, Matrix4<f64>, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
         let jacobian_input = pose_jacobian_input(self);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (
             Projective::from_homogeneous(output),
             jacobian_input,
@@ -112,7 +112,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
         input: Self::InputPoint,
     ) -> (Self::OutputPoint, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (Projective::from_homogeneous(output), jacobian_self)
     }
 
@@ -145,32 +145,19 @@ fn pose_jacobian_input<P: Pose>(pose: P) -> Matrix4<f64> {
 }
 
 /// Retrieves the Jacobian relating the output to the pose in se(3)
-fn pose_jacobian_self<P: Pose>(
-    pose: P,
-    rotated: Vector4<f64>,
-    output: Vector4<f64>,
-) -> Matrix4x6<f64> {
-    // The translation homogeneous matrix
-    //
-    // This is also the jacobian of the output in respect to the rotation output.
-    let translation = pose.isometry().translation.to_homogeneous();
-
+fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<f64> {
     // dP/dT (Jacobian of output point in respect to translation component)
-    let dp_dt = Matrix4::<f64>::identity() * output.w;
+    let dp_dt = Matrix3::<f64>::identity() * output.w;
 
     // dP/ds (Jacobian of output point in respect to skew component)
-    let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    let dp_ds = Skew3::jacobian_self(rotated.xyz());
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
-    Matrix6x4::<f64>::from_rows(&[
-        dp_dt.row(0),
-        dp_dt.row(1),
-        dp_dt.row(2),
-        dp_ds.row(0),
-        dp_ds.row(1),
-        dp_ds.row(2),
-    ])
-    .transpose()
+    // The last row stays zero, as the `w` of the output doesn't depend on the pose.
+    let mut dp_dts = Matrix4x6::<f64>::zeros();
+    dp_dts.fixed_slice_mut::<3, 3>(0, 0).copy_from(&dp_dt);
+    dp_dts.fixed_slice_mut::<3, 3>(0, 3).copy_from(&dp_ds);
+    dp_dts
 }
 
 /// This contains a world pose, which is a pose of the world relative to the camera.
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 43c0255..9539c03 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -243,7 +243,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From f32d3590a194a7d676b7e5a95358baa2859c83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 04/34] fix: bearings in the image plane have no pixel

---
 cv-pinhole/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..54d77b9 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -132,7 +132,7 @@ impl CameraModel for CameraIntrinsics {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6);
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        (projection.z > 0.0).then_some(())?;
         let projection = projection.xy() / projection.z;
         let y = projection.y * self.focals.y;
         let x = projection.x * self.focals.x + self.skew * projection.y;
@@ -222,7 +222,7 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6, "{:?}", (kp.0 - ukp.0).norm());
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        (projection.z > 0.0).then_some(())?;
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-- 
2.43.0


From 2c91071f0be6b774eeffec4c5558f9d2e7225572 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 05/34] fix: K1 uncalibrate is NaN for zero distortion, the
 principal point and unreachable bearings

---
 cv-pinhole/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 54d77b9..6108c7c 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -224,12 +224,13 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
         (projection.z > 0.0).then_some(())?;
         let undistorted = projection.xy() / projection.z;
-        // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
-        let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
-        let distorted = undistorted * (1.0 + r2_mul_k1);
+        // You can set up a quadratic to solve for r with the undistorted keypoint: k1 * u * r^2 - r + u = 0.
+        // The root which tends to `u` as `k1` tends to zero is used in the form which doesn't cancel,
+        // so it is also accurate if `k1` or `u` are zero or very small.
+        let discriminant = 1.0 - 4.0 * self.k1 * undistorted.norm_squared();
+        // No pixel can be undistorted to this bearing if the quadratic has no real root.
+        (discriminant >= 0.0).then_some(())?;
+        let distorted = undistorted * (2.0 / (1.0 + Float::sqrt(discriminant)));
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
             + self.simple_intrinsics.skew * distorted.y;
-- 
2.43.0


From c394c3c347e01a42a3fc7a0cb61d3eeedbf6f518 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 06/34] fix: intrinsics_centered puts the principal point at
 the centre of the pixels

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 6108c7c..bdfe4e8 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -280,7 +280,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From a1e41a0c552d8233777defa019b3f48b67fccc89 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 07/34] fix: triangulators check that the point is in front of
 each camera from its own position

---
 cv-geom/src/triangulation.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..8a7664e 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -5,6 +5,11 @@ use cv_core::{
     WorldPoint, WorldToCamera,
 };
 
+/// Checks that a point is in front of a camera, on the side of its center that the bearing points to.
+fn is_in_front<P: Pose>(pose: P, bearing: UnitVector3<f64>, point: P::InputPoint) -> bool {
+    pose.transform(point).bearing().dot(&bearing) > 0.0
+}
+
 /// This is a very quick triangulator to execute, but it is not particularly suitable for optimization.
 /// It can be used for optimization when you have very low error to begin with.
 /// It is suitable for quickly generating 3d point outputs, such as for display purposes.
@@ -120,11 +125,7 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
-                })
+                pairs.all(|(pose, bearing)| is_in_front(pose, bearing, *point))
             })
     }
 }
@@ -353,11 +354,8 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                point.bearing().dot(&a).is_sign_positive()
-                    && point
-                        .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
-                        .is_sign_positive()
+                is_in_front(CameraToCamera::identity(), a, *point)
+                    && is_in_front(relative_pose, b, *point)
             })
     }
 }
@@ -432,11 +430,7 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
-            })
+            pairs.all(|(pose, bearing)| is_in_front(pose, bearing, *point))
         })
     }
 }
@@ -524,7 +518,10 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            // The bearing `a` starts at `translation`, while the bearing `b` starts at the origin.
+            let homogeneous = point.homogeneous();
+            let from_a = homogeneous.xyz() - translation * homogeneous.w;
+            from_a.dot(&a) > 0.0 && point.bearing().dot(&b) > 0.0
         })
     }
 }
@@ -600,7 +597,10 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            // The bearing `a` starts at `translation`, while the bearing `b` starts at the origin.
+            let homogeneous = point.homogeneous();
+            let from_a = homogeneous.xyz() - translation * homogeneous.w;
+            from_a.dot(&a) > 0.0 && point.bearing().dot(&b) > 0.0
         })
     }
 }
-- 
2.43.0


From 8f8200e193b3220bec42ce5e284eb1dd6a4e8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 08/34] fix: pick the null space vector by its cost, the
 eigenvalues may be listed in another order

---
 cv-core/src/pose.rs          | 12 ++++++------
 cv-geom/src/triangulation.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index d69c959..f4f89d9 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -262,12 +262,12 @@ impl Model<FeatureMatch> for CameraToCamera {
             return 2.0;
         };
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| n.abs().to_bits())
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the least cost, which is the null space homogeneous vector where our point will lie.
+        // The eigenvalues can't be used, as the solver may list them in a different order than the eigenvectors.
+        se.eigenvectors
+            .column_iter()
+            .map(|v| v.into_owned())
+            .min_by_key(|v| v.dot(&(design * v)).abs().to_bits())
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 8a7664e..dea6aac 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -112,12 +112,12 @@ impl TriangulatorObservations for LinearEigenTriangulator {
 
         let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the least cost, which is the null space homogeneous vector where our point will lie.
+        // The eigenvalues can't be used, as the solver may list them in a different order than the eigenvectors.
+        se.eigenvectors
+            .column_iter()
+            .map(|v| v.into_owned())
+            .min_by_key(|v| float_ord::FloatOrd(v.dot(&(a * v))))
             .map(WorldPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 5adbf6518efcc68ea05061bc340af37df9789fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 09/34] fix: sine L1 triangulation checks the refined point

---
 cv-geom/src/triangulation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index dea6aac..ae76f74 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -229,7 +229,7 @@ impl Default for SineL1Triangulator {
 impl TriangulatorObservations for SineL1Triangulator {
     fn triangulate_observations(
         &self,
-        pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
+        mut pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
     ) -> Option<WorldPoint> {
         let epsilon_squared = self.epsilon * self.epsilon;
         // Create the initial guess using a fast method.
@@ -273,6 +273,14 @@ impl TriangulatorObservations for SineL1Triangulator {
         }
 
         Some(Projective::from_point(point))
+            .filter(|point: &WorldPoint| {
+                // Ensure the point contains no NaN or infinity.
+                point.homogeneous().iter().all(|n| n.is_finite())
+            })
+            .filter(|point| {
+                // Ensure the cheirality constraint, as the refinement may have moved the point behind a camera.
+                pairs.all(|(pose, bearing)| is_in_front(pose, bearing, *point))
+            })
     }
 }
 
-- 
2.43.0


From 8c8066bd474ef0bc061e88b122a69ea87cb4eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 10/34] fix: pick the DLT solution by its cost, singular values
 are scaled without U

---
 cv-geom/src/triangulation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index ae76f74..dcf8c38 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -352,9 +352,14 @@ impl TriangulatorRelative for RelativeDltTriangulator {
 
         let svd = design.try_svd(false, true, self.epsilon, self.max_iterations)?;
 
-        // Extract the null-space vector from V* corresponding to the smallest
-        // singular value, which is the homogeneous coordiate of the output.
-        Some(svd.v_t.unwrap().row(3).transpose())
+        // Extract the null-space vector from V* with the least cost, which is the homogeneous coordiate
+        // of the output. The singular values can't be used, as the solver scales some of them
+        // when U is not computed.
+        svd.v_t
+            .unwrap()
+            .row_iter()
+            .map(|row| row.transpose())
+            .min_by_key(|v| float_ord::FloatOrd((design * v).norm_squared()))
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From d75da0e47708f25e1ab60350ee27638a168d3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 11/34] fix: P3P root at infinity of symmetric configurations

---
 lambda-twist/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..73083c9 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -175,16 +175,21 @@ impl LambdaTwist {
             - 2.0 * a12 * (blob * a23 + a13 * s23_sqr);
         let p0 = a12 * (a12 * s23_sqr - a23 * s12_sqr);
 
-        // Get sharpest real root of above.
-        let g = cube_root(p2 / p3, p1 / p3, p0 / p3);
+        // Get sharpest real root of above. In symmetric configurations the cubic coefficient is zero,
+        // then the sharpest root is at infinity, where D0 = D1 + g * D2 becomes D2.
+        let (f, g) = if p3 == 0.0 {
+            (0.0, 1.0)
+        } else {
+            (1.0, cube_root(p2 / p3, p1 / p3, p0 / p3))
+        };
 
         // Build the matrix called D0 in the paper.
-        let d0_00 = a23 * (1.0 - g);
-        let d0_01 = -(a23 * c12);
+        let d0_00 = a23 * (f - g);
+        let d0_01 = -(a23 * c12 * f);
         let d0_02 = a23 * c31 * g;
-        let d0_11 = a23 - a12 + a13 * g;
-        let d0_12 = -c23 * (a13 * g - a12);
-        let d0_22 = g * (a13 - a23) - a12;
+        let d0_11 = (a23 - a12) * f + a13 * g;
+        let d0_12 = -c23 * (a13 * g - a12 * f);
+        let d0_22 = g * (a13 - a23) - a12 * f;
         #[rustfmt::skip]
     let d0_mat = Mat3::new(
         d0_00, d0_01, d0_02,
-- 
2.43.0


From 76c1ab927eb7a08535028c0997c4ef656deac5dc Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 12/34] fix: P3P drops depths that do not solve its equations

---
 lambda-twist/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 73083c9..088776f 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -278,7 +278,7 @@ impl LambdaTwist {
             .iter()
             .map(|&lambda| {
                 // Refine estimated depth values.
-                let lambda_refined = gauss_newton_refine_lambda(
+                gauss_newton_refine_lambda(
                     lambda,
                     self.gauss_newton_iterations,
                     a12,
@@ -287,8 +287,18 @@ impl LambdaTwist {
                     b12,
                     b13,
                     b23,
-                );
-
+                )
+            })
+            .filter(|l| {
+                // Three points can be matched exactly. Depths which do not even roughly reproduce the
+                // distances between the points come from a division by (almost) zero. The refinement of
+                // those may also end behind the camera.
+                let r1 = l.x * l.x + l.y * l.y + b12 * l.x * l.y - a12;
+                let r2 = l.x * l.x + l.z * l.z + b13 * l.x * l.z - a13;
+                let r3 = l.y * l.y + l.z * l.z + b23 * l.y * l.z - a23;
+                l.min() >= 0.0 && l1_norm(Vec3::new(r1, r2, r3)) < 1e-3 * (a12 + a13 + a23)
+            })
+            .map(|lambda_refined| {
                 let ry1 = lambda_refined[0] * *bearings[0];
                 let ry2 = lambda_refined[1] * *bearings[1];
                 let ry3 = lambda_refined[2] * *bearings[2];
-- 
2.43.0


From 58918a23719b725467560efbf1d8afa221c4d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 13/34] fix: P3P rotations by half a turn came back as the
 identity

---
 lambda-twist/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 088776f..11b7c06 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -33,7 +33,7 @@ use num_traits::Float;
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, Vector3},
+    nalgebra::{Matrix3, Rotation3, UnitQuaternion, Vector3},
     sample_consensus::Estimator,
     FeatureWorldMatch, Pose, Projective, WorldToCamera,
 };
@@ -318,13 +318,17 @@ impl LambdaTwist {
                 (rot, ry1 - rot * wps[0].coords)
             })
             .map(|(rot, trans)| {
+                // Start from the rotation itself: from the identity, the convergence would get stuck for
+                // any half-turn.
+                let guess =
+                    UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rot));
                 WorldToCamera::from_parts(
                     trans,
                     Rotation3::from_matrix_eps(
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        UnitQuaternion::new_normalize(guess.into_inner()).to_rotation_matrix(),
                     ),
                 )
             })
-- 
2.43.0


From f92fcdfe06a8fe44c81960549bf6792225c5b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 14/34] fix: pick the eight-point null space vector by its cost

---
 eight-point/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index fdea941..0eb66d8 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -47,12 +47,13 @@ impl EightPoint {
         let epipolar_constraint = encode_epipolar_equation(data);
         let eet = epipolar_constraint.transpose() * epipolar_constraint;
         let eigens = eet.try_symmetric_eigen(self.epsilon, self.iterations)?;
+        // Find the eigenvector with the least cost. The eigenvalues can't be used, as the solver may
+        // list them in a different order than the eigenvectors.
         let eigenvector = eigens
-            .eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| eigens.eigenvectors.column(ix).into_owned())?;
+            .eigenvectors
+            .column_iter()
+            .map(|v| v.into_owned())
+            .min_by_key(|v| float_ord::FloatOrd((epipolar_constraint * v).norm_squared()))?;
         let mat = Matrix3::from_iterator(eigenvector.iter().copied());
         Some(EssentialMatrix(mat))
     }
-- 
2.43.0


From b51193264cc4d854a4331b910998421a6600e303 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 15/34] fix: eight-point divided the bearings by the depth of
 the first one

---
 eight-point/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index 0eb66d8..350b610 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -12,10 +12,9 @@ fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMat
     let mut out: OMatrix<f64, U8, U9> = nalgebra::zero();
     for (i, FeatureMatch(a, b)) in (0..8).zip(matches) {
         let mut row = OVector::<f64, U9>::zeros();
-        let ap = a.into_inner() / a.z;
-        let bp = b.into_inner() / a.z;
+        // The equation is homogeneous in both bearings, so these don't need to be in the image plane.
         for j in 0..3 {
-            let v = ap[j] * bp;
+            let v = a[j] * b.into_inner();
             row.fixed_rows_mut::<3>(3 * j).copy_from(&v);
         }
         out.row_mut(i).copy_from(&row.transpose());
-- 
2.43.0


From dc039879bde61541a91589bc91888c888a8399ae Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 16/34] fix: five-point essential matrix read from the wrong
 rows of the eigenvector

---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From 317bd2401cc9c56ae24b443582f6376f6749ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 17/34] fix: five-point eigenvalue iteration could run forever

---
 nister-stewenius/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..48366d0 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,7 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
-        DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
+        DimName, Matrix3, OMatrix, OVector, Schur, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
 };
@@ -220,10 +220,12 @@ fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
 ) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
+    // `complex_eigenvalues` on the matrix itself iterates forever when it doesn't converge.
+    let eigenvalues =
+        Schur::try_new(at, f64::EPSILON, EIGEN_ITERATIONS).map(|schur| schur.complex_eigenvalues());
+    (0..eigenvalues.map_or(0, |eigenvalues| eigenvalues.len()))
         .filter_map(move |i| {
-            let e = eigenvalues[i];
+            let e = eigenvalues?[i];
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-- 
2.43.0


From 70e6a8efd86b1b366db5acfa1cfce3822550a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 18/34] fix: five-point solver missed planar motions and pure
 translations

---
 nister-stewenius/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 48366d0..35eb329 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -251,6 +251,12 @@ fn five_points_relative_pose(
         return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
     };
 
+    // An essential matrix without any share of the last basis vector can't be found. The eigenvectors of
+    // planar motions and pure translations tend to be aligned just so, so use another basis of the
+    // same space, which is in general position.
+    let axis = Vector4::new(0.2, 0.4, 0.5, 0.7).normalize();
+    let e_basis = e_basis - e_basis * axis * axis.transpose() * 2.0;
+
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
-- 
2.43.0


From 798e985ade1ecdda6d429bccff793f26558988e3 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 19/34] fix: P3P cubic with a saddle point gave NaN

---
 lambda-twist/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 11b7c06..12dc61c 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -477,8 +477,8 @@ fn root2real(b: f64, c: f64) -> (bool, f64, f64) {
 fn cube_root(b: f64, c: f64, d: f64) -> f64 {
     // Choose an initial solution.
     let mut r0;
-    // Not monotonic.
-    if b * b >= 3.0 * c {
+    // Not monotonic. If both stationary points are the same, there is no curvature to divide by.
+    if b * b > 3.0 * c {
         // h has two stationary points, compute them.
         // double t1 = t - sqrt(diff);
         let v = (b * b - 3.0 * c).sqrt();
-- 
2.43.0


From 3e032c06b9ce63209a87fe8189dc8da6bda64802 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 20/34] fix: P3P divided by zero in symmetric configurations

---
 lambda-twist/src/lib.rs | 120 ++++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 54 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 12dc61c..10eb41a 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -207,51 +207,53 @@ impl LambdaTwist {
         // Solve the four possible solutions for the depths values.
         let eigen_ratio = (0.0_f64.max(-eig_values[1] / eig_values[0])).sqrt();
 
-        // Helper closure to compute quadratic coefficients.
-        // CF equation (15) in paper.
-        let quadratic_coefficients = |ratio: f64| {
-            let w2 = 1.0 / (ratio * eig_vectors.m12 - eig_vectors.m11);
-            let w0 = w2 * (eig_vectors.m21 - ratio * eig_vectors.m22);
-            let w1 = w2 * (eig_vectors.m31 - ratio * eig_vectors.m32);
-
-            let a = 1.0 / ((a13 - a12) * w1 * w1 - a12 * b13 * w1 - a12);
-            let b = a * (a13 * b12 * w1 - a12 * b13 * w0 - 2.0 * w0 * w1 * (a12 - a13));
-            let c = a * ((a13 - a12) * w0 * w0 + a13 * b12 * w0 + a13);
-            (w0, w1, b, c)
-        };
-
-        // Helper closure to estimate possible depths values.
-        // CF equation (16) in paper.
-        let possible_depths = |tau: f64, w0: f64, w1: f64| {
-            let d = a23 / (tau * (b23 + tau) + 1.0);
-            if d > 0.0 {
-                let l2 = d.sqrt();
-                let l3 = tau * l2;
-                let l1 = w0 * l2 + w1 * l3;
-                (true, l1, l2, l3)
-            } else {
-                (false, 0.0, 0.0, 0.0)
-            }
-        };
-
-        // Helper closure pushing one potential solution.
-        let mut push_solution = |tau: f64, w0: f64, w1: f64| {
-            if tau > 0.0 {
-                let (valid, l1, l2, l3) = possible_depths(tau, w0, w1);
-                if valid && l1 >= 0.0 {
-                    lambdas.push(Vec3::new(l1, l2, l3));
-                }
-            }
-        };
+        // The quadratic forms whose value at the depths is the squared distance of two points.
+        #[rustfmt::skip]
+        let (m12, m13, m23) = (
+            Mat3::new(1.0, 0.5 * b12, 0.0,  0.5 * b12, 1.0, 0.0,  0.0, 0.0, 0.0),
+            Mat3::new(1.0, 0.0, 0.5 * b13,  0.0, 0.0, 0.0,  0.5 * b13, 0.0, 1.0),
+            Mat3::new(0.0, 0.0, 0.0,  0.0, 1.0, 0.5 * b23,  0.0, 0.5 * b23, 1.0),
+        );
+        // Those which are zero at the depths. D0 is one of their combinations.
+        let conics = [
+            m12 * a13 - m13 * a12,
+            m13 * a23 - m23 * a13,
+            m23 * a12 - m12 * a23,
+        ];
 
         // Helper closure pushing two potential solutions
         // corresponding to a given eigen value ratio.
+        // The paper (equations 15 and 16) solves for the depths one after another, which divides by zero
+        // in symmetric configurations, so this solves for their direction in a basis of the plane instead.
         let mut push_solutions_to_lambdas = |ratio: f64| {
-            let (w0, w1, b, c) = quadratic_coefficients(ratio);
-            if b * b - 4.0 * c >= 0.0 {
-                let (_, tau1, tau2) = root2real(b, c);
-                push_solution(tau1, w0, w1);
-                push_solution(tau2, w0, w1);
+            // The plane that contains the depths.
+            let plane = eig_vectors.column(0) - eig_vectors.column(1) * ratio;
+            let u = plane.cross(&Vec3::ith(plane.iamin(), 1.0)).normalize();
+            let v = plane.cross(&u).normalize();
+            // Use the conic with the most influence within the plane.
+            let [a, b, c]: [f64; 3] = conics
+                .iter()
+                .map(|conic| {
+                    Vec3::new(
+                        u.dot(&(conic * u)),
+                        2.0 * u.dot(&(conic * v)),
+                        v.dot(&(conic * v)),
+                    )
+                })
+                .fold(Vec3::zeros(), longest)
+                .into();
+            let discriminant = b * b - 4.0 * a * c;
+            if discriminant < 0.0 {
+                return;
+            }
+            let w = -0.5 * (b + b.signum() * discriminant.sqrt());
+            for direction in [u * w + v * a, u * c + v * w] {
+                let scale = direction.dot(&((m12 + m13 + m23) * direction));
+                let lambda =
+                    direction * (direction.sum().signum() * ((a12 + a13 + a23) / scale).sqrt());
+                if lambda.min() >= 0.0 {
+                    lambdas.push(lambda);
+                }
             }
         };
 
@@ -437,6 +439,15 @@ fn l1_norm(v: Vec3) -> f64 {
     v.x.abs() + v.y.abs() + v.z.abs()
 }
 
+/// Returns the longer of two vectors.
+fn longest(a: Vec3, b: Vec3) -> Vec3 {
+    if b.norm_squared() > a.norm_squared() {
+        b
+    } else {
+        a
+    }
+}
+
 /// Compute the real roots of "h(r) = r^2 + b*r + c = 0".
 /// `let (roots_are_real, r1, r2) = root2real(b, c);`
 fn root2real(b: f64, c: f64) -> (bool, f64, f64) {
@@ -536,9 +547,9 @@ fn eigen_decomposition_singular(x: Mat3) -> (Mat3, Vec3) {
     );
     v3.normalize_mut();
 
-    let x12_sqr = x.m12 * x.m12;
     let b = -x.m11 - x.m22 - x.m33;
-    let c = -x12_sqr - x.m13 * x.m13 - x.m23 * x.m23 + x.m11 * (x.m22 + x.m33) + x.m22 * x.m33;
+    let c =
+        -x.m12 * x.m12 - x.m13 * x.m13 - x.m23 * x.m23 + x.m11 * (x.m22 + x.m33) + x.m22 * x.m33;
     let (_, mut e1, mut e2) = root2real(b, c);
     if e1.abs() < e2.abs() {
         core::mem::swap(&mut e1, &mut e2);
@@ -546,18 +557,19 @@ fn eigen_decomposition_singular(x: Mat3) -> (Mat3, Vec3) {
     eigenvalues[0] = e1;
     eigenvalues[1] = e2;
 
-    let mx0011 = -x.m11 * x.m22;
-    let prec_0 = x.m12 * x.m23 - x.m13 * x.m22;
-    let prec_1 = x.m12 * x.m13 - x.m11 * x.m23;
-
     let compute_eigen_vector = |e: f64| {
-        let tmp = 1.0 / (e * (x.m11 + x.m22) + mx0011 - e * e + x12_sqr);
-        let mut a1 = -(e * x.m13 + prec_0) * tmp;
-        let mut a2 = -(e * x.m23 + prec_1) * tmp;
-        let rnorm = 1.0 / (a1 * a1 + a2 * a2 + 1.0).sqrt();
-        a1 *= rnorm;
-        a2 *= rnorm;
-        Vec3::new(a1, a2, rnorm)
+        // The rows are orthogonal to the eigenvector.
+        let y = (x - Mat3::from_diagonal_element(e)).transpose();
+        let crosses = [
+            y.column(0).cross(&y.column(1)),
+            y.column(1).cross(&y.column(2)),
+            y.column(2).cross(&y.column(0)),
+        ];
+        crosses
+            .iter()
+            .copied()
+            .fold(Vec3::zeros(), longest)
+            .normalize()
     };
     let v1 = compute_eigen_vector(e1);
     let v2 = compute_eigen_vector(e2);
-- 
2.43.0


From 6662d160fb7cee49bad48ff2482293198dbfc96c Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 21/34] fix: P3P rejects depths that only roughly solve its
 equations

---
 lambda-twist/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 10eb41a..ed0984c 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -298,7 +298,7 @@ impl LambdaTwist {
                 let r1 = l.x * l.x + l.y * l.y + b12 * l.x * l.y - a12;
                 let r2 = l.x * l.x + l.z * l.z + b13 * l.x * l.z - a13;
                 let r3 = l.y * l.y + l.z * l.z + b23 * l.y * l.z - a23;
-                l.min() >= 0.0 && l1_norm(Vec3::new(r1, r2, r3)) < 1e-3 * (a12 + a13 + a23)
+                l.min() >= 0.0 && l1_norm(Vec3::new(r1, r2, r3)) < 1e-6 * (a12 + a13 + a23)
             })
             .map(|lambda_refined| {
                 let ry1 = lambda_refined[0] * *bearings[0];
-- 
2.43.0


From 9ad87e8011d8e3d4ec62ece121a54383124d4bfa Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 22/34] fix: single view L1 optimizer returned NaN when every
 landmark is at infinity

---
 cv-optimize/src/single_view_optimizer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..b524bc4 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -39,6 +39,12 @@ pub fn single_view_simple_optimize_l1(
             }
         }
 
+        // If every landmark is at infinity there is no gradient, and the reciprocals below
+        // would turn the pose into NaN.
+        if ts == 0.0 || rs == 0.0 {
+            return pose;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From e6a0e4de323dd0e7da0b52d140bb3c9dcf381c91 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 23/34] fix: essential matrix decompositions panicked when the
 SVD didn't converge

---
 cv-pinhole/src/essential.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cv-pinhole/src/essential.rs b/cv-pinhole/src/essential.rs
index e05e16c..a48db4f 100644
--- a/cv-pinhole/src/essential.rs
+++ b/cv-pinhole/src/essential.rs
@@ -1,11 +1,21 @@
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, UnitVector3, Vector3, SVD},
+    nalgebra::{Matrix3, Rotation3, UnitVector3, Vector3, SVD, U3},
     sample_consensus::Model,
     CameraToCamera, FeatureMatch, Pose,
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
 use num_traits::Float;
 
+/// Performs SVD, returning `None` if it doesn't converge.
+///
+/// The SVD of `nalgebra` for this size returns an invalid decomposition rather than `None` when the
+/// eigen decomposition it is computed with doesn't converge, so that must be checked first.
+fn try_svd3(mat: Matrix3<f64>, epsilon: f64, max_iterations: usize) -> Option<SVD<f64, U3, U3>> {
+    mat.tr_mul(&mat)
+        .try_symmetric_eigen(epsilon, max_iterations)?;
+    SVD::try_new(mat, true, true, epsilon, max_iterations)
+}
+
 /// This stores an essential matrix, which is satisfied by the following constraint:
 ///
 /// transpose(x') * E * x = 0
@@ -62,7 +72,7 @@ impl EssentialMatrix {
     /// that the two singular values are averaged and the null singular value is
     /// forced to zero.
     pub fn recondition(self, epsilon: f64, max_iterations: usize) -> Option<Self> {
-        let mut svd = self.try_svd(true, true, epsilon, max_iterations)?;
+        let mut svd = try_svd3(self.0, epsilon, max_iterations)?;
         // Now that the singular values are sorted, find the closest
         // essential matrix to E in frobenius form.
         // This consists of averaging the two non-zero singular values
@@ -125,7 +135,7 @@ impl EssentialMatrix {
         let wt = w.transpose();
 
         // Perform SVD.
-        let svd = SVD::try_new(essential, true, true, epsilon, max_iterations);
+        let svd = try_svd3(essential, epsilon, max_iterations);
         // Extract only the U and V matrix from the SVD.
         let u_v_t = svd.map(|svd| {
             (
-- 
2.43.0


From 9686637eba46d0ba7787052e4a0cc5ee7fb682b5 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 24/34] fix: akaze scale space with a single diffusion step
 between levels

---
 akaze/src/fed_tau.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/fed_tau.rs b/akaze/src/fed_tau.rs
index 9cdfe58..56ef46f 100644
--- a/akaze/src/fed_tau.rs
+++ b/akaze/src/fed_tau.rs
@@ -70,7 +70,8 @@ fn fed_tau_internal(n: usize, scale: f64, tau_max: f64, reordering: bool) -> Vec
         // Permute list of time steps according to chosen reordering function
         // Choose kappa cycle with k = n/2
         // This is a heuristic. We can use Leja ordering instead!
-        let kappa = n / 2;
+        // (A single step has nothing to be permuted with.)
+        let kappa = (n / 2).max(1);
         let mut prime = n + 1;
         while !primal::is_prime(prime as u64) {
             prime += 1;
-- 
2.43.0


From 0db6c31f4c7d9804bd53fc5a2c9e6b83b1875713 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 25/34] fix: akaze finds no features in an image too small for
 its scale space

---
 akaze/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/akaze/src/lib.rs b/akaze/src/lib.rs
index 6456554..02f526f 100644
--- a/akaze/src/lib.rs
+++ b/akaze/src/lib.rs
@@ -195,6 +195,10 @@ impl Akaze {
         evolutions: &mut Vec<EvolutionStep>,
         image: &GrayFloatImage,
     ) {
+        if evolutions.is_empty() {
+            debug!("The image is too small to detect features at any scale.");
+            return;
+        }
         trace!("Creating first evolution.");
         evolutions[0].Lt = gaussian_blur(image, self.base_scale_offset as f32);
         trace!("Gaussian blur finished.");
-- 
2.43.0


From 2110943cf8978332fc3a341f69f675515bb2d038 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 26/34] fix: akaze derivatives at scale 1 are normalised as at
 every other scale

---
 akaze/src/derivatives.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/akaze/src/derivatives.rs b/akaze/src/derivatives.rs
index 16ad052..996a595 100644
--- a/akaze/src/derivatives.rs
+++ b/akaze/src/derivatives.rs
@@ -21,9 +21,6 @@ pub fn simple_scharr_vertical(image: &GrayFloatImage) -> GrayFloatImage {
 /// # Return value
 /// Output image derivative (an image.)
 pub fn scharr_horizontal(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatImage {
-    if sigma_size == 1 {
-        return simple_scharr_horizontal(image);
-    }
     let main_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Main);
     let off_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Off);
     GrayFloatImage(separable_filter(&image.0, &main_kernel, &off_kernel))
@@ -40,9 +37,6 @@ pub fn scharr_horizontal(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatIm
 /// # Return value
 /// Output image derivative (an image.)
 pub fn scharr_vertical(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatImage {
-    if sigma_size == 1 {
-        return simple_scharr_vertical(image);
-    }
     let main_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Main);
     let off_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Off);
     GrayFloatImage(separable_filter(&image.0, &off_kernel, &main_kernel))
-- 
2.43.0


From de128aa4d815ba9489e940380b155e8505248599 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 27/34] hook: akaze scale space readable by monitors under
 cfg(cv_monitor)

---
 akaze/src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/akaze/src/lib.rs b/akaze/src/lib.rs
index 02f526f..d82530c 100644
--- a/akaze/src/lib.rs
+++ b/akaze/src/lib.rs
@@ -369,3 +369,20 @@ impl Akaze {
         Ok(self.extract(&::image::open(path)?))
     }
 }
+
+/// Read access to the scale space, for runtime monitors (`--cfg cv_monitor`).
+#[cfg(cv_monitor)]
+pub mod monitor {
+    pub use crate::evolution::EvolutionStep;
+    use crate::{image::GrayFloatImage, Akaze};
+
+    impl Akaze {
+        /// Builds the nonlinear scale space of an image as
+        /// [`Akaze::extract_from_gray_float_image`] does.
+        pub fn monitor_scale_space(&self, image: &GrayFloatImage) -> Vec<EvolutionStep> {
+            let mut evolutions = self.allocate_evolutions(image.0.width(), image.0.height());
+            self.create_nonlinear_scale_space(&mut evolutions, image);
+            evolutions
+        }
+    }
+}
-- 
2.43.0


From 91eb2c985949f2fa44923140ae27f1c69f667da3 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 28/34] cv-sfm: monitor access to the operations of the map
 (cfg cv_monitor)

---
 cv-sfm/src/lib.rs | 144 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 144 insertions(+)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a6c81f2..c3b14d2 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -3154,3 +3154,147 @@ fn landmark_avec(landmark: LandmarkKey) -> ArrayVec<LandmarkKey, 2> {
     a.push(landmark);
     a
 }
+
+/// Access for monitors outside of this crate to the operations which maintain the map.
+#[cfg(cv_monitor)]
+#[doc(hidden)]
+pub mod monitor {
+    use super::*;
+
+    type Iso = IsometryMatrix3<f64>;
+    type Matches = Option<ArrayVec<LandmarkKey, 2>>;
+    type Similar = (HashMap<ReconstructionKey, Vec<ViewKey>>, Vec<FrameKey>);
+
+    impl VSlamData {
+        pub fn monitor_frames(&self) -> Vec<FrameKey> {
+            self.frames.keys().collect()
+        }
+
+        pub fn monitor_feeds(&self) -> Vec<(FeedKey, Vec<FrameKey>)> {
+            let feeds = self.feeds.iter();
+            feeds.map(|(k, f)| (k, f.frames.clone())).collect()
+        }
+
+        pub fn monitor_reconstruction_mut(
+            &mut self,
+            key: ReconstructionKey,
+        ) -> &mut Reconstruction {
+            &mut self.reconstructions[key]
+        }
+
+        pub fn monitor_new_reconstruction(&mut self) -> ReconstructionKey {
+            self.reconstructions.insert(Reconstruction::default())
+        }
+
+        pub fn monitor_add_frame(
+            &mut self,
+            feed: FeedKey,
+            features: Vec<(BitArray<64>, Feature)>,
+        ) -> FrameKey {
+            self.add_frame(feed, features)
+        }
+
+        pub fn monitor_add_view(
+            &mut self,
+            reconstruction: ReconstructionKey,
+            frame: FrameKey,
+            pose: WorldToCamera,
+            existing_landmark: impl Fn(usize) -> Matches,
+        ) -> ViewKey {
+            self.add_view(reconstruction, frame, pose, existing_landmark)
+        }
+
+        pub fn monitor_remove_view(&mut self, reconstruction: ReconstructionKey, view: ViewKey) {
+            self.remove_view(reconstruction, view)
+        }
+
+        pub fn monitor_remove_reconstruction(&mut self, reconstruction: ReconstructionKey) {
+            self.remove_reconstruction(reconstruction)
+        }
+
+        pub fn monitor_split_observation(
+            &mut self,
+            reconstruction: ReconstructionKey,
+            view: ViewKey,
+            feature: usize,
+        ) -> bool {
+            self.split_observation(reconstruction, view, feature)
+        }
+
+        pub fn monitor_similar_and_recent(
+            &self,
+            frame: FrameKey,
+            similar: usize,
+            recent: usize,
+            similar_recent_threshold: usize,
+            search: usize,
+        ) -> Similar {
+            self.find_visually_similar_and_recent_frames(
+                frame,
+                similar,
+                recent,
+                similar_recent_threshold,
+                search,
+            )
+        }
+    }
+
+    impl ThreeViewConstraint {
+        pub fn monitor_new(views: [ViewKey; 3], poses: [Iso; 2]) -> Self {
+            Self { views, poses }
+        }
+
+        pub fn monitor_parts(&self) -> ([ViewKey; 3], [Iso; 2]) {
+            (self.views, self.poses)
+        }
+
+        pub fn monitor_edges(&self) -> Vec<(ViewKey, (ViewKey, Iso))> {
+            self.edge_constraints().collect()
+        }
+    }
+
+    impl<C1, C2, PE, EE, T, R> VSlam<C1, C2, PE, EE, T, R>
+    where
+        C1: Consensus<PE, FeatureWorldMatch>,
+        C2: Consensus<EE, FeatureMatch>,
+        PE: Estimator<FeatureWorldMatch, Model = WorldToCamera>,
+        EE: Estimator<FeatureMatch, Model = CameraToCamera>,
+        T: TriangulatorObservations + Clone,
+        R: Rng,
+    {
+        /// As `add_frame`, with the features already extracted.
+        pub fn monitor_track(
+            &mut self,
+            feed: FeedKey,
+            features: Vec<(BitArray<64>, Feature)>,
+        ) -> (FrameKey, Option<(ReconstructionKey, ViewKey)>) {
+            let frame = self.data.add_frame(feed, features);
+            let (reconstruction_frames, free_frames) =
+                self.data.find_visually_similar_and_recent_frames(
+                    frame,
+                    self.settings.tracking_similar_frames,
+                    self.settings.tracking_recent_frames,
+                    self.settings.tracking_similar_frame_recent_threshold,
+                    self.settings.tracking_similar_frame_search_num,
+                );
+            let view = self.try_localize(frame, reconstruction_frames, free_frames);
+            (frame, view)
+        }
+
+        pub fn monitor_features(
+            &self,
+            feed: FeedKey,
+            image: &DynamicImage,
+        ) -> Vec<(BitArray<64>, Feature)> {
+            self.kps_descriptors(&self.data.feeds[feed].intrinsics, image)
+        }
+    }
+
+    pub fn symmetric_matching(a: &Frame, b: &Frame, better_by: u32) -> Vec<[usize; 2]> {
+        super::symmetric_matching(a, b, better_by)
+    }
+
+    pub fn interpolate_bicubic(image: &image::RgbImage, x: f32, y: f32) -> [u8; 3] {
+        super::bicubic::interpolate_bicubic(image, x, y, image::Rgb([0, 0, 0])).0
+    }
+}
-- 
2.43.0


From 68e059d0363810fab026936d22b6158412b5ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 29/34] fix: cv-sfm: constraints of removed views are not
 applied any more

apply_constraints flattened the constraints once and kept using them after
views had been removed, which panicked on the keys of the removed views.
---
 cv-sfm/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index c3b14d2..a17e7bb 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2360,12 +2360,17 @@ where
         reconstruction: ReconstructionKey,
     ) -> Option<ReconstructionKey> {
         info!("optimizing reconstruction with three-view constraints");
-        let constraints = self.flatten_constraints(reconstruction);
+        let mut constraints = self.flatten_constraints(reconstruction);
         for _ in 0..self.settings.optimization_iterations {
             if let Some(bundle_adjust) =
                 self.compute_momentum_bundle_adjust(reconstruction, &constraints)
             {
+                let views_removed = !bundle_adjust.removed_views.is_empty();
                 self.data.apply_bundle_adjust(bundle_adjust);
+                if views_removed {
+                    // Removing a view also removes its constraints.
+                    constraints = self.flatten_constraints(reconstruction);
+                }
             } else {
                 self.data.remove_reconstruction(reconstruction);
                 return None;
-- 
2.43.0


From a257b6e7d864cb1f6fec79f7095fcbc5bafdd70a Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 30/34] fix: cv-sfm: reject three-view constraints without a
 scale

Cameras which stand still have a final scale of zero, which gave constraints
which are not finite; applying those removed views or the whole reconstruction.
---
 cv-sfm/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a17e7bb..e4ab822 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2047,6 +2047,12 @@ where
 
         let relative_scale = original_scale / final_scale;
 
+        // If the views are all in the same place, there is no scale to restore.
+        if !relative_scale.is_normal() {
+            info!("three-view constraint has no scale; rejecting optimization");
+            return None;
+        }
+
         // Scale the poses back to their original scale.
         first_pose = first_pose.scale(relative_scale);
         second_pose = second_pose.scale(relative_scale);
-- 
2.43.0


From 17aec275863e83af2138614976ab268f4c01242b Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 31/34] fix: cv-sfm: a narrow option does not end the search
 for a third view

init_reconstruction rejected a three-view match with too few robust bearing
pairs by returning, so that the remaining options were never tried.
---
 cv-sfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index e4ab822..89cbbb0 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -1102,7 +1102,7 @@ where
                     "could not find {} robust bearing pairs; rejecting three-view match",
                     self.settings.robust_view_num_robust_bearing_pair
                 );
-                return None;
+                continue;
             }
 
             // If we have more than half of the initial matches, the estimation is robust.
-- 
2.43.0


From 2274474aa5aef52aeb204d2e7d12d830734eea91 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 32/34] fix: cv-sfm: bring reconstructions to the same scale
 before merging them

try_merge_reconstructions joined two reconstructions by a rigid transformation,
although each has a scale of its own.
---
 cv-sfm/src/lib.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index 89cbbb0..b5a6195 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2139,6 +2139,30 @@ where
             .register_frame(dest_reconstruction, frame, dest_view_matches)
             .or_else(opeek(|| info!("failed to register frame")))?;
 
+        // Each reconstruction has its own scale. Use the median ratio of the distances from the
+        // frame to the landmarks which are in both reconstructions to find the relative scale.
+        let mut scales = matches
+            .iter()
+            .filter_map(|(&src_feature, dest_landmarks)| {
+                let src_landmark =
+                    self.data
+                        .observation_landmark(src_reconstruction, src_view, src_feature);
+                let src_point =
+                    self.triangulate_landmark_robust(src_reconstruction, src_landmark)?;
+                let dest_point =
+                    self.triangulate_landmark_robust(dest_reconstruction, dest_landmarks[0])?;
+                let src_distance = src_pose.transform(src_point).point()?.coords.norm();
+                let dest_distance = dest_pose.transform(dest_point).point()?.coords.norm();
+                Some(dest_distance / src_distance).filter(|scale| scale.is_normal())
+            })
+            .collect_vec();
+        if scales.is_empty() {
+            info!("failed to find the relative scale of the reconstructions; rejecting reconstruction match");
+            return None;
+        }
+        scales.sort_unstable_by_key(|&scale| FloatOrd(scale));
+        let scale = scales[scales.len() / 2];
+
         // Add the view to the dest reconstruction.
         let dest_view = self
             .data
@@ -2183,6 +2207,15 @@ where
             .views
             .remove(src_view);
 
+        // Bring the source reconstruction to the scale of the destination reconstruction.
+        for view in self.data.reconstructions[src_reconstruction]
+            .views
+            .values_mut()
+        {
+            view.pose.0.translation.vector *= scale;
+        }
+        let src_pose = src_pose.scale(scale);
+
         // Create the transformation from the source to the destination reconstruction.
         let world_transform = WorldToWorld::from_camera_poses(src_pose, dest_pose);
 
-- 
2.43.0


From c6400c9e52001ab8eae4c0c8c7ff94b360714550 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:58:48 +0000
Subject: [PATCH 33/34] fix: akaze: gradients along the x axis count for the
 direction

A gradient which points exactly along the x axis has the angle zero, which
was in none of the windows, so a key point with such gradients got another
direction than the same key point in the picture turned around.
---
 akaze/src/scale_space_extrema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/akaze/src/scale_space_extrema.rs b/akaze/src/scale_space_extrema.rs
index 1a4bf01..b47450b 100644
--- a/akaze/src/scale_space_extrema.rs
+++ b/akaze/src/scale_space_extrema.rs
@@ -269,7 +269,7 @@ fn compute_main_orientation(keypoint: &mut KeyPoint, evolutions: &[EvolutionStep
         for k in 0..109 {
             let ang = angs[k];
             if (ang1 < ang2 && ang1 < ang && ang < ang2)
-                || (ang2 < ang1 && ((ang > 0f32 && ang < ang2) || (ang > ang1 && ang < 2.0 * PI)))
+                || (ang2 < ang1 && (ang < ang2 || ang > ang1))
             {
                 sum_x += res_x[k];
                 sum_y += res_y[k];
-- 
2.43.0


From aec240322f18da34a3239b883a8390d9af4a6006 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 05:01:06 +0000
Subject: [PATCH 34/34] fix: akaze: the contrast factor of a flat picture is
 not zero

Without gradients (or with a tiny percentile) no gradient had to be below
the contrast factor, which made it zero and the scale space NaN.
---
 akaze/src/contrast_factor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/contrast_factor.rs b/akaze/src/contrast_factor.rs
index db1a225..45067a1 100644
--- a/akaze/src/contrast_factor.rs
+++ b/akaze/src/contrast_factor.rs
@@ -45,7 +45,8 @@ pub fn compute_contrast_factor(
             }
         }
     }
-    let threshold: usize = (num_points * percentile) as usize;
+    // At least one gradient is needed, as a contrast factor of zero diffuses to NaN.
+    let threshold: usize = ((num_points * percentile) as usize).max(1);
     let mut k: usize = 0;
     let mut num_elements: usize = 0;
     while num_elements < threshold && k < num_bins {
-- 
2.43.0

