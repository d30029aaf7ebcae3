From 415319a832aaaf44f09f629742ffaae505d86703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/26] fix: check triangulation chirality from each camera's
 optical center

The direction from the world origin to the point was compared with each
bearing, instead of the direction from the observing camera. Points behind a
camera were accepted and points in front of every camera were rejected.
---
 cv-geom/src/triangulation.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..375a5ab 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -121,8 +121,7 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
+                    let point = pose.transform(*point);
                     bearing.dot(&point.bearing()).is_sign_positive()
                 })
             })
@@ -354,9 +353,10 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 point.bearing().dot(&a).is_sign_positive()
-                    && point
+                    && relative_pose
+                        .transform(*point)
                         .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
+                        .dot(&b)
                         .is_sign_positive()
             })
     }
@@ -433,8 +433,7 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         .filter(|point| {
             // Ensure the cheirality constraint.
             pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
+                let point = pose.transform(*point);
                 bearing.dot(&point.bearing()).is_sign_positive()
             })
         })
@@ -524,7 +523,12 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            point.bearing().dot(&b).is_sign_positive()
+                && original_relative_pose
+                    .transform(*point)
+                    .bearing()
+                    .dot(&(original_relative_pose.isometry() * a))
+                    .is_sign_positive()
         })
     }
 }
@@ -600,7 +604,12 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            point.bearing().dot(&b).is_sign_positive()
+                && original_relative_pose
+                    .transform(*point)
+                    .bearing()
+                    .dot(&(original_relative_pose.isometry() * a))
+                    .is_sign_positive()
         })
     }
 }
-- 
2.43.0


From c1f58630980d8e9a8f3ffdda38dc6ee41dad4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 02/26] fix: read the five-point solution from the x, y, z and
 1 rows of the eigenvector

The action matrix is expressed in the basis (x^2, xy, y^2, xz, yz, z^2, x, y,
z, 1), so the null space coefficients are rows 6 to 9. Rows 5 to 8 were read,
so that no returned essential matrix was ever a solution.
---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From 18c0af131672b05c567d6844cee3c74e13631f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 03/26] fix: pair the triangulation eigenvector with its own
 eigenvalue

---
 cv-geom/src/triangulation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 375a5ab..afe6140 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -107,12 +107,13 @@ impl TriangulatorObservations for LinearEigenTriangulator {
 
         let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the smallest eigenvalue, which is the null space homogeneous vector.
+        // The eigenvalue is computed from the eigenvector because the eigenvalues of the solver are not
+        // always in the same order as its eigenvectors.
+        se.eigenvectors
+            .column_iter()
+            .map(|v| v.into_owned())
+            .min_by_key(|v| float_ord::FloatOrd(v.dot(&(a * v))))
             .map(WorldPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 238a87b063ee4136b4c4199d8fc61ec90f860eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 04/26] fix: pair the relative pose residual eigenvector with
 its own eigenvalue

---
 cv-core/src/pose.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..52cfb05 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -275,12 +275,13 @@ impl Model<FeatureMatch> for CameraToCamera {
             return 2.0;
         };
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| n.abs().to_bits())
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the smallest eigenvalue, which is the null space homogeneous vector.
+        // The eigenvalue is computed from the eigenvector because the eigenvalues of the solver are not
+        // always in the same order as its eigenvectors.
+        se.eigenvectors
+            .column_iter()
+            .map(|v| v.into_owned())
+            .min_by_key(|v| v.dot(&(design * v)).abs().to_bits())
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 99018a4952b0d9094577db57b520023c106fc36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 05/26] fix: recheck chirality of the refined point in
 SineL1Triangulator

---
 cv-geom/src/triangulation.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index afe6140..f32dc10 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -228,7 +228,7 @@ impl Default for SineL1Triangulator {
 impl TriangulatorObservations for SineL1Triangulator {
     fn triangulate_observations(
         &self,
-        pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
+        mut pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
     ) -> Option<WorldPoint> {
         let epsilon_squared = self.epsilon * self.epsilon;
         // Create the initial guess using a fast method.
@@ -271,7 +271,18 @@ impl TriangulatorObservations for SineL1Triangulator {
             }
         }
 
-        Some(Projective::from_point(point))
+        Some(WorldPoint::from_point(point))
+            .filter(|point| {
+                // Ensure the point contains no NaN or infinity.
+                point.homogeneous().iter().all(|n| n.is_finite())
+            })
+            .filter(|point| {
+                // Ensure the cheirality constraint, since refinement can move the point behind a camera.
+                pairs.all(|(pose, bearing)| {
+                    let point = pose.transform(*point);
+                    bearing.dot(&point.bearing()).is_sign_positive()
+                })
+            })
     }
 }
 
-- 
2.43.0


From fffe5ec6af34144b4cd3c4ea6ae2d3c95f6c855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 06/26] fix: take the eight-point null vector from the SVD of
 the epipolar equations

---
 eight-point/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index fdea941..7a22cd4 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -2,14 +2,16 @@
 
 use arrayvec::ArrayVec;
 use cv_core::{
-    nalgebra::{self, Matrix3, OMatrix, OVector, U8, U9},
+    nalgebra::{self, Matrix3, OMatrix, OVector, SVD, U9},
     sample_consensus::Estimator,
     CameraToCamera, FeatureMatch,
 };
 use cv_pinhole::EssentialMatrix;
 
-fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMatrix<f64, U8, U9> {
-    let mut out: OMatrix<f64, U8, U9> = nalgebra::zero();
+/// The last row is left as zero so that the matrix is square, which makes its full right singular
+/// basis (including the null space) available.
+fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMatrix<f64, U9, U9> {
+    let mut out: OMatrix<f64, U9, U9> = nalgebra::zero();
     for (i, FeatureMatch(a, b)) in (0..8).zip(matches) {
         let mut row = OVector::<f64, U9>::zeros();
         let ap = a.into_inner() / a.z;
@@ -45,15 +47,16 @@ impl EightPoint {
         I: Iterator<Item = FeatureMatch> + Clone,
     {
         let epipolar_constraint = encode_epipolar_equation(data);
-        let eet = epipolar_constraint.transpose() * epipolar_constraint;
-        let eigens = eet.try_symmetric_eigen(self.epsilon, self.iterations)?;
-        let eigenvector = eigens
-            .eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| eigens.eigenvectors.column(ix).into_owned())?;
-        let mat = Matrix3::from_iterator(eigenvector.iter().copied());
+        // Singular values are sorted, so the null vector is the last right singular vector.
+        let v_t = SVD::try_new(
+            epipolar_constraint,
+            false,
+            true,
+            self.epsilon,
+            self.iterations,
+        )?
+        .v_t?;
+        let mat = Matrix3::from_iterator(v_t.row(8).iter().copied());
         Some(EssentialMatrix(mat))
     }
 }
-- 
2.43.0


From 9055cf8b80c843079f4e1f29720a0e7b4362c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 07/26] fix: keep the axis of half-turn rotations in the so(3)
 log map

---
 cv-core/src/so3.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..99d2b46 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -263,13 +265,8 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
-        // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
-        let skew3 = if skew3.iter().any(|n| n.is_nan()) {
-            Vector3::zeros()
-        } else {
-            skew3
-        };
-        Self(skew3)
+        // The scaled axis of the rotation matrix itself is lost when the angle is near zero or half a turn,
+        // while the scaled axis of the quaternion is accurate at any angle.
+        Self(UnitQuaternion::from_rotation_matrix(&r).scaled_axis())
     }
 }
-- 
2.43.0


From e2e11caf3472a2fe2dc16f12f29d681364c9f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 08/26] fix: uncalibrate K1 distortion at the principal point
 and without distortion

---
 cv-pinhole/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..16e59c1 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -226,10 +226,12 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
-        let distorted = undistorted * (1.0 + r2_mul_k1);
+        let discriminant = 1.0 - 4.0 * self.k1 * u2;
+        // If this is negative, there is no image point with this bearing.
+        (discriminant >= 0.0).then_some(())?;
+        // This is actually 1 + r^2 * k1, in a form that is well defined when k1 or u^2 is zero.
+        let one_plus_r2_mul_k1 = 2.0 / (1.0 + Float::sqrt(discriminant));
+        let distorted = undistorted * one_plus_r2_mul_k1;
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
             + self.simple_intrinsics.skew * distorted.y;
-- 
2.43.0


From f633336abaa9ccea2602c218213b76ca08759af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 09/26] fix: center the principal point in pixels in
 intrinsics_centered

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 16e59c1..bb39cac 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -281,7 +281,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From 298a85187c061a09bfd086c5b0d0af1564b9c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 10/26] fix: do not turn the pose into NaN when every landmark
 is at infinity

---
 cv-optimize/src/single_view_optimizer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..155e220 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -31,14 +31,21 @@ pub fn single_view_simple_optimize_l1(
         let mut l1sum = Se3TangentSpace::identity();
         let mut ts = 0.0;
         let mut rs = 0.0;
+        let mut constraints = 0;
         for &landmark in landmarks {
             if let Some(tangent) = landmark_delta(pose, landmark) {
+                constraints += 1;
                 ts += (tangent.translation.norm() + tscale * epsilon).recip();
                 rs += (tangent.rotation.norm() + epsilon).recip();
                 l1sum += tangent.l1();
             }
         }
 
+        if constraints == 0 {
+            // Every landmark is at infinity, so there is nothing to optimize with.
+            return pose;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From 1e714f17910bb3a1fa2a6d2195547edb07fdd1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 11/26] fix: pick the direct linear transform singular vector
 by its own residual

---
 cv-geom/src/triangulation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index f32dc10..6db965b 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -356,7 +356,13 @@ impl TriangulatorRelative for RelativeDltTriangulator {
 
         // Extract the null-space vector from V* corresponding to the smallest
         // singular value, which is the homogeneous coordiate of the output.
-        Some(svd.v_t.unwrap().row(3).transpose())
+        // The singular value is computed from the singular vector because the singular values of the solver
+        // are not always correct.
+        svd.v_t
+            .unwrap()
+            .row_iter()
+            .map(|v| v.transpose())
+            .min_by_key(|v| float_ord::FloatOrd((design * v).norm_squared()))
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 82838e115d279976ac3c5d1965fc7995974c0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 12/26] fix: return no five-point pose for a degenerate sample
 instead of looping forever

---
 nister-stewenius/src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..bf6cba1 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -219,9 +219,12 @@ fn compute_eigenvector(m: &Square10, lambda: f64) -> Option<OVector<f64, U10>> {
 fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
-) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
+    // The decomposition must be bounded because it doesn't terminate on a degenerate problem.
+    let eigenvalues = at
+        .try_schur(f64::EPSILON, EIGEN_ITERATIONS)?
+        .complex_eigenvalues();
+    let essentials = (0..eigenvalues.len())
         .filter_map(move |i| {
             let e = eigenvalues[i];
             if e.im == 0.0 {
@@ -233,32 +236,25 @@ fn essentials_from_action_ebasis(
             }
         })
         .map(move |vector| Matrix3::from_iterator((eb * vector).iter().copied()))
-        .map(EssentialMatrix)
+        .map(EssentialMatrix);
+    Some(essentials)
 }
 
 /// Takes in two sets of normalized key points.
-/// Returns all essential matrix solutions.
+/// Returns all essential matrix solutions, or `None` if the points are degenerate.
 fn five_points_relative_pose(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
-) -> impl Iterator<Item = EssentialMatrix> {
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
     // Step 1: Nullspace Extraction.
-    let e_basis = if let Some(m) = five_points_nullspace_basis(a, b) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let e_basis = five_points_nullspace_basis(a, b)?;
 
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
     // Step 3: Gauss-Jordan Elimination (done thanks to a LU decomposition).
     let c_lu = e_constraints.fixed_slice::<10, 10>(0, 0).full_piv_lu();
-    let m = if let Some(m) = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned()) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let m = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned())?;
 
     // For next steps we follow the matlab code given in Stewenius et al [1].
 
@@ -321,6 +317,8 @@ impl Estimator<FeatureMatch> for NisterStewenius {
         }
         assert!(count == 5);
         five_points_relative_pose(&a, &b)
+            .into_iter()
+            .flatten()
             .filter_map(|essential| {
                 essential.possible_unscaled_poses(self.epsilon, self.iterations)
             })
-- 
2.43.0


From 84dad680c0ce3541cc77b369cd30b8654c9cae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 13/26] fix: stop the P3P depth refinement before it turns into
 NaN

---
 lambda-twist/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..a8a95b6 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -399,13 +399,14 @@ fn gauss_newton_refine_lambda(
         );
         let lambda_new = Vec3::new(l1, l2, l3) - det * (jacobian * res);
         let (l1_new, l2_new, l3_new, res_new) = compute_residual(&lambda_new);
-        if l1_norm(res_new) > l1_norm(res) {
-            break;
-        } else {
+        // This must also stop on NaN, which a singular jacobian causes.
+        if l1_norm(res_new) <= l1_norm(res) {
             l1 = l1_new;
             l2 = l2_new;
             l3 = l3_new;
             res = res_new;
+        } else {
+            break;
         }
     }
     Vec3::new(l1, l2, l3)
-- 
2.43.0


From 66243978f5c0aec990eef371b0d7154d5c50a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 14/26] fix: return None when the essential matrix
 decomposition runs out of iterations

---
 cv-pinhole/src/essential.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cv-pinhole/src/essential.rs b/cv-pinhole/src/essential.rs
index e05e16c..33c9385 100644
--- a/cv-pinhole/src/essential.rs
+++ b/cv-pinhole/src/essential.rs
@@ -1,5 +1,5 @@
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, UnitVector3, Vector3, SVD},
+    nalgebra::{Matrix3, Rotation3, UnitVector3, Vector3, SVD, U3},
     sample_consensus::Model,
     CameraToCamera, FeatureMatch, Pose,
 };
@@ -56,13 +56,25 @@ use num_traits::Float;
 pub struct EssentialMatrix(pub Matrix3<f64>);
 
 impl EssentialMatrix {
+    /// Performs the sorted singular value decomposition.
+    ///
+    /// Returns `None` if it doesn't converge in `max_iterations`.
+    fn try_sorted_svd(&self, epsilon: f64, max_iterations: usize) -> Option<SVD<f64, U3, U3>> {
+        // The 3x3 SVD of nalgebra doesn't return `None` when it runs out of iterations, it returns an invalid
+        // decomposition instead. It iterates on this eigen decomposition, so check if this converges first.
+        self.0
+            .tr_mul(&self.0)
+            .try_symmetric_eigen(epsilon, max_iterations)?;
+        SVD::try_new(self.0, true, true, epsilon, max_iterations)
+    }
+
     /// Can be used to enforce the constraints of an essential matrix to fix it.
     ///
     /// This finds the closest essential matrix in frobenius form. This just means
     /// that the two singular values are averaged and the null singular value is
     /// forced to zero.
     pub fn recondition(self, epsilon: f64, max_iterations: usize) -> Option<Self> {
-        let mut svd = self.try_svd(true, true, epsilon, max_iterations)?;
+        let mut svd = self.try_sorted_svd(epsilon, max_iterations)?;
         // Now that the singular values are sorted, find the closest
         // essential matrix to E in frobenius form.
         // This consists of averaging the two non-zero singular values
@@ -116,16 +128,13 @@ impl EssentialMatrix {
         epsilon: f64,
         max_iterations: usize,
     ) -> Option<(Rotation3<f64>, Rotation3<f64>, Vector3<f64>)> {
-        let Self(essential) = *self;
-        let essential = essential;
-
         // `W` from https://en.wikipedia.org/wiki/Essential_matrix#Finding_one_solution.
         let w = Matrix3::new(0.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
         // Transpose of `W` from https://en.wikipedia.org/wiki/Essential_matrix#Finding_one_solution.
         let wt = w.transpose();
 
         // Perform SVD.
-        let svd = SVD::try_new(essential, true, true, epsilon, max_iterations);
+        let svd = self.try_sorted_svd(epsilon, max_iterations);
         // Extract only the U and V matrix from the SVD.
         let u_v_t = svd.map(|svd| {
             (
-- 
2.43.0


From af20ad0909cb60dc82d226b8e216f059a62ebae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 15/26] fix: Jacobians of poses and rotations had translations
 in the w row and the wrong sign

The Jacobian of a pose transformation with respect to its rotation held the
translation in the row of the w component, which the rotation doesn't affect,
and Skew3::jacobian_self returned the negative of the documented Jacobian.
---
 cv-core/src/pose.rs | 22 +++++++++-------------
 cv-core/src/so3.rs  |  2 +-
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 52cfb05..c25cafc 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -78,7 +78,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
     ) -> (Self::OutputPoint, Matrix4<f64>, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
         let jacobian_input = pose_jacobian_input(self);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (
             Projective::from_homogeneous(output),
             jacobian_input,
@@ -112,7 +112,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
         input: Self::InputPoint,
     ) -> (Self::OutputPoint, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (Projective::from_homogeneous(output), jacobian_self)
     }
 
@@ -145,21 +145,17 @@ fn pose_jacobian_input<P: Pose>(pose: P) -> Matrix4<f64> {
 }
 
 /// Retrieves the Jacobian relating the output to the pose in se(3)
-fn pose_jacobian_self<P: Pose>(
-    pose: P,
-    rotated: Vector4<f64>,
-    output: Vector4<f64>,
-) -> Matrix4x6<f64> {
-    // The translation homogeneous matrix
-    //
-    // This is also the jacobian of the output in respect to the rotation output.
-    let translation = pose.isometry().translation.to_homogeneous();
-
+fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<f64> {
     // dP/dT (Jacobian of output point in respect to translation component)
     let dp_dt = Matrix4::<f64>::identity() * output.w;
 
     // dP/ds (Jacobian of output point in respect to skew component)
-    let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    //
+    // The rotation doesn't affect the `w` component of the output and the translation doesn't affect this jacobian.
+    // It is transposed because its columns are used as rows below.
+    let dp_ds = Skew3::jacobian_self(rotated.xyz())
+        .transpose()
+        .to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 99d2b46..97c917b 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -243,7 +243,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From 8f8648b5ca316bb2dbe8c35714d64c27587ff5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 16/26] fix: bearings parallel to the image plane have no pixel

A bearing with a z of zero passed the check for bearings behind the camera and
was projected to an infinite or NaN pixel or reprojection error.
---
 cv-pinhole/src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index bb39cac..df2f768 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -132,7 +132,7 @@ impl CameraModel for CameraIntrinsics {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6);
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        (projection.z > 0.0).then_some(())?;
         let projection = projection.xy() / projection.z;
         let y = projection.y * self.focals.y;
         let x = projection.x * self.focals.x + self.skew * projection.y;
@@ -222,7 +222,7 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6, "{:?}", (kp.0 - ukp.0).norm());
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        (projection.z > 0.0).then_some(())?;
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
@@ -325,16 +325,10 @@ pub fn pose_reprojection_error(
         .triangulate_relative(pose, a, b)
         .and_then(|point_a| {
             let bearing_a = point_a.bearing();
-            let reproject_a = bearing_a
-                .z
-                .is_sign_positive()
-                .then(|| bearing_a.xy() / bearing_a.z)?;
+            let reproject_a = (bearing_a.z > 0.0).then(|| bearing_a.xy() / bearing_a.z)?;
             let point_b = pose.transform(point_a);
             let bearing_b = point_b.bearing();
-            let reproject_b = bearing_b
-                .z
-                .is_sign_positive()
-                .then(|| bearing_b.xy() / bearing_b.z)?;
+            let reproject_b = (bearing_b.z > 0.0).then(|| bearing_b.xy() / bearing_b.z)?;
             Some([a_norm - reproject_a, b_norm - reproject_b])
         })
 }
-- 
2.43.0


From a0e38d6e52d65d862cd0f16c38b93b3fab5044d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 17/26] fix: let the five-point estimator find translations and
 planar motions

---
 nister-stewenius/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index bf6cba1..45e8ec3 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,7 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
-        DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
+        DimName, Matrix3, Matrix4, OMatrix, OVector, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
 };
@@ -91,7 +91,18 @@ pub fn five_points_nullspace_basis(
             for (&ix, mut column) in sources.iter().zip(nullspace.column_iter_mut()) {
                 column.copy_from(&m.eigenvectors.column(ix));
             }
-            Some(nullspace)
+            // All but one of these eigenvectors vanish in the first entry of the essential matrix, so
+            // a motion whose essential matrix vanishes there (such as any translation or planar motion)
+            // may have no component along the last of them, which the solver requires. This mixes
+            // them so that no entry belongs to one basis vector alone.
+            #[rustfmt::skip]
+            let mix = Matrix4::new(
+                0.5,  0.5,  0.5,  0.5,
+                0.5, -0.5,  0.5, -0.5,
+                0.5,  0.5, -0.5, -0.5,
+                0.5, -0.5, -0.5,  0.5,
+            );
+            Some(nullspace * mix)
         })
 }
 
-- 
2.43.0


From 16ef2cf9bc6e7a8402a5d82e0248bbc56816e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 18/26] fix: let the three-point estimator find poses half a
 turn from the identity

---
 lambda-twist/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index a8a95b6..89a6586 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -309,7 +309,7 @@ impl LambdaTwist {
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        nearby_rotation(&rot),
                     ),
                 )
             })
@@ -346,6 +346,25 @@ impl Estimator<FeatureWorldMatch> for LambdaTwist {
     }
 }
 
+/// Finds the rotation out of the identity and the half turns around each axis which is closest to a matrix
+/// which is almost a rotation. It is at most a third of a turn away.
+///
+/// [`Rotation3::from_matrix_eps`] cannot leave a guess which is half a turn away from the solution, so
+/// starting it from a fixed rotation (such as the identity) fails for some solutions.
+fn nearby_rotation(rot: &Mat3) -> Rotation3<f64> {
+    let mut best = Vec3::new(1.0, 1.0, 1.0);
+    for half_turn in [
+        Vec3::new(1.0, -1.0, -1.0),
+        Vec3::new(-1.0, 1.0, -1.0),
+        Vec3::new(-1.0, -1.0, 1.0),
+    ] {
+        if rot.diagonal().dot(&half_turn) > rot.diagonal().dot(&best) {
+            best = half_turn;
+        }
+    }
+    Rotation3::from_matrix_unchecked(Mat3::from_diagonal(&best))
+}
+
 /// Refine a valid solution with a Gauss-Newton Solver.
 /// `refined_lambda = gauss_newton_refine_lambda(lambda, a12, a13, a23, b12, b13, b23);`
 /// lambda: Vec3, the solution to refine.
-- 
2.43.0


From 5eabf102401dcbc92865013a9497d0c1d2fc1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 19/26] fix: never return a pose with an overflown translation
 from three points

---
 lambda-twist/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 89a6586..1ddb0f0 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -302,6 +302,8 @@ impl LambdaTwist {
                 let rot = y_mat * x_mat;
                 (rot, ry1 - rot * wps[0].coords)
             })
+            // The depths of a degenerate sample may overflow.
+            .filter(|(rot, trans)| rot.iter().chain(trans.iter()).all(|n| n.is_finite()))
             .map(|(rot, trans)| {
                 WorldToCamera::from_parts(
                     trans,
-- 
2.43.0


From 16b63fa92bfc49c8dfb989e864c9122817ca942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 20/26] fix: give the worst residual to matches which have no
 angle

---
 cv-core/src/pose.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index c25cafc..fe62228 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -193,7 +193,13 @@ impl Model<FeatureWorldMatch> for WorldToCamera {
         let &FeatureWorldMatch(keypoint_bearing, world) = data;
 
         let observation_bearing = self.transform(world).bearing();
-        1.0 - keypoint_bearing.dot(&observation_bearing)
+        let residual = 1.0 - keypoint_bearing.dot(&observation_bearing);
+        // A landmark at the camera or a bearing containing NaN has no angle.
+        if residual.is_nan() {
+            2.0
+        } else {
+            residual
+        }
     }
 }
 
@@ -288,6 +294,8 @@ impl Model<FeatureMatch> for CameraToCamera {
                 0.5 * (1.0 - a.dot(&point.bearing()) + 1.0
                     - b.dot(&self.transform(point).bearing()))
             })
+            // The point may be exactly at one of the cameras, where it has no bearing.
+            .filter(|residual| !residual.is_nan())
             .unwrap_or(2.0)
     }
 }
-- 
2.43.0


From 4b4cc39d11804e9740a91fc5dd12d1b89b9ba761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:14 +0000
Subject: [PATCH 21/26] fix: akaze extracts no features from an image that is
 too small, instead of panicking

---
 akaze/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/akaze/src/lib.rs b/akaze/src/lib.rs
index 6456554..4fbe14f 100644
--- a/akaze/src/lib.rs
+++ b/akaze/src/lib.rs
@@ -315,6 +315,10 @@ impl Akaze {
         let mut evolutions =
             self.allocate_evolutions(float_image.0.width(), float_image.0.height());
         info!("Allocated evolutions in: {:?}", start.elapsed());
+        if evolutions.is_empty() {
+            // The image is too small to have any scale at which features can be detected.
+            return (vec![], vec![]);
+        }
         trace!("Creating non-linear space.");
         let start = Instant::now();
         self.create_nonlinear_scale_space(&mut evolutions, float_image);
-- 
2.43.0


From 4028aaf4a91fd5765b6e2140623f7493ba4c6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:14 +0000
Subject: [PATCH 22/26] fix: a diffusion cycle of one step does not loop
 forever when its steps are ordered

---
 akaze/src/fed_tau.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/fed_tau.rs b/akaze/src/fed_tau.rs
index 9cdfe58..54434b0 100644
--- a/akaze/src/fed_tau.rs
+++ b/akaze/src/fed_tau.rs
@@ -70,7 +70,8 @@ fn fed_tau_internal(n: usize, scale: f64, tau_max: f64, reordering: bool) -> Vec
         // Permute list of time steps according to chosen reordering function
         // Choose kappa cycle with k = n/2
         // This is a heuristic. We can use Leja ordering instead!
-        let kappa = n / 2;
+        // A cycle of a single step has only one order, and kappa must not be zero.
+        let kappa = (n / 2).max(1);
         let mut prime = n + 1;
         while !primal::is_prime(prime as u64) {
             prime += 1;
-- 
2.43.0


From 61720e92d2e21e5445c954ad250277ecf587a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 23/26] fix: bring reconstructions to one scale before merging
 them

The scale of every reconstruction is arbitrary, but try_merge_reconstructions moved the views of one
into the other by a rigid transformation. The merged views were placed at the wrong distances.
---
 cv-sfm/src/lib.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a6c81f2..577a8f3 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2133,6 +2133,31 @@ where
             .register_frame(dest_reconstruction, frame, dest_view_matches)
             .or_else(opeek(|| info!("failed to register frame")))?;
 
+        // The scale of each reconstruction is arbitrary, so find the scale between them using the
+        // distance of the landmarks this frame observes in both.
+        let mut scales = matches
+            .iter()
+            .filter_map(|(&feature, dest_landmarks)| {
+                let src_landmark =
+                    self.data
+                        .observation_landmark(src_reconstruction, src_view, feature);
+                let src_point =
+                    self.triangulate_landmark_robust(src_reconstruction, src_landmark)?;
+                let dest_point =
+                    self.triangulate_landmark_robust(dest_reconstruction, dest_landmarks[0])?;
+                let src_distance = src_pose.transform(src_point).point()?.coords.norm();
+                let dest_distance = dest_pose.transform(dest_point).point()?.coords.norm();
+                Some(dest_distance / src_distance).filter(|scale| scale.is_normal())
+            })
+            .collect_vec();
+        if scales.is_empty() {
+            info!("failed to find the scale between the reconstructions; rejecting reconstruction match");
+            return None;
+        }
+        // Use the median scale to avoid outliers.
+        scales.sort_unstable_by_key(|&scale| FloatOrd(scale));
+        let scale = scales[scales.len() / 2];
+
         // Add the view to the dest reconstruction.
         let dest_view = self
             .data
@@ -2177,6 +2202,16 @@ where
             .views
             .remove(src_view);
 
+        // Bring the source reconstruction to the scale of the destination reconstruction.
+        let mut src_pose = src_pose;
+        src_pose.0.translation.vector *= scale;
+        for view in self.data.reconstructions[src_reconstruction]
+            .views
+            .values_mut()
+        {
+            view.pose.0.translation.vector *= scale;
+        }
+
         // Create the transformation from the source to the destination reconstruction.
         let world_transform = WorldToWorld::from_camera_poses(src_pose, dest_pose);
 
-- 
2.43.0


From cf4d03b17d37caa39137ff89d432d5fe86272818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:45 +0000
Subject: [PATCH 24/26] fix: try the remaining frames when two of them see too
 narrow a part of the scene

init_reconstruction gave up on all of its options as soon as one pair of them had too few robust
bearing pairs, unlike every other reason to reject a pair. One frame of a small object kept a camera
from being mapped for as long as the frame was among its recent ones.
---
 cv-sfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index 577a8f3..a9e9834 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -1102,7 +1102,7 @@ where
                     "could not find {} robust bearing pairs; rejecting three-view match",
                     self.settings.robust_view_num_robust_bearing_pair
                 );
-                return None;
+                continue;
             }
 
             // If we have more than half of the initial matches, the estimation is robust.
-- 
2.43.0


From fc377a10410277134a66afcaebb7e9128c54f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 25/26] fix: do not constrain views with views removed while
 optimizing

---
 cv-sfm/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a9e9834..420e28f 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2395,12 +2395,17 @@ where
         reconstruction: ReconstructionKey,
     ) -> Option<ReconstructionKey> {
         info!("optimizing reconstruction with three-view constraints");
-        let constraints = self.flatten_constraints(reconstruction);
+        let mut constraints = self.flatten_constraints(reconstruction);
         for _ in 0..self.settings.optimization_iterations {
             if let Some(bundle_adjust) =
                 self.compute_momentum_bundle_adjust(reconstruction, &constraints)
             {
+                let views_removed = !bundle_adjust.removed_views.is_empty();
                 self.data.apply_bundle_adjust(bundle_adjust);
+                if views_removed {
+                    // The constraints of the removed views are gone.
+                    constraints = self.flatten_constraints(reconstruction);
+                }
             } else {
                 self.data.remove_reconstruction(reconstruction);
                 return None;
-- 
2.43.0


From 8d2ce8d059015b1f09953e99a8fbf8ea72027b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:41 +0000
Subject: [PATCH 26/26] fix: lambda-twist returned poses whose depths do not
 solve the sample

When rounding turns a degenerate case into two more real roots, the depths
that follow from them do not satisfy the three distances of the sample, and
the pose fits no bearing of it. Such depths are dropped after refinement.
---
 lambda-twist/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 1ddb0f0..24e2399 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -271,7 +271,7 @@ impl LambdaTwist {
 
         lambdas
             .iter()
-            .map(|&lambda| {
+            .filter_map(|&lambda| {
                 // Refine estimated depth values.
                 let lambda_refined = gauss_newton_refine_lambda(
                     lambda,
@@ -282,7 +282,7 @@ impl LambdaTwist {
                     b12,
                     b13,
                     b23,
-                );
+                )?;
 
                 let ry1 = lambda_refined[0] * *bearings[0];
                 let ry2 = lambda_refined[1] * *bearings[1];
@@ -300,7 +300,7 @@ impl LambdaTwist {
             );
 
                 let rot = y_mat * x_mat;
-                (rot, ry1 - rot * wps[0].coords)
+                Some((rot, ry1 - rot * wps[0].coords))
             })
             // The depths of a degenerate sample may overflow.
             .filter(|(rot, trans)| rot.iter().chain(trans.iter()).all(|n| n.is_finite()))
@@ -377,6 +377,8 @@ fn nearby_rotation(rot: &Mat3) -> Rotation3<f64> {
 /// b13: f64, -2.0 * cosine of the angle between bearing vector 1 and bearing vector 3.
 /// b23: f64, -2.0 * cosine of the angle between bearing vector 2 and bearing vector 3.
 /// The paper note it rarely improve after two iterations. The original implementation use 5 iterations.
+///
+/// Returns `None` if the depths do not solve the problem, which rounding causes in degenerate cases.
 #[allow(clippy::similar_names)]
 #[allow(clippy::too_many_arguments)]
 fn gauss_newton_refine_lambda(
@@ -388,7 +390,7 @@ fn gauss_newton_refine_lambda(
     b12: f64,
     b13: f64,
     b23: f64,
-) -> Vec3 {
+) -> Option<Vec3> {
     let compute_residual = |l: &Vec3| {
         let l1 = l.x;
         let l2 = l.y;
@@ -430,7 +432,7 @@ fn gauss_newton_refine_lambda(
             break;
         }
     }
-    Vec3::new(l1, l2, l3)
+    (l1_norm(res) <= 1e-6 * (a12 + a13 + a23)).then(|| Vec3::new(l1, l2, l3))
 }
 
 /// Compute L1 norm of a vector.
-- 
2.43.0

