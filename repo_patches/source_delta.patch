From 52cce2f1d99a935de7b261a1e6d74a269ebff7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 01/37] fix: hold the PID integral when a reverse-acting gain
 winds it deeper

---
 crates/multicalc/src/control/pid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/control/pid.rs b/crates/multicalc/src/control/pid.rs
index e205e01..6205bd0 100644
--- a/crates/multicalc/src/control/pid.rs
+++ b/crates/multicalc/src/control/pid.rs
@@ -199,7 +199,8 @@ impl<T: Numeric> Pid<T> {
         self.previous_error = error;
         self.has_previous_measurement = true;
 
-        let candidate_integral = self.integral + self.integral_gain * error * self.timestep;
+        let integral_step = self.integral_gain * error * self.timestep;
+        let candidate_integral = self.integral + integral_step;
         let unsaturated = proportional_term + candidate_integral + derivative_term;
         let output = unsaturated
             .max(self.output_minimum)
@@ -207,8 +208,10 @@ impl<T: Numeric> Pid<T> {
 
         let saturated_high = unsaturated > self.output_maximum;
         let saturated_low = unsaturated < self.output_minimum;
-        let pushing_deeper =
-            (saturated_high && error > T::ZERO) || (saturated_low && error < T::ZERO);
+        // The sign is that of the integral step and not of the error, which point opposite ways for
+        // a reverse-acting controller.
+        let pushing_deeper = (saturated_high && integral_step > T::ZERO)
+            || (saturated_low && integral_step < T::ZERO);
         if !pushing_deeper {
             self.integral = candidate_integral;
         }
-- 
2.43.0


From 204652bab425de788e21298f23ce7d430fbe1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 02/37] fix: report an empty Savitzky-Golay window instead of
 underflowing

---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From 80e88e514a1db5a12062cf364626b39f3d197f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 03/37] fix: a point that is not a number is on no map cell

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..7839fab 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,8 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        // A coordinate that is not a number lies nowhere, and would otherwise cast to index zero.
+        if column.is_nan() || row.is_nan() || column < 0.0 || row < 0.0 {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
-- 
2.43.0


From 18da2f93fff01c459e52e9503a03508453cbb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 04/37] fix: a beam along a cell edge never reads shorter than
 where it entered the map

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7839fab..bf59c21 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -222,14 +222,15 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
             if self.is_occupied(row_index, column_index) {
                 return Some(entered);
             }
-            // Cross whichever edge comes first.
+            // Cross whichever edge comes first. A beam running along an edge can round to an edge
+            // it is already past, which must not bring the distance back.
             if next_column < next_row {
                 column += step_column;
-                entered = next_column;
+                entered = entered.max(next_column);
                 next_column += stride_column;
             } else {
                 row += step_row;
-                entered = next_row;
+                entered = entered.max(next_row);
                 next_row += stride_row;
             }
         }
-- 
2.43.0


From 1f18d66c9470fcf95d465df7c7b66e6fcc75f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 05/37] fix: a floating joint slides along its origin frame in
 the Jacobian too

---
 crates/multicalc/src/kinematics/kinematic_tree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..6310c9c 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -541,14 +541,14 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         let basis = Vector::<3, T>::from_fn(|row| {
                             if row == local_axis { T::ONE } else { T::ZERO }
                         });
-                        // Sliding along a world axis carries every point in the subtree, tool
-                        // included, by the same amount, in that fixed world direction — no
-                        // turning. Unlike every other joint's own axis, this one is not carried
+                        // Sliding along an axis of the joint's resting frame carries every point in
+                        // the subtree, tool included, by the same amount in that fixed direction —
+                        // no turning. Unlike every other joint's own axis, this one is not carried
                         // by the joint's own orientation: a floating joint's slide reading is a
-                        // world position directly (MuJoCo's own free-joint convention), so world
-                        // axis 0 always means world axis 0, whichever way the body is turned.
+                        // position in its `origin` frame (MuJoCo's own free-joint convention, which
+                        // with an unturned origin is the world), whichever way the body is turned.
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((joint.origin().rotation().act(basis), Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From ce52a1b212d0bf435f397ad5b904a8e072008275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 06/37] fix: capsule distances judge degenerate and parallel
 segments by their own lengths

---
 crates/multicalc/src/kinematics/collision.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..13bbc86 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -113,7 +113,7 @@ fn closest_point_on_segment<T: Numeric>(
 ) -> Vector3D<T> {
     let segment = end - start;
     let length_squared = segment.dot(segment);
-    if length_squared <= T::EPSILON {
+    if length_squared <= T::ZERO {
         return start;
     }
     let parameter = ((point - start).dot(segment) / length_squared)
@@ -140,11 +140,11 @@ fn closest_points_between_segments<T: Numeric>(
     let second_offset = second_direction.dot(start_offset);
 
     // Both degenerate: two points.
-    if first_length_squared <= T::EPSILON && second_length_squared <= T::EPSILON {
+    if first_length_squared <= T::ZERO && second_length_squared <= T::ZERO {
         return (first_start, second_start);
     }
 
-    let (first_parameter, second_parameter) = if first_length_squared <= T::EPSILON {
+    let (first_parameter, second_parameter) = if first_length_squared <= T::ZERO {
         // First degenerate: project its point onto the second.
         (
             T::ZERO,
@@ -154,7 +154,7 @@ fn closest_points_between_segments<T: Numeric>(
         )
     } else {
         let first_offset = first_direction.dot(start_offset);
-        if second_length_squared <= T::EPSILON {
+        if second_length_squared <= T::ZERO {
             // Second degenerate: project its point onto the first.
             (
                 (-first_offset / first_length_squared)
@@ -164,9 +164,11 @@ fn closest_points_between_segments<T: Numeric>(
             )
         } else {
             let alignment = first_direction.dot(second_direction);
-            let denominator = first_length_squared * second_length_squared - alignment * alignment;
-            // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
+            let scale = first_length_squared * second_length_squared;
+            let denominator = scale - alignment * alignment;
+            // Parallel: denominator vanishes next to the lengths it is built from, so pin the first
+            // parameter and solve the second.
+            let candidate = if denominator > T::EPSILON * scale {
                 ((alignment * second_offset - first_offset * second_length_squared) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
-- 
2.43.0


From 8bad8f671bb455c830f0427c1c8449be6d4a354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 07/37] fix: an inverse-kinematics report with no iterations
 allowed states the seed's residual

---
 .../src/kinematics/inverse_kinematics.rs         | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..17acbe7 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -394,13 +392,11 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         }
 
         // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
-- 
2.43.0


From b90600bf9ac6f15f288bc91773dd32c354cdef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:11 +0000
Subject: [PATCH 08/37] fix: planar motions and Jacobians keep their precision
 at small turns

---
 crates/multicalc/src/spatial/lie/se2.rs | 35 +++++++++++++++++--------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..0286031 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,19 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::{small_angle_so3_sq, small_angle_sq};
+
+/// `(θ − sinθ)/θ²`, from its series where the difference would cancel.
+#[inline]
+fn sine_deficit<T: Numeric>(omega: T) -> T {
+    let theta_sq = omega * omega;
+    let (_, series_below) = small_angle_so3_sq::<T>();
+    if theta_sq < series_below {
+        omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0))
+    } else {
+        (omega - omega.sin()) / theta_sq
+    }
+}
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -89,7 +101,10 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::HALF - theta_sq / T::from_f64(24.0)),
             )
         } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
+            // 1 − cosθ as 2·sin²(θ/2): the plain difference cancels at small angles.
+            let half = omega * T::HALF;
+            let half_sin = half.sin();
+            (omega.sin() / omega, half_sin * half_sin / half)
         };
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
@@ -216,13 +231,10 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
-            )
+            let half = omega * T::HALF;
+            let half_sin = half.sin();
+            let b = half_sin * half_sin / half;
+            (omega.sin() / omega, b, b / omega, sine_deficit(omega))
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
@@ -252,8 +264,9 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
+            let half = omega * T::HALF;
+            let half_sin = half.sin();
+            (half_sin * half_sin / (half * omega), sine_deficit(omega))
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
-- 
2.43.0


From 1825d25ce7f172b2fb67c9c23d602dc4c0d98865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 09/37] fix: an orientation from two directions refuses
 parallel pairs, whatever way they point

---
 crates/multicalc/src/spatial/lie/so3.rs | 49 ++++++++++++++-----------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/so3.rs b/crates/multicalc/src/spatial/lie/so3.rs
index 53d0f7e..7a7a8c1 100644
--- a/crates/multicalc/src/spatial/lie/so3.rs
+++ b/crates/multicalc/src/spatial/lie/so3.rs
@@ -28,6 +28,31 @@ pub struct SO3<T: Numeric = f64> {
     quaternion: Quaternion<T>,
 }
 
+/// Right-handed unit axes as columns, the first along `primary` and the second toward `secondary`;
+/// `None` when either has no direction or the two are parallel to within scalar round-off.
+#[inline]
+fn axes_from_directions<T: Numeric>(
+    primary: Vector3D<T>,
+    secondary: Vector3D<T>,
+) -> Option<Matrix3D<T>> {
+    let first = primary.try_normalized()?;
+    let across = first.cross(secondary.try_normalized()?);
+    // The cross product of two parallel unit vectors is round-off, not zero: its direction is noise.
+    if across.norm() <= T::EPSILON_X30 {
+        return None;
+    }
+    // Round-off in the cross product grows as the directions close up, so what leaked onto the
+    // first axis is taken out again.
+    let across = across.try_normalized()?;
+    let third = (across - first * first.dot(across)).try_normalized()?;
+    let second = third.cross(first);
+    Some(Matrix3D::from_fn(|row, column| match column {
+        0 => first[row],
+        1 => second[row],
+        _ => third[row],
+    }))
+}
+
 impl<T: Numeric> SO3<T> {
     /// The zero rotation.
     #[inline]
@@ -202,28 +227,8 @@ impl<T: Numeric> SO3<T> {
             return None;
         }
 
-        let observed_first = primary_observed.try_normalized()?;
-        let observed_third = observed_first.cross(secondary_observed).try_normalized()?;
-        let observed_second = observed_third.cross(observed_first);
-
-        let reference_first = primary_reference.try_normalized()?;
-        let reference_third = reference_first
-            .cross(secondary_reference)
-            .try_normalized()?;
-        let reference_second = reference_third.cross(reference_first);
-
-        // Each set of axes goes in as columns, so the product carries body directions to world
-        // ones.
-        let observed_axes = Matrix3D::from_fn(|row, column| match column {
-            0 => observed_first[row],
-            1 => observed_second[row],
-            _ => observed_third[row],
-        });
-        let reference_axes = Matrix3D::from_fn(|row, column| match column {
-            0 => reference_first[row],
-            1 => reference_second[row],
-            _ => reference_third[row],
-        });
+        let observed_axes = axes_from_directions(primary_observed, secondary_observed)?;
+        let reference_axes = axes_from_directions(primary_reference, secondary_reference)?;
         SO3::try_from_matrix(reference_axes * observed_axes.transpose())
     }
 
-- 
2.43.0


From eebb85f76c142f806c056c6887443aa915769a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 10/37] fix: Cholesky refuses NaN instead of returning a NaN
 factor

---
 crates/multicalc/src/linear_algebra/cholesky.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/cholesky.rs b/crates/multicalc/src/linear_algebra/cholesky.rs
index 702922f..a5e3576 100644
--- a/crates/multicalc/src/linear_algebra/cholesky.rs
+++ b/crates/multicalc/src/linear_algebra/cholesky.rs
@@ -47,7 +47,8 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             for k in 0..j {
                 diag -= lower[(j, k)] * lower[(j, k)];
             }
-            if diag <= T::ZERO {
+            // NaN fails every comparison, so the sign test alone would let it through.
+            if diag.is_nan() || diag <= T::ZERO {
                 return Err(LinalgError::NotPositiveDefinite);
             }
             let ljj = diag.sqrt();
-- 
2.43.0


From ba4f9fd1ccaa993e88b528b90fc9ed85297cd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 11/37] fix: the SVD's left factor is orthonormal for
 rank-deficient matrices too

---
 crates/multicalc/src/linear_algebra/svd.rs | 43 ++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index 5f24839..8311f94 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -163,6 +163,49 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
             }
         }
 
+        // A negligible singular value, one lost beside a few copies of the largest, leaves its left
+        // column empty, or made of rounding that may lean on the other columns. Keep what is left of
+        // it once they are removed, or failing that the axis that keeps the most of itself, so the
+        // columns are orthonormal for any rank.
+        for k in 0..N {
+            let mut largest = singular_values[0];
+            for _ in 0..(2 * M) {
+                largest += singular_values[0];
+            }
+            if largest + singular_values[k] > largest {
+                continue;
+            }
+            let mut best = Vector::<M, T>::zeros();
+            for candidate in 0..=M {
+                let mut direction = Vector::<M, T>::from_fn(|row| {
+                    if candidate == 0 {
+                        left[(row, k)]
+                    } else if row + 1 == candidate {
+                        T::ONE
+                    } else {
+                        T::ZERO
+                    }
+                });
+                // The second pass removes what rounding left behind in the first.
+                for _ in 0..2 {
+                    for j in 0..k {
+                        let earlier = Vector::<M, T>::from_fn(|row| left[(row, j)]);
+                        direction -= earlier * earlier.dot(direction);
+                    }
+                }
+                if direction.norm_squared() > best.norm_squared() {
+                    best = direction;
+                }
+                if candidate == 0 && best.norm_squared() > T::HALF {
+                    break;
+                }
+            }
+            let best = best.normalized();
+            for i in 0..M {
+                left[(i, k)] = best[i];
+            }
+        }
+
         // Sign convention: the largest-magnitude entry of each left column is positive.
         for k in 0..N {
             let mut row = 0;
-- 
2.43.0


From 8f04e65aafe47b4ff226c1d13e240c24b8aaccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 12/37] fix: a Riccati solve whose passes run out reports it
 instead of returning the running total

---
 crates/multicalc/src/linear_algebra/riccati.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index 6081080..f29b43b 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -70,7 +70,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
 
     let mut state = a;
     let mut cost = state_cost;
-    let mut passes_taken = MAXIMUM_PASSES;
+    let mut settled_after = None;
     for pass in 0..MAXIMUM_PASSES {
         let coupling = (Matrix::<N, N, T>::identity() + reach * cost).inverse()?;
         let folded = coupling * state;
@@ -101,10 +101,15 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
         if increment_size <= T::EPSILON_X30 * cost_size.max(T::ONE) {
-            passes_taken = pass + 1;
+            settled_after = Some(pass + 1);
             break;
         }
     }
+    let Some(passes_taken) = settled_after else {
+        return Err(LinalgError::DidNotConverge {
+            iters: MAXIMUM_PASSES,
+        });
+    };
 
     // Put the answer back into the equation and require what is left over to be small.
     let input_weight = input_cost + b.transpose() * cost * b;
-- 
2.43.0


From cce8cd37239d6c98ab6f2b2b62b78fa39f14c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 13/37] fix: the exponential of a matrix whose norm overflows
 is an error, not an endless loop

---
 crates/multicalc/src/linear_algebra/expm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/expm.rs b/crates/multicalc/src/linear_algebra/expm.rs
index 974f3f9..0a15be5 100644
--- a/crates/multicalc/src/linear_algebra/expm.rs
+++ b/crates/multicalc/src/linear_algebra/expm.rs
@@ -35,6 +35,10 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 nrm = col;
             }
         }
+        // Halving a norm that overflowed would never bring it down.
+        if !nrm.is_finite() {
+            return Err(LinalgError::NonFinite);
+        }
         // Scale so ‖A / 2^s‖₁ ≤ 1/2. `squares` is that exponent and depends only on the primal, so it is AD-safe.
         let mut squares: i32 = 0;
         let mut scaled = nrm;
-- 
2.43.0


From 8240048ddbd7794af9d0c4030407bc9a4ddb3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 14/37] fix: a runaway Riccati total that rounding stopped is
 reported, not returned

---
 crates/multicalc/src/linear_algebra/riccati.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index f29b43b..c886515 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -123,7 +123,12 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
     // several matrix products, so it carries far more rounding than the answer itself, and a
     // tighter bound would turn away correct answers on badly scaled systems.
     let allowed = T::EPSILON.sqrt() * cost.frobenius_norm().max(T::ONE);
-    if !residual.is_finite() || residual.frobenius_norm() > allowed {
+    // A total that ran away until rounding stopped it would pass by its size alone. It either leaves
+    // over a good part of the state cost it has to balance, or is so large that one rounding hides it.
+    let leftover = residual.frobenius_norm();
+    let balanced = leftover.max(cost.frobenius_norm() * T::EPSILON)
+        <= state_cost.frobenius_norm() * T::from_f64(0.01);
+    if !residual.is_finite() || leftover > allowed || !balanced {
         return Err(LinalgError::DidNotConverge {
             iters: passes_taken,
         });
-- 
2.43.0


From c4513f9d77a063c410c4a448c094181180c5422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 15/37] fix: copysign on autodiff scalars reads the sign bit,
 so -0.0 flips the derivatives with the value

---
 crates/multicalc/src/scalar/dual.rs       | 3 ++-
 crates/multicalc/src/scalar/hyper_dual.rs | 3 ++-
 crates/multicalc/src/scalar/jet.rs        | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index bebd0f5..fe758c1 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -360,7 +360,8 @@ impl<T: Numeric> Numeric for Dual<T> {
     /// sign when `self` and `sign` disagree; the sign argument carries no derivative.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let same = (self.value < T::ZERO) == (sign.value < T::ZERO);
+        let sign_is_negative = T::ONE.copysign(sign.value) < T::ZERO;
+        let same = (self.value < T::ZERO) == sign_is_negative;
         Dual {
             value: self.value.copysign(sign.value),
             deriv: if same { self.deriv } else { -self.deriv },
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index c67551e..d4a0a72 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -443,7 +443,8 @@ impl<T: Numeric> Numeric for HyperDual<T> {
     /// univariate `chain` helper with slope `s` and zero curvature.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.real < T::ZERO) == (sign.real < T::ZERO) {
+        let sign_is_negative = T::ONE.copysign(sign.real) < T::ZERO;
+        let sign_scale = if (self.real < T::ZERO) == sign_is_negative {
             T::ONE
         } else {
             -T::ONE
diff --git a/crates/multicalc/src/scalar/jet.rs b/crates/multicalc/src/scalar/jet.rs
index f5b0b27..e825791 100644
--- a/crates/multicalc/src/scalar/jet.rs
+++ b/crates/multicalc/src/scalar/jet.rs
@@ -440,7 +440,8 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
     /// scaled by `s = ±1`; the value coefficient is set by `copysign` so signed zero is exact.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.coeffs[0] < T::ZERO) == (sign.coeffs[0] < T::ZERO) {
+        let sign_is_negative = T::ONE.copysign(sign.coeffs[0]) < T::ZERO;
+        let sign_scale = if (self.coeffs[0] < T::ZERO) == sign_is_negative {
             T::ONE
         } else {
             -T::ONE
-- 
2.43.0


From e99f0052a122c1f06449eac8e9accf91ae78c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 16/37] fix: tanh of an autodiff scalar saturates instead of
 turning into inf/inf past the range of exp

---
 crates/multicalc/src/scalar/numeric.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 7b7553f..5b169e8 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -346,7 +346,11 @@ pub trait Numeric:
     /// Hyperbolic tangent.
     #[inline]
     fn tanh(self) -> Self {
-        self.sinh().safe_div(self.cosh())
+        // From `e^(-2|x|)`, which fades where `sinh` and `cosh` overflow into `inf / inf`.
+        let magnitude = self.abs();
+        let decayed = (-(magnitude + magnitude)).expm1();
+        let tanh = -decayed / (decayed + Self::TWO);
+        if self < Self::ZERO { -tanh } else { tanh }
     }
 
     /// Euclidean distance `√(self² + other²)`, scaled to avoid overflow and underflow.
-- 
2.43.0


From 2eb2057cbae14695588bc710c83c65756ec8eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 17/37] fix: the cubic root formula loses repeated roots to
 rounding and digits to cancellation

---
 crates/multicalc/src/polynomial/roots.rs | 31 +++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..5775c77 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -199,19 +199,24 @@ impl<T: Numeric> Polynomial<4, T> {
         // Sliding the curve sideways by this much removes the squared term, leaving something of
         // the form y³ + (a number)·y + (a number), which the formulas below expect.
         let slide = -quadratic / (three * cubic);
-        let reduced_linear =
-            (three * cubic * linear - quadratic * quadratic) / (three * cubic * cubic);
-        let reduced_constant = (T::TWO * quadratic * quadratic * quadratic
+        // Whether there are three real roots is decided on the two numbers before their divisions:
+        // rounding those could turn a repeated root into none.
+        let linear_part = three * cubic * linear - quadratic * quadratic;
+        let constant_part = T::TWO * quadratic * quadratic * quadratic
             - T::from_f64(9.0) * cubic * quadratic * linear
-            + twenty_seven * cubic * cubic * constant)
-            / (twenty_seven * cubic * cubic * cubic);
+            + twenty_seven * cubic * cubic * constant;
+        let reduced_linear = linear_part / (three * cubic * cubic);
+        let reduced_constant = constant_part / (twenty_seven * cubic * cubic * cubic);
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if linear_part == T::ZERO && constant_part == T::ZERO {
+            // All three roots are the same.
+            for _ in 0..3 {
+                roots.push(slide);
+            }
+        } else if reduced_linear == T::ZERO {
             roots.push((-reduced_constant).cbrt() + slide);
-        } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
-            <= T::ZERO
-        {
+        } else if four * linear_part.powi(3) + constant_part * constant_part <= T::ZERO {
             // All three roots are real, and they sit a third of a turn apart on a circle, so one
             // angle gives all of them.
             let radius = T::TWO * (-reduced_linear / three).sqrt();
@@ -225,12 +230,16 @@ impl<T: Numeric> Polynomial<4, T> {
                 roots.push(radius * (angle / three - turn).cos() + slide);
             }
         } else {
-            // One real root, from the sum of two cube roots.
+            // One real root, from the sum of two cube roots. The larger one adds two like-signed
+            // numbers; the other follows from it by division, since the subtraction that would
+            // give it directly loses its digits.
             let half_constant = -reduced_constant * T::HALF;
             let spread = (reduced_constant * reduced_constant / four
                 + reduced_linear.powi(3) / twenty_seven)
+                .max(T::ZERO)
                 .sqrt();
-            roots.push((half_constant + spread).cbrt() + (half_constant - spread).cbrt() + slide);
+            let larger = (half_constant + spread.copysign(half_constant)).cbrt();
+            roots.push(larger - reduced_linear / (three * larger) + slide);
         }
         roots.sort_ascending();
         Ok(roots)
-- 
2.43.0


From 9b92fef2bafda85a099a21dd4117f40b8094d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 18/37] fix: the quartic root formula fails when odd powers
 nearly vanish and loses repeated roots

---
 crates/multicalc/src/polynomial/roots.rs | 39 ++++++++++++++++--------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 5775c77..ce35d20 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -285,8 +285,33 @@ impl<T: Numeric> Polynomial<5, T> {
             + T::from_f64(16.0) * quartic * cubic * cubic * quadratic)
             / (two_hundred_fifty_six * quartic.powi(4));
 
+        // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
+        // coefficient is not positive, so unless only even powers are left it has a positive root,
+        // and the largest root is the one that works.
+        let helper = Polynomial::<4, T>::new([
+            -reduced_linear * reduced_linear,
+            T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
+            eight * reduced_quadratic,
+            eight,
+        ]);
+        let mut largest = helper
+            .real_roots()?
+            .as_slice()
+            .last()
+            .copied()
+            .unwrap_or(T::ZERO);
+        // The formula gives a root far smaller than its neighbours with few digits, or none. Two
+        // rounds of Newton's method restore them.
+        for _ in 0..2 {
+            let [value, slope] = helper.evaluate_with_derivatives(largest);
+            let nudged = largest - value / slope;
+            if slope > T::ZERO && helper.evaluate(nudged).abs() < value.abs() {
+                largest = nudged;
+            }
+        }
+
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if reduced_linear == T::ZERO || largest <= T::ZERO {
             // Only even powers are left, so solve for y² and take both square roots of each answer.
             let squares = Polynomial::<3, T>::new([reduced_constant, reduced_quadratic, T::ONE])
                 .real_roots()?;
@@ -298,18 +323,6 @@ impl<T: Numeric> Polynomial<5, T> {
                 }
             }
         } else {
-            // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
-            // coefficient is negative, so it always has a positive root, and the largest root is
-            // the one that works.
-            let helper = Polynomial::<4, T>::new([
-                -reduced_linear * reduced_linear,
-                T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
-                eight * reduced_quadratic,
-                eight,
-            ])
-            .real_roots()?;
-            let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
-
             let separation = (T::TWO * largest).sqrt();
             let shared = reduced_quadratic * T::HALF + largest;
             let apart = reduced_linear / (T::TWO * separation);
-- 
2.43.0


From 113b11cf340a05bafb29d664773076ab8faf251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 19/37] fix: root counting treats rounding specks as remainders
 and breaks on repeated roots

---
 crates/multicalc/src/polynomial/roots.rs | 151 ++++++++++++++++++-----
 1 file changed, 118 insertions(+), 33 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index ce35d20..4f4698e 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -342,18 +342,34 @@ impl<T: Numeric> Polynomial<5, T> {
     }
 }
 
-/// What is left of `dividend` after taking out as many copies of `divisor` as fit.
+/// A polynomial and how far off each of its coefficients may be, from rounding in working it out.
+#[derive(Clone, Copy)]
+struct Rounded<const COEFFICIENT_COUNT: usize, T: Numeric> {
+    polynomial: Polynomial<COEFFICIENT_COUNT, T>,
+    errors: [T; COEFFICIENT_COUNT],
+}
+
+/// How many copies of `divisor` fit in `dividend`, and what is left after taking them out.
 ///
-/// Both sides and the answer are the same size, which is what lets a whole chain of these sit in
-/// one array. The answer's coefficients at and above the divisor's degree are zero.
-fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
-    dividend: &Polynomial<COEFFICIENT_COUNT, T>,
-    divisor: &Polynomial<COEFFICIENT_COUNT, T>,
-) -> Option<Polynomial<COEFFICIENT_COUNT, T>> {
-    let divisor_degree = divisor.degree()?;
-    let divisor_highest = divisor.coefficient(divisor_degree)?;
-
-    let mut working = *dividend.coefficients();
+/// Everything is the same size, which is what lets a whole chain of remainders sit in one array.
+/// The remainder's coefficients at and above the divisor's degree are zero, and so is any that
+/// could be nothing but rounding: a repeated root makes the chain end early, and a speck left in
+/// place of a zero would hide that.
+fn divide_same_size<const COEFFICIENT_COUNT: usize, T: Numeric>(
+    dividend: &Rounded<COEFFICIENT_COUNT, T>,
+    divisor: &Rounded<COEFFICIENT_COUNT, T>,
+) -> Option<(
+    Polynomial<COEFFICIENT_COUNT, T>,
+    Rounded<COEFFICIENT_COUNT, T>,
+)> {
+    let divisor_degree = divisor.polynomial.degree()?;
+    let divisor_highest = divisor.polynomial.coefficient(divisor_degree)?;
+    let divisor_highest_error = divisor.errors.get(divisor_degree).copied()?;
+
+    let mut quotient = [T::ZERO; COEFFICIENT_COUNT];
+    let mut working = *dividend.polynomial.coefficients();
+    let mut errors = dividend.errors;
+    let mut handled = working.map(|coefficient| coefficient.abs());
     let mut power = COEFFICIENT_COUNT;
     while power > divisor_degree {
         power -= 1;
@@ -362,18 +378,55 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
             continue;
         }
         let share = highest / divisor_highest;
+        let highest_error = errors.get(power).copied().unwrap_or(T::ZERO);
+        let share_error =
+            (highest_error + share.abs() * divisor_highest_error) / divisor_highest.abs();
         let offset = power - divisor_degree;
-        for (divisor_power, divisor_coefficient) in divisor.coefficients().iter().enumerate() {
+        if let Some(slot) = quotient.get_mut(offset) {
+            *slot = share;
+        }
+        for (divisor_power, (coefficient, error)) in divisor
+            .polynomial
+            .coefficients()
+            .iter()
+            .zip(divisor.errors)
+            .enumerate()
+        {
             if let Some(slot) = working.get_mut(offset + divisor_power) {
-                *slot -= share * *divisor_coefficient;
+                *slot -= share * *coefficient;
+            }
+            if let Some(slot) = handled.get_mut(offset + divisor_power) {
+                *slot += (share * *coefficient).abs();
+            }
+            if let Some(slot) = errors.get_mut(offset + divisor_power) {
+                *slot += share.abs() * error
+                    + (share_error + T::EPSILON * share.abs()) * coefficient.abs();
             }
         }
         // The subtraction is meant to clear this power exactly; rounding can leave a speck.
         if let Some(slot) = working.get_mut(power) {
             *slot = T::ZERO;
         }
+        if let Some(slot) = errors.get_mut(power) {
+            *slot = T::ZERO;
+        }
+    }
+    // The worst case overstates rounding more with every entry of a chain, so what is not small
+    // beside the numbers it came from is kept whatever the worst case says.
+    let size = handled
+        .iter()
+        .fold(T::ZERO, |largest, size| largest.max(*size));
+    let small = T::EPSILON.sqrt() * T::from_f64(0.0625) * size;
+    for (slot, error) in working.iter_mut().zip(errors) {
+        if slot.abs() <= error.min(small) {
+            *slot = T::ZERO;
+        }
     }
-    Some(Polynomial::new(working))
+    let remainder = Rounded {
+        polynomial: Polynomial::new(working),
+        errors,
+    };
+    Some((Polynomial::new(quotient), remainder))
 }
 
 /// Adds a range to the waiting list, when there is still room for one.
@@ -454,37 +507,69 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             .degree()
             .ok_or(PolynomialError::LeadingCoefficientZero)?;
 
+        // The polynomial itself starts the chain, and its derivative comes next, unless it is a flat
+        // line with nothing to differentiate.
+        let mut errors = [T::ZERO; COEFFICIENT_COUNT];
+        let mut slope_errors = [T::ZERO; COEFFICIENT_COUNT];
+        for (power, coefficient) in self.coefficients().iter().enumerate() {
+            let error = T::EPSILON * coefficient.abs();
+            if let Some(slot) = errors.get_mut(power) {
+                *slot = error;
+            }
+            if let Some(slot) = power
+                .checked_sub(1)
+                .and_then(|lower| slope_errors.get_mut(lower))
+            {
+                *slot = error * T::from_usize(power);
+            }
+        }
+        let mut previous = Rounded {
+            polynomial: *self,
+            errors,
+        };
+        let mut current = Rounded {
+            polynomial: self.derivative(),
+            errors: slope_errors,
+        };
+
         let mut chain = [Polynomial::<COEFFICIENT_COUNT, T>::zeros(); COEFFICIENT_COUNT];
         let mut length = 0;
-        // The polynomial itself starts the chain.
         if let Some(slot) = chain.get_mut(0) {
-            *slot = *self;
+            *slot = previous.polynomial;
             length = 1;
         }
-        // Its derivative comes next, unless it is a flat line with nothing to differentiate.
-        if degree >= 1 {
-            if let Some(slot) = chain.get_mut(1) {
-                *slot = self.derivative();
-                length = 2;
-            }
+        if degree == 0 {
+            return Ok((chain, length));
         }
-
-        while length < COEFFICIENT_COUNT {
+        while let Some(slot) = chain.get_mut(length) {
+            *slot = current.polynomial;
+            length += 1;
             // Each new entry is what is left over from dividing the two before it, with the sign
-            // turned around.
-            let previous = chain.get(length - 2).copied().unwrap_or_default();
-            let current = chain.get(length - 1).copied().unwrap_or_default();
-            let Some(next) = remainder(&previous, &current) else {
+            // turned around. Nothing left over means the chain is finished.
+            let Some((_, mut next)) = divide_same_size(&previous, &current) else {
                 break;
             };
-            // Nothing left over means the chain is finished.
-            if next.is_zero() {
+            if next.polynomial.is_zero() {
                 break;
             }
-            if let Some(slot) = chain.get_mut(length) {
-                *slot = -next;
+            next.polynomial = -next.polynomial;
+            previous = current;
+            current = next;
+        }
+
+        // What the chain ends on divides all of it. When that is more than a number, the polynomial
+        // has repeated roots, and at one of them every entry would be zero and no change of sign
+        // would show. Dividing it out leaves each root once.
+        if current.polynomial.degree() > Some(0) {
+            for slot in chain.iter_mut().take(length) {
+                let entry = Rounded {
+                    polynomial: *slot,
+                    errors: [T::ZERO; COEFFICIENT_COUNT],
+                };
+                if let Some((quotient, _)) = divide_same_size(&entry, &current) {
+                    *slot = quotient;
+                }
             }
-            length += 1;
         }
         Ok((chain, length))
     }
-- 
2.43.0


From 904e0fdcff8390fae08c76677b725a977db8fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 20/37] fix: count_real_roots over a non-finite range reports
 no roots instead of an error

---
 crates/multicalc/src/polynomial/roots.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4f4698e..55329a9 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -582,7 +582,7 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
     /// not counted.
     ///
     /// Returns [`PolynomialError::LeadingCoefficientZero`] when every coefficient is zero, and
-    /// [`PolynomialError::NonFinite`] when any of them is infinite or NaN.
+    /// [`PolynomialError::NonFinite`] when any of them, or an end of the range, is infinite or NaN.
     ///
     /// ```
     /// use multicalc::Polynomial;
@@ -592,6 +592,9 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
     /// assert_eq!(p.count_real_roots(-5.0, 5.0).unwrap(), 2);
     /// ```
     pub fn count_real_roots(&self, lower: T, upper: T) -> Result<usize, PolynomialError> {
+        if !lower.is_finite() || !upper.is_finite() {
+            return Err(PolynomialError::NonFinite);
+        }
         let (chain, length) = self.root_counting_chain()?;
         Ok(sign_changes(&chain, length, lower).saturating_sub(sign_changes(&chain, length, upper)))
     }
-- 
2.43.0


From b17eb785b9d62fee0791d2a57801a257c871d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 21/37] fix: root formulas overflow or underflow on uniformly
 large or small coefficients

---
 crates/multicalc/src/polynomial/roots.rs | 42 ++++++++++++++++++++----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 55329a9..aa75320 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -101,6 +101,33 @@ fn check<const COEFFICIENT_COUNT: usize, T: Numeric>(
     Ok(())
 }
 
+/// The same polynomial up to a factor, with coefficients the formulas can raise to powers without
+/// overflowing or vanishing.
+///
+/// The factor is a power of two, so it costs no digits, and ordinary coefficients are left alone.
+fn balance<const COEFFICIENT_COUNT: usize, T: Numeric>(
+    polynomial: &Polynomial<COEFFICIENT_COUNT, T>,
+) -> Polynomial<COEFFICIENT_COUNT, T> {
+    let limit = T::MAX.sqrt().sqrt().sqrt();
+    let step = T::from_f64(65536.0);
+    let mut largest = polynomial
+        .coefficients()
+        .iter()
+        .fold(T::ZERO, |largest, coefficient| {
+            largest.max(coefficient.abs())
+        });
+    let mut balanced = *polynomial;
+    while largest > limit {
+        largest /= step;
+        balanced = balanced / step;
+    }
+    while largest > T::ZERO && largest * limit < T::ONE {
+        largest *= step;
+        balanced = balanced.scale(step);
+    }
+    balanced
+}
+
 impl<T: Numeric> Polynomial<2, T> {
     /// The real root, which a straight line always has exactly one of.
     ///
@@ -146,8 +173,9 @@ impl<T: Numeric> Polynomial<3, T> {
     /// }
     /// ```
     pub fn real_roots(&self) -> Result<RealRoots<2, T>, PolynomialError> {
-        let &[constant, linear, quadratic] = self.coefficients();
-        check(self, quadratic)?;
+        let &[.., highest] = self.coefficients();
+        check(self, highest)?;
+        let [constant, linear, quadratic] = *balance(self).coefficients();
 
         let mut roots = RealRoots::new();
         let discriminant = linear * linear - T::from_f64(4.0) * quadratic * constant;
@@ -189,8 +217,9 @@ impl<T: Numeric> Polynomial<4, T> {
     /// }
     /// ```
     pub fn real_roots(&self) -> Result<RealRoots<3, T>, PolynomialError> {
-        let &[constant, linear, quadratic, cubic] = self.coefficients();
-        check(self, cubic)?;
+        let &[.., highest] = self.coefficients();
+        check(self, highest)?;
+        let [constant, linear, quadratic, cubic] = *balance(self).coefficients();
 
         let three = T::THREE;
         let four = T::from_f64(4.0);
@@ -264,8 +293,9 @@ impl<T: Numeric> Polynomial<5, T> {
     /// }
     /// ```
     pub fn real_roots(&self) -> Result<RealRoots<4, T>, PolynomialError> {
-        let &[constant, linear, quadratic, cubic, quartic] = self.coefficients();
-        check(self, quartic)?;
+        let &[.., highest] = self.coefficients();
+        check(self, highest)?;
+        let [constant, linear, quadratic, cubic, quartic] = *balance(self).coefficients();
 
         let four = T::from_f64(4.0);
         let eight = T::from_f64(8.0);
-- 
2.43.0


From 577d7f19fed14199fbc6e44d4696493d322e2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 22/37] fix: a stretched motion profile could still be braking
 at its duration

---
 crates/multicalc/src/motion/motion_profile.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/motion/motion_profile.rs b/crates/multicalc/src/motion/motion_profile.rs
index 826fbb1..6c745ee 100644
--- a/crates/multicalc/src/motion/motion_profile.rs
+++ b/crates/multicalc/src/motion/motion_profile.rs
@@ -264,11 +264,13 @@ impl<T: Numeric> MotionProfile<T> {
             return Err(MotionError::NonFinite);
         }
         let clamped = time.max(T::ZERO).min(self.duration);
+        // The move is over at its duration, even where rounding ends the last phase a hair later.
+        let finished = clamped >= self.duration;
 
         let mut phase_start = T::ZERO;
         for phase in self.phases.iter() {
             let phase_end = phase_start + phase.duration;
-            if phase_end > clamped {
+            if phase_end > clamped && !finished {
                 let elapsed = clamped - phase_start;
                 return Ok(ProfileState {
                     position: phase.start_position
-- 
2.43.0


From 9dcb358ef728b34ea138c5e473a6fc40fc6bc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 23/37] fix: a lookahead target before the start of a path left
 the path

---
 crates/multicalc/src/motion/polyline_path.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/motion/polyline_path.rs b/crates/multicalc/src/motion/polyline_path.rs
index fde6930..13928b8 100644
--- a/crates/multicalc/src/motion/polyline_path.rs
+++ b/crates/multicalc/src/motion/polyline_path.rs
@@ -299,7 +299,8 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
     /// The point a given arc length ahead of a starting arc length along the path.
     ///
     /// The end-of-path mode decides what happens once the target runs past the end: [`EndOfPath::Stop`]
-    /// clamps to the last waypoint and [`EndOfPath::Loop`] wraps around. Returns
+    /// clamps to the last waypoint and [`EndOfPath::Loop`] wraps around. With [`EndOfPath::Stop`], a
+    /// target before the start gives the first waypoint. Returns
     /// [`MotionError::PathTooShort`] if the path has no waypoints, or
     /// [`MotionError::OutOfSync`] if the path cannot get the cumulative arc length.
     pub fn lookahead_point(
@@ -333,6 +334,10 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
                 }
             }
         }
+        // Nothing comes before the first waypoint, so a target behind it is held there.
+        if target < T::ZERO {
+            target = T::ZERO;
+        }
 
         for (segment_index, window) in waypoints.windows(2).enumerate() {
             let (a, b) = match window {
-- 
2.43.0


From b94a84156250c6ba886cd35a1ccfe0ed4731fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 24/37] fix: the 2D flux integral measured the wrong components
 along the curve

---
 crates/multicalc/src/vector_field/flux_integral.rs |  9 ++++++---
 crates/multicalc/src/vector_field/line_integral.rs | 11 +++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..7e6738b 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -2,7 +2,7 @@ use crate::error::IntegrateError;
 use crate::numerical_integration::DEFAULT_TOTAL_ITERATIONS;
 use crate::scalar::Numeric;
 
-use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral_partial_3d};
+use crate::vector_field::line_integral::{get_partial, line_integral_partial_3d};
 
 /// Computes the flux integral of a 2D vector field across a parametrized curve.
 ///
@@ -59,18 +59,21 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
-    Ok(line_integral_partial_2d(
+    // The normal of the curve is (dy, -dx), so each component runs over the other coordinate.
+    Ok(get_partial(
         vector_field,
         transformations,
         integration_limit,
         total_iterations,
         0,
-    )? - line_integral_partial_2d(
+        1,
+    )? - get_partial(
         vector_field,
         transformations,
         integration_limit,
         total_iterations,
         1,
+        0,
     )?)
 }
 
diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 79bb42d..09869c8 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -15,14 +15,15 @@ fn curve_point<T: Numeric, const N: usize>(
     point
 }
 
-/// Trapezoidal integration of the `idx`-th field component along the parametrized curve.
-/// Generic over the dimension `N`, so the 2D and 3D paths share one body.
-fn get_partial<T: Numeric, const N: usize>(
+/// Trapezoidal integration of the `idx`-th field component over the `axis`-th coordinate of the
+/// parametrized curve. Generic over the dimension `N`, so the 2D and 3D paths share one body.
+pub(crate) fn get_partial<T: Numeric, const N: usize>(
     vector_field: &[&dyn Fn(&[T; N]) -> T; N],
     transformations: &[&dyn Fn(T) -> T; N],
     integration_limit: &[T; 2],
     total_iterations: u64,
     idx: usize,
+    axis: usize,
 ) -> Result<T, IntegrateError> {
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
@@ -49,7 +50,7 @@ fn get_partial<T: Numeric, const N: usize>(
         let right = curve_point(transformations, parameter + delta);
         let right_value = vector_field[idx](&right);
 
-        ans += (right[idx] - left[idx]) * (left_value + right_value) / T::TWO;
+        ans += (right[axis] - left[axis]) * (left_value + right_value) / T::TWO;
 
         parameter += delta;
         left = right;
@@ -149,6 +150,7 @@ pub fn line_integral_partial_2d<T: Numeric>(
         integration_limit,
         total_iterations,
         idx,
+        idx,
     )
 }
 
@@ -224,5 +226,6 @@ pub fn line_integral_partial_3d<T: Numeric>(
         integration_limit,
         total_iterations,
         idx,
+        idx,
     )
 }
-- 
2.43.0


From 758dafb3369012a5e4f5639936e3f0aed495718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 25/37] fix: line and flux integrals over an unbounded
 parameter gave NaN

---
 crates/multicalc/src/vector_field/line_integral.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 09869c8..7683362 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -28,11 +28,9 @@ pub(crate) fn get_partial<T: Numeric, const N: usize>(
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
     }
-    // rejects NaN, equal, and reversed limits (partial_cmp is None for NaN)
-    if !matches!(
-        integration_limit[0].partial_cmp(&integration_limit[1]),
-        Some(core::cmp::Ordering::Less)
-    ) {
+    // rejects NaN, infinite, equal, and reversed limits
+    let [lower, upper] = *integration_limit;
+    if !lower.is_finite() || !upper.is_finite() || lower >= upper {
         return Err(IntegrateError::LimitsIllDefined);
     }
 
-- 
2.43.0


From a69ffc5c20bfc360c99cba6c5a19c67f574a1848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 26/37] fix: an adaptive integration could stop short of, or
 miss by rounding, its end time

---
 crates/multicalc/src/ode/rk45.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..7d34f2b 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -350,9 +350,12 @@ impl<T: Numeric> Rk45<T> {
 
         for _ in 0..self.max_steps {
             steps += 1;
-            // Do not overshoot time_final (compare signed remaining against signed h).
+            // Do not overshoot time_final; a step that would stop within rounding of it goes all
+            // the way.
             let remaining = time_final - time;
-            if h.abs() > remaining.abs() {
+            let rounding = T::EPSILON * time.abs().max(time_final.abs());
+            let last = h.abs() + rounding >= remaining.abs();
+            if last {
                 h = remaining;
             }
 
@@ -366,7 +369,7 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let tnew = if last { time_final } else { time + delta };
                 kahan_c = (tnew - time) - delta;
                 let step = Step {
                     time_start: time,
@@ -380,7 +383,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if last {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From a97065219af4fcf68bb8264576d4d8f2631ec425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 27/37] fix: a time grid out of order was accepted when one
 step covered it

---
 crates/multicalc/src/ode/rk45.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 7d34f2b..21430e1 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -463,6 +463,13 @@ impl<T: Numeric> Rk45<T> {
             return Ok(());
         }
         let time_final = times[times.len() - 1];
+        let backward = time_final < time_start;
+        if times
+            .windows(2)
+            .any(|pair| pair[0] != pair[1] && (pair[1] < pair[0]) != backward)
+        {
+            return Err(IntegrateError::LimitsIllDefined);
+        }
         let mut next = 0usize;
         let _ = self.for_each_step(f, time_start, state_start, time_final, |step| {
             // Consume every requested time that falls in this accepted step (times are sorted).
-- 
2.43.0


From 5856c666c54121b17dd21762625a201e8f34d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 28/37] fix: an automatic first step below the minimum step
 failed the integration

---
 crates/multicalc/src/ode/rk45.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 21430e1..7ebf3e9 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -247,7 +247,8 @@ impl<T: Numeric> Rk45<T> {
     /// Otherwise this is the Hairer–Wanner heuristic: size a tentative step from the
     /// scaled norms of `state_start` and `derivative_start`, take one explicit Euler probe to estimate the second
     /// derivative, then combine them for a step matched to the method order (5). `derivative_start` is
-    /// `f(time_start, state_start)` and `span` is `|time_final − time_start|`; the result never exceeds `max_step` or `span`.
+    /// `f(time_start, state_start)` and `span` is `|time_final − time_start|`; the result is at least
+    /// `min_step` and never exceeds `max_step` or `span`.
     #[must_use]
     fn select_initial_step<const N: usize, F>(
         &self,
@@ -288,6 +289,7 @@ impl<T: Numeric> Rk45<T> {
         };
         let h = (T::from_f64(100.0) * step0)
             .min(step1)
+            .max(self.min_step)
             .min(span.min(self.max_step));
         dir * h
     }
-- 
2.43.0


From b53a10e061b9de3dc0bdbe4bf74e76e5f2df81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 29/37] fix: an automatic first step below the clock's
 resolution gave a NaN dense output

---
 crates/multicalc/src/ode/rk45.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 7ebf3e9..9367382 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -290,6 +290,7 @@ impl<T: Numeric> Rk45<T> {
         let h = (T::from_f64(100.0) * step0)
             .min(step1)
             .max(self.min_step)
+            .max(T::TWO * T::EPSILON * time_start.abs()) // a smaller one would not move the clock
             .min(span.min(self.max_step));
         dir * h
     }
-- 
2.43.0


From ba088ad8ab48643013a5f33d68115ee4ef23e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 30/37] fix: bisection of a bracket wider than the largest
 float left the bracket

---
 crates/multicalc/src/root_finding/bisection.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/root_finding/bisection.rs b/crates/multicalc/src/root_finding/bisection.rs
index 171febe..8962465 100644
--- a/crates/multicalc/src/root_finding/bisection.rs
+++ b/crates/multicalc/src/root_finding/bisection.rs
@@ -119,7 +119,12 @@ impl<T: Numeric> Bisection<T> {
         };
 
         for iter in 1..=self.max_iterations {
-            let mid = lower + (upper - lower) * T::HALF;
+            let width = upper - lower;
+            let mid = if width.is_finite() {
+                lower + width * T::HALF
+            } else {
+                lower * T::HALF + upper * T::HALF
+            };
             let fmid = f.eval(mid);
             if !fmid.is_finite() {
                 return Err(SolveError::NonFinite);
@@ -132,7 +137,7 @@ impl<T: Numeric> Bisection<T> {
                     termination: RootTermination::ResidualTolerance,
                 });
             }
-            if (upper - lower) <= self.xtol * (T::ONE + mid.abs()) {
+            if width <= self.xtol * (T::ONE + mid.abs()) {
                 return Ok(RootReport {
                     root: mid,
                     residual: fmid,
-- 
2.43.0


From ffe787dc488f6897339d48845bc08b130d73d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 31/37] fix: Newton reported an infinite step off a nearly flat
 slope as a root

---
 crates/multicalc/src/root_finding/newton.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/root_finding/newton.rs b/crates/multicalc/src/root_finding/newton.rs
index 77cd188..7c75679 100644
--- a/crates/multicalc/src/root_finding/newton.rs
+++ b/crates/multicalc/src/root_finding/newton.rs
@@ -118,7 +118,7 @@ impl<D: DerivatorSingleVariable> Newton<D> {
     /// Finds a root of `f` starting from `x0`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `f` or its derivative is non-finite,
+    /// [`NonFinite`](SolveError::NonFinite) if `f`, its derivative or a step is non-finite,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Singular`](LinalgError::Singular) if the derivative
     /// is zero, or [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(
@@ -162,14 +162,15 @@ impl<D: DerivatorSingleVariable> Newton<D> {
             let (x_new, residual_new) = loop {
                 let candidate = x - alpha * step;
                 let trial = f.eval(candidate);
+                let finite = candidate.is_finite() && trial.is_finite();
                 if !self.backtracking {
-                    if !trial.is_finite() {
+                    if !finite {
                         return Err(SolveError::NonFinite);
                     }
                     break (candidate, trial);
                 }
-                if (trial.is_finite() && trial.abs() < residual.abs()) || tries >= MAX_BACKTRACK {
-                    if !trial.is_finite() {
+                if (finite && trial.abs() < residual.abs()) || tries >= MAX_BACKTRACK {
+                    if !finite {
                         return Err(SolveError::NonFinite);
                     }
                     break (candidate, trial);
-- 
2.43.0


From fbc616b3d2ac992385dcae3a6f7ffc697c4a22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 32/37] fix: least-squares solvers reported a residual norm
 that overflowed as a stationary point

---
 crates/multicalc/src/optimization/gauss_newton.rs        | 9 ++++++---
 crates/multicalc/src/optimization/levenberg_marquardt.rs | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index 1577141..a366c96 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -121,7 +121,7 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
 
     /// Minimizes `‖f(x)‖²` starting from `initial_guess`.
     ///
-    /// Errors: [`NonFinite`](SolveError::NonFinite) on a non-finite residual or Jacobian,
+    /// Errors: [`NonFinite`](SolveError::NonFinite) on a non-finite residual, residual norm or Jacobian,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Underdetermined`](crate::error::LinalgError::Underdetermined)
     /// if there are fewer residuals than parameters, [`Linalg`](SolveError::Linalg) wrapping
     /// [`Singular`](crate::error::LinalgError::Singular) if a step hits a rank-deficient Jacobian, or
@@ -146,6 +146,9 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
             return Err(SolveError::NonFinite);
         }
         let mut fnorm = enorm(&residuals);
+        if !fnorm.is_finite() {
+            return Err(SolveError::NonFinite);
+        }
         let mut evaluations = 1usize;
 
         for _ in 0..self.patience {
@@ -186,12 +189,12 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
                     core::array::from_fn(|k| x[k] - alpha * step_arr[k]);
                 let trial = f.eval(&candidate);
                 evaluations += 1;
-                let finite = is_finite(&trial);
-                let candidate_fnorm = if finite {
+                let candidate_fnorm = if is_finite(&trial) {
                     enorm(&trial)
                 } else {
                     D::Scalar::INFINITY
                 };
+                let finite = candidate_fnorm.is_finite();
 
                 if !self.backtracking {
                     if !finite {
diff --git a/crates/multicalc/src/optimization/levenberg_marquardt.rs b/crates/multicalc/src/optimization/levenberg_marquardt.rs
index e1ef9ab..3aa3163 100644
--- a/crates/multicalc/src/optimization/levenberg_marquardt.rs
+++ b/crates/multicalc/src/optimization/levenberg_marquardt.rs
@@ -126,8 +126,8 @@ impl<D: DerivatorMultiVariable> LevenbergMarquardt<D> {
     /// Minimizes `‖f(x)‖²` starting from `initial_guess`.
     ///
     /// Returns the converged point and which test stopped it, or a
-    /// [`SolveError`]: [`NonFinite`](SolveError::NonFinite) if a residual or Jacobian is
-    /// non-finite, [`Linalg`](SolveError::Linalg) wrapping [`Underdetermined`](crate::error::LinalgError::Underdetermined)
+    /// [`SolveError`]: [`NonFinite`](SolveError::NonFinite) if a residual, their norm or the
+    /// Jacobian is non-finite, [`Linalg`](SolveError::Linalg) wrapping [`Underdetermined`](crate::error::LinalgError::Underdetermined)
     /// if there are fewer residuals than parameters, or [`DidNotConverge`](SolveError::DidNotConverge)
     /// if the budget runs out.
     pub fn minimize<F, const N: usize, const M: usize>(
@@ -155,6 +155,9 @@ impl<D: DerivatorMultiVariable> LevenbergMarquardt<D> {
             return Err(SolveError::NonFinite);
         }
         let mut fnorm = enorm(&residuals);
+        if !fnorm.is_finite() {
+            return Err(SolveError::NonFinite);
+        }
 
         let mut diag = [zero; N];
         let mut delta = zero;
-- 
2.43.0


From 290c8c0ab0438a84627e461b8b702f3d9614c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 33/37] fix: Gauss-Newton reported an infinite step off a
 nearly flat residual as convergence

---
 crates/multicalc/src/optimization/gauss_newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index a366c96..a9cf6cc 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -194,7 +194,7 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
                 } else {
                     D::Scalar::INFINITY
                 };
-                let finite = candidate_fnorm.is_finite();
+                let finite = candidate_fnorm.is_finite() && is_finite(&candidate);
 
                 if !self.backtracking {
                     if !finite {
-- 
2.43.0


From b4606019019945f209dd1f0c0c529f1c6a59b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 34/37] fix: a refused error-state predict leaves the estimate
 as it was

---
 crates/multicalc/src/estimation/error_state_kalman_filter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/estimation/error_state_kalman_filter.rs b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
index 822956b..54e2a39 100644
--- a/crates/multicalc/src/estimation/error_state_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
@@ -547,11 +547,14 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
             return Err(EstimationError::NonFinite);
         }
 
-        self.nominal_state = propagated;
+        let previous_covariance = self.covariance;
         self.propagate_covariance(transition, timestep);
         if !self.covariance.is_finite() {
+            // A refused step leaves the estimate as it was.
+            self.covariance = previous_covariance;
             return Err(EstimationError::NonFinite);
         }
+        self.nominal_state = propagated;
         Ok(())
     }
 
-- 
2.43.0


From 5d4ecd859a5050ceddae300153de7631e77625f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:42 +0000
Subject: [PATCH 35/37] fix: a north along up is not a usable pair of reference
 directions

---
 crates/multicalc/src/estimation/madgwick_filter.rs | 4 ++++
 crates/multicalc/src/estimation/mahony_filter.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/multicalc/src/estimation/madgwick_filter.rs b/crates/multicalc/src/estimation/madgwick_filter.rs
index 87f0acd..bc63684 100644
--- a/crates/multicalc/src/estimation/madgwick_filter.rs
+++ b/crates/multicalc/src/estimation/madgwick_filter.rs
@@ -124,6 +124,10 @@ impl<T: Numeric> MadgwickFilter<T> {
             return self;
         };
         let levelled = north_reference - upward * north_reference.dot(upward);
+        // A north along up levels to nothing but rounding.
+        if levelled.norm() <= north_reference.norm() * T::EPSILON * T::from_f64(16.0) {
+            return self;
+        }
         let Some(north) = levelled.try_normalized() else {
             return self;
         };
diff --git a/crates/multicalc/src/estimation/mahony_filter.rs b/crates/multicalc/src/estimation/mahony_filter.rs
index 5bb30a3..ebb5797 100644
--- a/crates/multicalc/src/estimation/mahony_filter.rs
+++ b/crates/multicalc/src/estimation/mahony_filter.rs
@@ -120,6 +120,10 @@ impl<T: Numeric> MahonyFilter<T> {
             return self;
         };
         let levelled = north_reference - upward * north_reference.dot(upward);
+        // A north along up levels to nothing but rounding.
+        if levelled.norm() <= north_reference.norm() * T::EPSILON * T::from_f64(16.0) {
+            return self;
+        }
         let Some(north) = levelled.try_normalized() else {
             return self;
         };
-- 
2.43.0


From 6f388740bff2ff4ae193b21ffe0dea2c878e9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 36/37] fix: a particle with no weight could be drawn when
 resampling

A draw of exactly zero, or weights whose rounded total falls short of the draw,
picked the first or the last particle even when its weight was nought.
---
 .../src/estimation/particle_filter.rs         | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..addc712 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -89,11 +89,12 @@ fn systematic<T: RandomScalar, R: RandomSource<T>>(
     // Picks sit at one-stratum spacing, all shifted by the same offset. Walk a running total of the
     // weights and place each pick on the first source whose total reaches it, so heavier sources,
     // which span more of the line, catch more picks.
+    let last = last_possible(weights);
     let mut running_sum = weights[0];
     let mut source = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let position = (offset + T::from_usize(step)) / count_scalar;
-        while position >= running_sum && source + 1 < count {
+        while position >= running_sum && source < last {
             source += 1;
             running_sum += weights[source];
         }
@@ -112,12 +113,13 @@ fn stratified<T: RandomScalar, R: RandomSource<T>>(
 
     // Same walk as systematic, but each stratum gets its own random offset instead of sharing one,
     // so the picks are still one per stratum but jittered independently within them.
+    let last = last_possible(weights);
     let mut running_sum = weights[0];
     let mut source = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let offset = random.next_unit();
         let position = (offset + T::from_usize(step)) / count_scalar;
-        while position >= running_sum && source + 1 < count {
+        while position >= running_sum && source < last {
             source += 1;
             running_sum += weights[source];
         }
@@ -174,20 +176,30 @@ fn residual<T: RandomScalar, R: RandomSource<T>>(
     }
 }
 
-/// The smallest source whose cumulative weight reaches `draw`.
+/// The last source with any weight, where a walk along the weights ends even when their rounded
+/// total falls short of the draw.
+#[must_use]
+fn last_possible<T: Numeric>(weights: &[T]) -> usize {
+    weights
+        .iter()
+        .rposition(|&weight| weight > T::ZERO)
+        .unwrap_or(weights.len() - 1)
+}
+
+/// The smallest source with any weight whose cumulative weight reaches `draw`.
 #[must_use]
 fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
     for (source, &weight) in weights.iter().enumerate() {
         running_sum += weight;
-        if running_sum >= draw {
+        if weight > T::ZERO && running_sum >= draw {
             return source;
         }
     }
-    weights.len() - 1
+    last_possible(weights)
 }
 
-/// The smallest source whose cumulative fractional remainder reaches `draw`.
+/// The smallest source with any remainder whose cumulative fractional remainder reaches `draw`.
 #[must_use]
 fn draw_from_remainders<T: Numeric>(
     weights: &[T],
@@ -196,14 +208,19 @@ fn draw_from_remainders<T: Numeric>(
     draw: T,
 ) -> usize {
     let mut running_sum = T::ZERO;
+    let mut last = last_possible(weights);
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
-        running_sum += (scaled - scaled.floor()) / remainder_sum;
-        if running_sum >= draw {
-            return source;
+        let remainder = scaled - scaled.floor();
+        running_sum += remainder / remainder_sum;
+        if remainder > T::ZERO {
+            last = source;
+            if running_sum >= draw {
+                return source;
+            }
         }
     }
-    weights.len() - 1
+    last
 }
 
 /// Logs a normalized weight without letting linear underflow make it permanently impossible.
-- 
2.43.0


From cfd02f2c1e3f64ee010b071f4becf7f19bff9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 37/37] fix: a refused particle weighing leaves the weights as
 they were

A score that is not a number made normalize_and_resample overwrite every weight
with NaN before reporting WeightsDegenerate, so the cloud never recovered.
---
 .../multicalc/src/estimation/particle_filter.rs   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index addc712..0594dbc 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -653,12 +653,13 @@ where
             return Err(EstimationError::WeightsDegenerate);
         }
 
-        // Back to plain weights, measured relative to the heaviest particle, and total them.
+        // Back to plain weights, measured relative to the heaviest particle, and total them. They stay
+        // in the scratch buffer until the total is known to be usable, so a refused update leaves the
+        // cloud's weights as they were.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
-            sum += weight;
+        for scratch in self.log_weight_scratch.iter_mut() {
+            *scratch = (*scratch - largest).exp();
+            sum += *scratch;
         }
 
         // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated.
@@ -667,8 +668,8 @@ where
         }
 
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, &scratch) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = scratch / sum;
         }
 
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
-- 
2.43.0

