From 0df8c8fa370b4e00e0f63de6c61a9b1450a23fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 01/46] fix: compare the correspondences of both kinematic
 observations in operator==

---
 rct_optimizations/include/rct_optimizations/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..12c5d79 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -146,7 +146,7 @@ struct KinematicObservation
   inline bool operator==(const KinematicObservation& rhs) const
   {
     return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
-- 
2.43.0


From 83af84cd13c2293220f5c84c32894f71ec3a760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 02/46] fix: scale points with negative depth when projecting
 an Eigen point

---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..b6b6b67 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z()) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From 7620c242bbc00ae6f44804196ec3e8485dacb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 03/46] fix: decode the orientation of a serialized hand eye
 result in the order it was encoded

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..d52ee2a 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -8,9 +8,9 @@ namespace
 template <typename FloatT>
 Eigen::Transform<FloatT, 3, Eigen::Isometry> toIsometry(const Eigen::Vector3d& trans, const Eigen::Vector3d& euler_zyx)
 {
-  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitZ()) *
+  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitZ()) *
          Eigen::AngleAxisd(euler_zyx(1), Eigen::Vector3d::UnitY()) *
-         Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitX());
+         Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitX());
 }
 }  // namespace
 
-- 
2.43.0


From 30e506957214569eeeca8e15a8843c7a1377a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 04/46] fix: report zero, not one, as the standard deviation of
 a parameter without variance

---
 .../src/rct_optimizations/covariance_analysis.cpp        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..8bcb0a1 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -24,12 +24,11 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
-        if (sigma_j < std::numeric_limits<double>::epsilon())
-          sigma_j = 1;
+        // Avoid dividing by zero without altering sigma_i, which is reported in the diagonal element
+        const double scale_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
+        const double scale_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (scale_i * scale_j);
       }
     }
   }
-- 
2.43.0


From 313d7169b2fe90200f387f9eccafce83b7262a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 05/46] fix: throw instead of aborting for the covariance of a
 parameter block without observations

---
 .../src/rct_optimizations/covariance_analysis.cpp          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 8bcb0a1..35dc578 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -109,6 +109,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::map<const double*, std::vector<std::string>> dummy_param_names;
   for (std::size_t block_index = 0; block_index < parameter_blocks.size(); block_index++)
   {
+    if (!problem.HasParameterBlock(parameter_blocks[block_index]))
+      throw CovarianceException("Cannot compute the covariance of a parameter block that is not part of the problem");
+
     int size = problem.ParameterBlockSize(parameter_blocks[block_index]);
     std::vector<std::string> block_names;
     for (int i = 0; i < size; i++)
@@ -152,6 +155,10 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
+    // Ceres aborts the process when asked about a parameter block that is not part of the problem
+    if (!problem.HasParameterBlock(b))
+      throw CovarianceException("Cannot compute the covariance of a parameter block that is not part of the problem");
+
     int block_size = problem.ParameterBlockSize(b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
-- 
2.43.0


From de42be4b62b7fed57b027b6839fa0cc6ab514d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 06/46] fix: solve PnP from a guess without rotation, where the
 cost function was not differentiable

---
 .../src/rct_optimizations/pnp.cpp             | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..bdb96c2 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,15 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: unlike the norm of the angle axis vector, this is differentiable at zero rotation
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +56,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: unlike the norm of the angle axis vector, this is differentiable at zero rotation
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From b202e9e68236e8d15fdf244db822813f0a984479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 07/46] fix: label pose covariances in the order in which a
 pose is parameterized

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 .../rct_optimizations/extrinsic_multi_static_camera_only.h    | 2 +-
 .../extrinsic_multi_static_camera_wrist_only.h                | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
index b369a08..f94922d 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
@@ -49,7 +49,7 @@ struct ExtrinsicMultiStaticCameraOnlyProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_base_to_target = "base_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
index 8b9de11..00c0ebd 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
@@ -50,7 +50,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem
    */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 9c02d71d0e160653cc2db660831ed7888ec7c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 08/46] fix: report the covariance of the circle radius instead
 of its square root

---
 rct_optimizations/src/rct_optimizations/circle_fit.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/circle_fit.cpp b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
index 706afe6..a19131c 100644
--- a/rct_optimizations/src/rct_optimizations/circle_fit.cpp
+++ b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
@@ -46,7 +46,13 @@ rct_optimizations::CircleFitResult rct_optimizations::optimize(const rct_optimiz
   result.radius = pow(circle_params[2], 2);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
-  result.covariance = rct_optimizations::computeCovariance(problem, param_block_labels);
+
+  // The optimization variable is the square root of the radius: convert its covariance to that of the radius
+  const rct_optimizations::CovarianceResult sqrt_covariance =
+      rct_optimizations::computeCovariance(problem, param_block_labels);
+  const Eigen::Vector3d scale(1.0, 1.0, 2.0 * circle_params[2]);
+  result.covariance = rct_optimizations::computeCovarianceResults(
+      scale.asDiagonal() * sqrt_covariance.covariance_matrix * scale.asDiagonal(), params.labels);
 
   return result;
 }
-- 
2.43.0


From f0955879b9b3adefd2bdf8dbe80bdf1ebf6bdeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 09/46] fix: keep joint names and limits in a chain with DH
 offsets and refuse missing offsets

---
 .../src/rct_optimizations/dh_chain.cpp              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..7065901 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -1,5 +1,6 @@
 #include <rct_optimizations/dh_chain.h>
 #include <random>
+#include <sstream>
 
 namespace rct_optimizations
 {
@@ -53,11 +54,19 @@ DHChain::DHChain(std::vector<DHTransform> transforms, const Eigen::Isometry3d& b
 
 DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
 {
+  if (static_cast<std::size_t>(dh_offsets.rows()) < other.dof())
+  {
+    std::stringstream ss;
+    ss << "Number of DH offsets (" << dh_offsets.rows() << ") is smaller than the chain DoF (" << other.dof() << ")";
+    throw std::runtime_error(ss.str());
+  }
+
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    DHTransform transform = other.transforms_.at(i);
+    transform.params += dh_offsets.row(i).transpose();
+    transforms_.push_back(transform);
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From 117da71e38189f16bd6e1d9efe189c43583f4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 10/46] fix: sample distinct correspondences for the homography
 validation

---
 .../validation/homography_validation.cpp          | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..5d76725 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -1,5 +1,7 @@
 #include <rct_optimizations/validation/homography_validation.h>
 #include <Eigen/Dense>
+#include <algorithm>
+#include <numeric>
 #include <rct_optimizations/types.h>
 
 namespace rct_optimizations
@@ -63,14 +65,13 @@ RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n_cor
 
 std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const
 {
-  // Create a random number generator with a uniform distribution across all indices
-  std::mt19937 rand_gen(seed);
-  std::uniform_int_distribution<std::size_t> dist(0, n_correspondences - 1);
-  auto fn = [&rand_gen, &dist]() -> std::size_t { return dist(rand_gen); };
+  // Choose indices without replacement because repeated correspondences do not constrain the homography
+  std::vector<std::size_t> output(n_correspondences);
+  std::iota(output.begin(), output.end(), 0);
 
-  // Generate a vector of 4 random correspondence indices
-  std::vector<std::size_t> output(n_samples);
-  std::generate(output.begin(), output.end(), fn);
+  std::mt19937 rand_gen(seed);
+  std::shuffle(output.begin(), output.end(), rand_gen);
+  output.resize(n_samples);
 
   return output;
 }
-- 
2.43.0


From 344135ca978eb37221d78a54a56a070806942da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 11/46] fix: refuse to sample the corners of a grid with a
 single row or column

---
 .../rct_optimizations/validation/homography_validation.cpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index 5d76725..cab437c 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -26,6 +26,10 @@ std::vector<std::size_t> GridCorrespondenceSampler::getSampleCorrespondenceIndic
     throw std::runtime_error(ss.str());
   }
 
+  // The corners of a single row or column are not distinct and do not define a homography
+  if (rows < 2 || cols < 2)
+    throw std::runtime_error("A grid must have at least two rows and two columns to sample its corners");
+
   std::vector<std::size_t> correspondence_indices;
   correspondence_indices.reserve(n_samples);
 
-- 
2.43.0


From 2ec64c101db2fd91628c8989fdc44b5a66efb488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 12/46] fix: refuse an empty set of observations in the
 intrinsic calibration validation

---
 .../validation/camera_intrinsic_calibration_validation.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..0d1eb68 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -66,6 +66,9 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
 {
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
+  if (observations.empty())
+    throw OptimizationException("No observations were provided");
+
   for (std::size_t i = 0; i < observations.size() - 1; ++i)
   {
     const Observation2D3D& obs_1 = observations[i];
-- 
2.43.0


From 32dcdd32a3f71698ce349425cc7345f4c71defe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 13/46] fix: do not abort intrinsic calibration when the pose
 of an image cannot be estimated

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..1cf6cac 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -235,7 +235,8 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  // Only images for which a pose could be estimated are part of the problem
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
-- 
2.43.0


From 56f7fd799b9dd754733d9d5fc083f156665e372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 14/46] fix: return the estimated target poses of the intrinsic
 calibration

---
 .../src/rct_optimizations/camera_intrinsic.cpp              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 1cf6cac..0e13c07 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -272,6 +272,12 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
+  // Images for which no pose could be estimated have an undefined transform
+  result.target_transforms.assign(
+      internal_poses.size(), Eigen::Isometry3d(Eigen::Matrix4d::Constant(std::numeric_limits<double>::quiet_NaN())));
+  for (std::size_t i : valid_idx)
+    result.target_transforms[i] = poseCalToEigen(internal_poses[i]);
+
   result.covariance = rct_optimizations::computeCovariance(problem, param_blocks, param_labels);
 
   return result;
-- 
2.43.0


From 758682f594ef039107fdd52d690356f2ed9ded1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 15/46] fix: use the extrinsic guesses given to the intrinsic
 calibration

---
 .../rct_optimizations/experimental/camera_intrinsic.h    | 2 +-
 .../src/rct_optimizations/camera_intrinsic.cpp           | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index 7444477..a2578ce 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -11,7 +11,7 @@ struct IntrinsicEstimationProblem
 {
   std::vector<Correspondence2D3D::Set> image_observations;
   CameraIntrinsics intrinsics_guess;
-  bool use_extrinsic_guesses;
+  bool use_extrinsic_guesses = false;
   std::vector<Eigen::Isometry3d> extrinsic_guesses;
 
   std::string label_extr = "pose";
diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 0e13c07..c6e3e3b 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -192,12 +192,17 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   std::vector<Pose6d> internal_poses(params.image_observations.size());
   std::vector<std::size_t> valid_idx;
 
-  // All of the target poses are seeded to be "in front of" and "looking at" the camera
+  if (params.use_extrinsic_guesses && params.extrinsic_guesses.size() != params.image_observations.size())
+    throw OptimizationException("Number of extrinsic guesses does not match the number of images");
+
+  // Unless guesses are provided, all of the target poses are seeded to be "in front of" and "looking at" the camera
   for (std::size_t i = 0; i < params.image_observations.size(); ++i)
   {
     try
     {
-      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guessInitialPose());
+      const Pose6d guess =
+          params.use_extrinsic_guesses ? poseEigenToCal(params.extrinsic_guesses[i]) : guessInitialPose();
+      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guess);
       valid_idx.push_back(i);
     }
     catch (const std::exception&)
-- 
2.43.0


From 8986bcae343f8f2bfd8c75c0171721174eb87b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 16/46] fix: report the covariance of the camera mount to
 camera transform instead of its inverse

---
 .../rct_optimizations/ceres_math_utilities.h  | 10 +++++
 .../rct_optimizations/extrinsic_hand_eye.cpp  | 42 +++++++++----------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index b6b6b67..913dd2d 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -16,6 +16,16 @@ inline void transformPoint(const T angle_axis[3], const T tx[3], const T point[3
   t_point[2] = t_point[2] + tx[2];
 }
 
+/** @brief Transforms a point by the inverse of the input transform */
+template <typename T>
+inline void inverseTransformPoint(const T angle_axis[3], const T tx[3], const T point[3], T t_point[3])
+{
+  const T inverse_angle_axis[3] = { -angle_axis[0], -angle_axis[1], -angle_axis[2] };
+  const T relative_point[3] = { point[0] - tx[0], point[1] - tx[1], point[2] - tx[2] };
+
+  ceres::AngleAxisRotatePoint(inverse_angle_axis, relative_point, t_point);
+}
+
 template <typename T>
 inline void poseTransformPoint(const Pose6d& pose, const T point[3], T t_point[3])
 {
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
index d6b418c..f2689c6 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
@@ -36,15 +36,15 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const;
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const;
 
   template <typename T>
-  void getTargetPointInCamera(const T* pose_camera_to_camera_mount,
+  void getTargetPointInCamera(const T* pose_camera_mount_to_camera,
                               const T* pose_target_mount_to_target,
                               T* camera_point) const
   {
-    const T* camera_angle_axis = pose_camera_to_camera_mount + 0;
-    const T* camera_position = pose_camera_to_camera_mount + 3;
+    const T* camera_angle_axis = pose_camera_mount_to_camera + 0;
+    const T* camera_position = pose_camera_mount_to_camera + 3;
 
     const T* target_angle_axis = pose_target_mount_to_target + 0;
     const T* target_position = pose_target_mount_to_target + 3;
@@ -61,7 +61,7 @@ public:
     transformPoint(target_angle_axis, target_position, target_pt, target_mount_point);
     poseTransformPoint(base_to_target_mount_, target_mount_point, world_point);
     poseTransformPoint(camera_mount_to_base_, world_point, camera_mount_point);
-    transformPoint(camera_angle_axis, camera_position, camera_mount_point, camera_point);
+    inverseTransformPoint(camera_angle_axis, camera_position, camera_mount_point, camera_point);
   }
 
 protected:
@@ -87,11 +87,11 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const
   {
     // Get the point in the frame of the camera
     T camera_point[3];
-    getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+    getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
     // Project the point into the image
     T xy_image[2];
@@ -117,11 +117,11 @@ public:
   using ObservationCost<3>::ObservationCost;
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const
   {
     // Get the target point in the frame of the camera
     T camera_point[3];
-    getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+    getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
     // Calculate the residual error
     residual[0] = camera_point[0] - obs_.x();
@@ -132,15 +132,15 @@ public:
   }
 };
 
-bool isPointVisible(const Pose6d& camera_to_camera_mount,
+bool isPointVisible(const Pose6d& camera_mount_to_camera,
                     const Pose6d& target_mount_to_target,
                     const ObservationCost2D3D* cost_fn)
 {
-  const double* pose_camera_to_camera_mount = camera_to_camera_mount.values.data();
+  const double* pose_camera_mount_to_camera = camera_mount_to_camera.values.data();
   const double* pose_target_mount_to_target = target_mount_to_target.values.data();
 
   double camera_point[3];
-  cost_fn->getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+  cost_fn->getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
   // Return whether or not the projected point's Z value is greater than zero
   return camera_point[2] > 0.0;
@@ -153,7 +153,7 @@ namespace rct_optimizations
 ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 {
   Pose6d internal_base_to_target = poseEigenToCal(params.target_mount_to_target_guess);
-  Pose6d internal_camera_to_wrist = poseEigenToCal(params.camera_mount_to_camera_guess.inverse());
+  Pose6d internal_wrist_to_camera = poseEigenToCal(params.camera_mount_to_camera_guess);
 
   ceres::Problem problem;
 
@@ -175,7 +175,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 
       // Check that the target feature in camera coordinates is visible by the camera
       // Target features that project behind the camera tend to prevent the optimization from converging
-      if (!isPointVisible(internal_camera_to_wrist, internal_base_to_target, cost_fn))
+      if (!isPointVisible(internal_wrist_to_camera, internal_base_to_target, cost_fn))
       {
         throw std::runtime_error("Projected target feature lies behind the image plane using the "
                                  "current target mount and camera mount transform guesses. Try updating the initial "
@@ -183,7 +183,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
       }
 
       problem.AddResidualBlock(
-          cost_block, NULL, internal_camera_to_wrist.values.data(), internal_base_to_target.values.data());
+          cost_block, NULL, internal_wrist_to_camera.values.data(), internal_base_to_target.values.data());
     }
   }
 
@@ -196,7 +196,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
   ExtrinsicHandEyeResult result;
   result.converged = summary.termination_type == ceres::CONVERGENCE;
   result.target_mount_to_target = poseCalToEigen(internal_base_to_target);
-  result.camera_mount_to_camera = poseCalToEigen(internal_camera_to_wrist).inverse();
+  result.camera_mount_to_camera = poseCalToEigen(internal_wrist_to_camera);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
@@ -215,7 +215,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
   }
 
   std::map<const double*, std::vector<std::string>> param_labels;
-  param_labels[internal_camera_to_wrist.values.data()] = labels_camera_mount_to_camera;
+  param_labels[internal_wrist_to_camera.values.data()] = labels_camera_mount_to_camera;
   param_labels[internal_base_to_target.values.data()] = labels_target_mount_to_target;
 
   result.covariance = rct_optimizations::computeCovariance(problem, param_labels);
@@ -226,7 +226,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
 {
   Pose6d internal_base_to_target = poseEigenToCal(params.target_mount_to_target_guess);
-  Pose6d internal_camera_to_wrist = poseEigenToCal(params.camera_mount_to_camera_guess.inverse());
+  Pose6d internal_wrist_to_camera = poseEigenToCal(params.camera_mount_to_camera_guess);
 
   ceres::Problem problem;
 
@@ -246,7 +246,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
       auto* cost_block = new ceres::AutoDiffCostFunction<ObservationCost3D3D, 3, 6, 6>(cost_fn);
 
       problem.AddResidualBlock(
-          cost_block, NULL, internal_camera_to_wrist.values.data(), internal_base_to_target.values.data());
+          cost_block, NULL, internal_wrist_to_camera.values.data(), internal_base_to_target.values.data());
     }
   }
 
@@ -258,7 +258,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
   ExtrinsicHandEyeResult result;
   result.converged = summary.termination_type == ceres::CONVERGENCE;
   result.target_mount_to_target = poseCalToEigen(internal_base_to_target);
-  result.camera_mount_to_camera = poseCalToEigen(internal_camera_to_wrist).inverse();
+  result.camera_mount_to_camera = poseCalToEigen(internal_wrist_to_camera);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
@@ -277,7 +277,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
   }
 
   std::map<const double*, std::vector<std::string>> param_labels;
-  param_labels[internal_camera_to_wrist.values.data()] = labels_camera_mount_to_camera;
+  param_labels[internal_wrist_to_camera.values.data()] = labels_camera_mount_to_camera;
   param_labels[internal_base_to_target.values.data()] = labels_target_mount_to_target;
 
   result.covariance = rct_optimizations::computeCovariance(problem, param_labels);
-- 
2.43.0


From e71bc2cb1f852947c5a4a21c73e774ebd0635639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 17/46] fix: report the covariance of the base to camera
 transforms instead of their inverses

---
 .../extrinsic_multi_static_camera.cpp         | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
index fe1d98d..eff79cf 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
@@ -23,10 +23,10 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* const pose_camera_to_base, const T* pose_wrist_to_target, T* residual) const
+  bool operator()(const T* const pose_base_to_camera, const T* pose_wrist_to_target, T* residual) const
   {
-    const T* camera_angle_axis = pose_camera_to_base + 0;
-    const T* camera_position = pose_camera_to_base + 3;
+    const T* camera_angle_axis = pose_base_to_camera + 0;
+    const T* camera_position = pose_base_to_camera + 3;
 
     const T* target_angle_axis = pose_wrist_to_target + 0;
     const T* target_position = pose_wrist_to_target + 3;
@@ -43,7 +43,7 @@ public:
 
     transformPoint(target_angle_axis, target_position, target_pt, link_point);
     poseTransformPoint(wrist_pose_, link_point, world_point);
-    transformPoint(camera_angle_axis, camera_position, world_point, camera_point);
+    inverseTransformPoint(camera_angle_axis, camera_position, world_point, camera_point);
 
     // Compute projected point into image plane and compute residual
     T xy_image[2];
@@ -69,15 +69,15 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
 {
   Pose6d internal_wrist_to_target = poseEigenToCal(params.wrist_to_target_guess);
 
-  std::vector<Pose6d> internal_camera_to_base;
-  internal_camera_to_base.resize(params.base_to_camera_guess.size());
+  std::vector<Pose6d> internal_base_to_camera;
+  internal_base_to_camera.resize(params.base_to_camera_guess.size());
 
   ceres::Problem problem;
 
   for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
   {
     assert(params.image_observations[c].size() == params.wrist_poses[c].size());
-    internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());
+    internal_base_to_camera[c] = poseEigenToCal(params.base_to_camera_guess[c]);
     for (std::size_t i = 0; i < params.wrist_poses[c].size(); ++i)  // For each wrist pose / image set
     {
       for (std::size_t j = 0; j < params.image_observations[c][i].size();
@@ -96,7 +96,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
         auto* cost_block = new ceres::AutoDiffCostFunction<ReprojectionCost, 2, 6, 6>(cost_fn);
 
         problem.AddResidualBlock(
-            cost_block, NULL, internal_camera_to_base[c].values.data(), internal_wrist_to_target.values.data());
+            cost_block, NULL, internal_base_to_camera[c].values.data(), internal_wrist_to_target.values.data());
       }
     }  // for each wrist pose
   }    // end for each camera
@@ -111,24 +111,24 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
   result.converged = summary.termination_type == ceres::CONVERGENCE;
 
   for (std::size_t i = 0; i < params.base_to_camera_guess.size(); ++i)
-    result.base_to_camera[i] = poseCalToEigen(internal_camera_to_base[i]).inverse();
+    result.base_to_camera[i] = poseCalToEigen(internal_base_to_camera[i]);
 
   result.wrist_to_target = poseCalToEigen(internal_wrist_to_target);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
   // collect parameter blocks so that order is consistent with labels
-  std::vector<const double*> param_blocks(internal_camera_to_base.size());
-  for (std::size_t c = 0; c < internal_camera_to_base.size(); c++)
+  std::vector<const double*> param_blocks(internal_base_to_camera.size());
+  for (std::size_t c = 0; c < internal_base_to_camera.size(); c++)
   {
-    param_blocks[c] = internal_camera_to_base[c].values.data();
+    param_blocks[c] = internal_base_to_camera[c].values.data();
   }
   param_blocks.push_back(internal_wrist_to_target.values.data());
 
   std::map<const double*, std::vector<std::string>> param_labels;
 
   // compose labels "camera_mount_to_camera_x", etc.
-  for (std::size_t index_camera = 0; index_camera < internal_camera_to_base.size(); index_camera++)
+  for (std::size_t index_camera = 0; index_camera < internal_base_to_camera.size(); index_camera++)
   {
     std::vector<std::string> labels_base_to_camera;
     for (auto label_isometry : params.labels_isometry3d)
@@ -136,7 +136,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
       labels_base_to_camera.emplace_back(params.label_base_to_camera + std::to_string(index_camera) + "_" +
                                          label_isometry);
     }
-    param_labels[internal_camera_to_base[index_camera].values.data()] = labels_base_to_camera;
+    param_labels[internal_base_to_camera[index_camera].values.data()] = labels_base_to_camera;
   }
 
   // compose labels "target_mount_to_target_x", etc.
-- 
2.43.0


From f040d733a7847a51a3a14c912c87354d52a5c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 18/46] fix: compare kinematic observations with different
 numbers of joints as unequal

---
 rct_optimizations/include/rct_optimizations/types.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index 12c5d79..69f33c5 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,7 +145,9 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
@@ -178,7 +180,9 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
-- 
2.43.0


From 4a72eff9f2fb57a358ab8681670fc98b9b5b395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 19/46] fix: refuse parameter names that do not fit the
 covariance matrix

---
 .../src/rct_optimizations/covariance_analysis.cpp              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 35dc578..8d6b811 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -39,6 +39,9 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
 CovarianceResult computeCovarianceResults(const Eigen::MatrixXd& cov_matrix,
                                           const std::vector<std::string>& parameter_names)
 {
+  if (static_cast<std::size_t>(cov_matrix.rows()) != parameter_names.size())
+    throw CovarianceException("Number of parameter names does not match the size of the covariance matrix");
+
   // 0. Save original covariance matrix output
   // For parameter blocks [p1, p2], the structure of this matrix will be:
   /*    |     p1    |     p2    |
-- 
2.43.0


From 6afef83c101b571138a417614a9478f4f4f2e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:50 +0000
Subject: [PATCH 20/46] fix: refuse a DH chain document whose dh_transforms is
 not a list

A scalar, null or map in its place has size zero or no matching elements and was read as a chain without joints.
---
 .../include/rct_optimizations/serialization/types.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..f631374 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -134,6 +134,9 @@ struct convert<rct_optimizations::DHChain>
     val.base_offset_ = n["base_transform"].as<Eigen::Isometry3d>();
 
     const YAML::Node& transforms = n["dh_transforms"];
+    if (!transforms.IsSequence())
+      return false;
+
     val.transforms_.clear();
     val.transforms_.reserve(transforms.size());
     for (std::size_t i = 0; i < transforms.size(); i++)
-- 
2.43.0


From 46ebc4e964188110022f1b7856e34e8b298ad728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 21/46] fix: normalize the orientation of a pose read from a
 document

A pose near a half turn lost its orthonormality by a factor of about two in every write-read cycle.
---
 .../include/rct_optimizations/serialization/eigen.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/eigen.h b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
index 4017eac..93efe05 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/eigen.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
@@ -85,6 +85,9 @@ struct convert<Eigen::Transform<FloatT, 3, Eigen::Isometry>>
     quat.y() = node["qy"].as<FloatT>();
     quat.z() = node["qz"].as<FloatT>();
 
+    // Rounding errors in the quaternion would otherwise grow with every write-read cycle
+    quat.normalize();
+
     val = Eigen::Translation<FloatT, 3>(trans) * quat;
 
     return true;
-- 
2.43.0


From 5c1b80517da720b5882a63aa485cfd0689d254a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 22/46] fix: compare the marker dictionaries of targets

---
 .../src/rct_image_tools/aruco_grid_target.cpp       | 13 +++++++++++++
 .../src/rct_image_tools/charuco_grid_target.cpp     | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp b/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
index 60f5836..c64282a 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp
@@ -24,6 +24,18 @@ std::map<int, std::vector<Eigen::Vector3d>> mapArucoIdsToObjPts(const cv::Ptr<cv
   }
   return map_ids_to_corners;
 }
+
+/**
+ * @brief Checks whether two marker dictionaries are the same
+ * @param a
+ * @param b
+ * @return
+ */
+bool isSameDictionary(const cv::aruco::Dictionary& a, const cv::aruco::Dictionary& b)
+{
+  return a.markerSize == b.markerSize && a.bytesList.size() == b.bytesList.size() &&
+         a.bytesList.type() == b.bytesList.type() && cv::norm(a.bytesList, b.bytesList, cv::NORM_INF) == 0.0;
+}
 }  // namespace
 
 namespace rct_image_tools
@@ -58,6 +70,7 @@ bool ArucoGridTarget::operator==(const ArucoGridTarget& other) const
   equal &= (std::abs(other.board->getMarkerSeparation() - board->getMarkerSeparation()) <
             std::numeric_limits<float>::epsilon());
   equal &= other.points == points;
+  equal &= isSameDictionary(*other.board->dictionary, *board->dictionary);
   return equal;
 }
 
diff --git a/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp b/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
index efda68b..839e303 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp
@@ -19,6 +19,18 @@ std::map<unsigned, Eigen::Vector3d> mapCharucoIdsToObjPts(const cv::Ptr<cv::aruc
   }
   return points;
 }
+
+/**
+ * @brief Checks whether two marker dictionaries are the same
+ * @param a
+ * @param b
+ * @return
+ */
+bool isSameDictionary(const cv::aruco::Dictionary& a, const cv::aruco::Dictionary& b)
+{
+  return a.markerSize == b.markerSize && a.bytesList.size() == b.bytesList.size() &&
+         a.bytesList.type() == b.bytesList.type() && cv::norm(a.bytesList, b.bytesList, cv::NORM_INF) == 0.0;
+}
 }  // namespace
 
 namespace rct_image_tools
@@ -54,6 +66,7 @@ bool CharucoGridTarget::operator==(const CharucoGridTarget& other) const
       (std::abs(other.board->getSquareLength() - board->getSquareLength()) < std::numeric_limits<float>::epsilon());
   equal &= other_board_size.width == board_size.width;
   equal &= other_board_size.height == board_size.height;
+  equal &= isSameDictionary(*other.board->dictionary, *board->dictionary);
   return equal;
 }
 
-- 
2.43.0


From a3a172902362368fe08b4928f1924c3ee3e6f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 23/46] fix: refuse features that do not belong to the circle
 grid target

---
 .../rct_image_tools/modified_circle_grid_target.cpp   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
index 2364a5e..f7f8b5b 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
@@ -1,5 +1,8 @@
 #include "rct_image_tools/modified_circle_grid_target.h"
 
+#include <sstream>
+#include <stdexcept>
+
 namespace rct_image_tools
 {
 ModifiedCircleGridTarget::ModifiedCircleGridTarget(const unsigned rows_, const unsigned cols_, const double spacing_)
@@ -21,7 +24,13 @@ rct_optimizations::Correspondence2D3D::Set
 ModifiedCircleGridTarget::createCorrespondences(const TargetFeatures& target_features) const
 {
   std::vector<Eigen::Vector3d> target_points = createPoints();
-  assert(target_features.size() == target_points.size());
+  if (target_features.size() != target_points.size())
+  {
+    std::stringstream ss;
+    ss << "Number of target features (" << target_features.size() << ") does not match the number of circles in the "
+       << "target (" << target_points.size() << ")";
+    throw std::runtime_error(ss.str());
+  }
 
   rct_optimizations::Correspondence2D3D::Set correspondences;
   correspondences.reserve(target_features.size());
-- 
2.43.0


From 22f91d0a6c3ca56b5da55b98f0e7002d9fca40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 24/46] fix: draw target features on a copy of the image

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp   | 6 ++++--
 rct_image_tools/src/rct_image_tools/charuco_finder.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 528129c..563f75b 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -51,7 +51,9 @@ cv::Mat ArucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     });
     marker_corners.push_back(cv_obs);
   }
-  cv::aruco::drawDetectedMarkers(image, marker_corners, marker_ids);
-  return image;
+  // Draw on a copy, not on the image of the caller
+  cv::Mat output = image.clone();
+  cv::aruco::drawDetectedMarkers(output, marker_corners, marker_ids);
+  return output;
 }
 }  // namespace rct_image_tools
diff --git a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
index 0107117..1139560 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
@@ -64,10 +64,11 @@ cv::Mat CharucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     charuco_corners.push_back(cv::Point2f(pt.x(), pt.y()));
   }
 
-  // Draw the detected corners
-  cv::aruco::drawDetectedCornersCharuco(image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
+  // Draw the detected corners on a copy, not on the image of the caller
+  cv::Mat output = image.clone();
+  cv::aruco::drawDetectedCornersCharuco(output, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
 
-  return image;
+  return output;
 }
 
 }  // namespace rct_image_tools
-- 
2.43.0


From e4f83fc91d4e0ad4b9a1867f0520825e68c6f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 25/46] fix: ignore markers that are not part of the ArUco grid
 target

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 563f75b..73976a6 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -25,6 +25,10 @@ TargetFeatures ArucoGridBoardTargetFinder::findTargetFeatures(const cv::Mat& ima
 
   for (unsigned i = 0; i < marker_ids.size(); i++)
   {
+    // Skip markers from the same dictionary that are not part of the target
+    if (target_.points.find(marker_ids[i]) == target_.points.end())
+      continue;
+
     std::vector<cv::Point2f> corner_pts = marker_corners[i];
     VectorEigenVector<2> obs_pts(4);
 
-- 
2.43.0


From 450814544a783aece0ff5b6bcb11cf95cfec8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 26/46] fix: do not look up the color of circle centers outside
 of the image

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..8d131c8 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,11 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of the ellipse that fits an arc may lie outside of the image, where there is no color to check
+      const cv::Point center(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(cv::Point(0, 0), binarized_image.size()).contains(center))
+        continue;
+      if (binarized_image.at<uchar>(center) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From d162f764805a6bb9f21b97178edb3df44405e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 27/46] fix: let kinematic calibration change a rotation whose
 guess is zero, where the cost function had no derivative

---
 .../rct_optimizations/dh_chain_kinematic_calibration.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..3daac34 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -155,11 +155,11 @@ public:
 
     Isometry3<T> result = Isometry3<T>::Identity() * Eigen::Translation<T, 3>(t);
 
-    T aa_norm = aa.norm();
-    if (aa_norm > std::numeric_limits<T>::epsilon())
-    {
-      result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
-    }
+    // Note: unlike the norm of the angle axis vector, this is differentiable at zero rotation
+    Eigen::Matrix<T, 3, 3> rotation;
+    ceres::AngleAxisToRotationMatrix(aa.data(), rotation.data());
+    result.linear() = rotation;
+
     return result;
   }
 
-- 
2.43.0


From d7b1bc43a4bf966b4b11d8436dad5b1050f44dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 28/46] fix: refuse observations with more joint values than
 the chain has joints instead of aborting in the solver

---
 .../rct_optimizations/dh_chain_kinematic_calibration.h        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 3daac34..b56b46f 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -145,6 +145,10 @@ public:
     , target_chain_joints_(target_chain_joints)
 
   {
+    // The forward kinematics would throw in the threads of the solver, where the exception cannot be caught
+    if (static_cast<std::size_t>(camera_chain_joints_.size()) > camera_chain_.dof() ||
+        static_cast<std::size_t>(target_chain_joints_.size()) > target_chain_.dof())
+      throw OptimizationException("An observation has more joint values than its kinematic chain has joints");
   }
 
   template <typename T>
-- 
2.43.0


From de419289eae67e1b083f2fc22e68583f49772bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 29/46] fix: load a data set whose index file is in the working
 directory

---
 rct_ros_tools/src/data_set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09ae4e7..1448e65 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -11,7 +11,8 @@
 static std::string rootPath(const std::string& filename)
 {
   const auto last_idx = filename.find_last_of('/');
-  assert(last_idx != std::string::npos);
+  if (last_idx == std::string::npos)
+    return ".";
   return filename.substr(0, last_idx);
 }
 
-- 
2.43.0


From 0b4c4998fca16e9f47da1caf0cefd6a98abd28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 30/46] fix: refuse a data set index that is not a list

---
 rct_ros_tools/src/data_set.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 1448e65..c50a038 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -32,6 +32,10 @@ rct_ros_tools::ExtrinsicDataSet parse(const YAML::Node& root, const std::string&
 {
   rct_ros_tools::ExtrinsicDataSet data;
 
+  // An empty document is an empty data set
+  if (!root.IsSequence() && !root.IsNull())
+    throw YAML::RepresentationException(root.Mark(), "the data set is not a list of images and poses");
+
   for (std::size_t i = 0; i < root.size(); ++i)
   {
     // Each entry should have a pose and image path. This path is relative to the root_path directory!
-- 
2.43.0


From b582ccedb13c6bb4312e3f67eb5f11302e977a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 31/46] fix: report a data set that could not be saved, and do
 not leave its files under the index of an older one

---
 rct_ros_tools/src/data_set.cpp | 47 +++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index c50a038..2c389ee 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -7,6 +7,7 @@
 #include <opencv2/highgui.hpp>
 #include <ros/console.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 static std::string rootPath(const std::string& filename)
 {
@@ -78,14 +79,29 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
   }
 }
 
-void writePose(const std::string& path, const Eigen::Isometry3d& pose)
+bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
 {
   YAML::Node root(pose);
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return static_cast<bool>(ofh);
 }
 
-void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
+bool writeImage(const std::string& path, const cv::Mat& image)
+{
+  try
+  {
+    return cv::imwrite(path, image);
+  }
+  catch (const cv::Exception& ex)
+  {
+    ROS_ERROR_STREAM(ex.what());
+    return false;
+  }
+}
+
+bool writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
   YAML::Node root;
 
@@ -100,29 +116,46 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return static_cast<bool>(ofh);
 }
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
+  if (data.images.size() != data.tool_poses.size())
+  {
+    ROS_ERROR("Cannot save a data set in which not every image has a pose");
+    return false;
+  }
+
   mkdir(path.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/images").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/poses").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
 
+  // The index of a data set that is overwritten must not list the new files until all of them are written
+  unlink((path + "/data.yaml").c_str());
+
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
     auto name = path + "/images/" + std::to_string(i) + ".png";
-    cv::imwrite(name, data.images[i]);
+    if (!writeImage(name, data.images[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write image " << name);
+      return false;
+    }
   }
 
   for (std::size_t i = 0; i < data.tool_poses.size(); ++i)
   {
     auto name = path + "/poses/" + std::to_string(i) + ".yaml";
-    writePose(name, data.tool_poses[i]);
+    if (!writePose(name, data.tool_poses[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write pose " << name);
+      return false;
+    }
   }
 
-  writeDirectory(path + "/data.yaml", data);
-
-  return true;
+  return writeDirectory(path + "/data.yaml", data);
 }
 
 rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
-- 
2.43.0


From 63cf5b840e5fec6f275d6441a9262af78bcca5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 32/46] fix: do not assume that every camera of a
 correspondence data set took as many images as the first

---
 rct_ros_tools/src/data_set.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 2c389ee..99afba8 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -3,6 +3,7 @@
 #include <rct_image_tools/image_utils.h>
 #include <rct_optimizations/serialization/eigen.h>
 
+#include <algorithm>
 #include <fstream>
 #include <opencv2/highgui.hpp>
 #include <ros/console.h>
@@ -167,8 +168,13 @@ rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
   if (debug)
     cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
 
-  correspondences_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
-  mask_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
+  // A camera may have taken fewer images than the others
+  std::size_t image_count = 0;
+  for (const rct_ros_tools::ExtrinsicDataSet& data_set : extrinsic_data_set)
+    image_count = std::max(image_count, data_set.images.size());
+
+  correspondences_.resize(extrinsic_data_set.size(), image_count);
+  mask_.setZero(extrinsic_data_set.size(), image_count);
   for (std::size_t c = 0; c < extrinsic_data_set.size(); ++c)
   {
     // We know it exists, so define a helpful alias
-- 
2.43.0


From f7c933a4195b85d8a98403ec3adfa6c3f1a61989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 33/46] fix: refuse circle target sizes and detector parameters
 that are out of range instead of wrapping them

---
 rct_ros_tools/src/target_loader_plugins.cpp | 23 ++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/rct_ros_tools/src/target_loader_plugins.cpp b/rct_ros_tools/src/target_loader_plugins.cpp
index b8b613a..817d095 100644
--- a/rct_ros_tools/src/target_loader_plugins.cpp
+++ b/rct_ros_tools/src/target_loader_plugins.cpp
@@ -7,6 +7,8 @@
 #include <ros/console.h>
 #include <yaml-cpp/yaml.h>
 
+#include <limits>
+
 namespace
 {
 template <typename T>
@@ -29,6 +31,18 @@ T getMember(const YAML::Node& n, const std::string& key)
   }
 }
 
+/**
+ * @brief Load an integer member from a yaml node that must lie between 0 and a maximum value
+ * @throw std::runtime_error if it fails to be parsed or does not lie in that range
+ */
+int getCount(const YAML::Node& n, const std::string& key, const int max)
+{
+  const int value = getMember<int>(n, key);
+  if (value < 0 || value > max)
+    throw std::runtime_error("Parameter '" + key + "' must lie between 0 and " + std::to_string(max));
+  return value;
+}
+
 /**
  * @brief Load CircleDetector parameters from a yaml node.
  * @param node
@@ -39,16 +53,16 @@ rct_image_tools::CircleDetectorParams loadCircleDetectorParams(const YAML::Node&
 {
   rct_image_tools::CircleDetectorParams p;
 
-  p.nThresholds = getMember<decltype(p.nThresholds)>(node, "nThresholds");
+  p.nThresholds = getCount(node, "nThresholds", std::numeric_limits<int>::max());
   p.minThreshold = getMember<decltype(p.minThreshold)>(node, "minThreshold");
   p.maxThreshold = getMember<decltype(p.maxThreshold)>(node, "maxThreshold");
-  p.minRepeatability = getMember<decltype(p.minRepeatability)>(node, "minRepeatability");
+  p.minRepeatability = getCount(node, "minRepeatability", std::numeric_limits<int>::max());
   p.circleInclusionRadius = getMember<decltype(p.circleInclusionRadius)>(node, "circleInclusionRadius");
   p.maxRadiusDiff = getMember<decltype(p.maxRadiusDiff)>(node, "maxRadiusDiff");
   p.maxAverageEllipseError = getMember<decltype(p.maxAverageEllipseError)>(node, "maxAverageEllipseError");
 
   p.filterByColor = getMember<decltype(p.filterByColor)>(node, "filterByColor");
-  p.circleColor = static_cast<unsigned short>(getMember<int>(node, "circleColor"));
+  p.circleColor = static_cast<unsigned char>(getCount(node, "circleColor", std::numeric_limits<unsigned char>::max()));
 
   p.filterByArea = getMember<decltype(p.filterByArea)>(node, "filterByArea");
   p.minArea = getMember<decltype(p.minArea)>(node, "minArea");
@@ -83,6 +97,9 @@ public:
     int rows = config["rows"].as<int>();
     int cols = config["cols"].as<int>();
     double spacing = config["spacing"].as<double>();
+    if (rows < 1 || cols < 1)
+      throw std::runtime_error("A circle grid target must have at least one row and one column");
+
     rct_image_tools::ModifiedCircleGridTarget target(rows, cols, spacing);
 
     try
-- 
2.43.0


From fc786a4d5e7dbfb033e52c39f99077609b9d34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 34/46] fix: random joint values of a DH joint depend on its
 own seed only, not on what was drawn before elsewhere

---
 .../include/rct_optimizations/dh_chain.h              |  5 ++++-
 rct_optimizations/src/rct_optimizations/dh_chain.cpp  | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain.h b/rct_optimizations/include/rct_optimizations/dh_chain.h
index 0c1bd4b..7625603 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain.h
@@ -125,11 +125,14 @@ struct DHTransform
   /** @brief Label for this transform */
   std::string name;
   /** @brief Seed for random number generator */
-  std::size_t random_seed;
+  std::size_t random_seed = 0;
 
 protected:
   friend struct YAML::as_if<DHTransform, void>;
   DHTransform() = default;
+
+  /** @brief Number of random joint values that have been drawn */
+  mutable std::size_t random_draws_ = 0;
 };
 
 /**
diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 7065901..f33c83d 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -1,4 +1,5 @@
 #include <rct_optimizations/dh_chain.h>
+#include <cstdint>
 #include <random>
 #include <sstream>
 
@@ -26,8 +27,14 @@ DHTransform::DHTransform(const Eigen::Vector4d& params_,
 
 double DHTransform::createRandomJointValue() const
 {
-  // Create a static random number generator so that this object does not get continuously re-instantiated
-  static std::mt19937 mt_rand = std::mt19937(random_seed);
+  // Create the random number generator of this draw from the seed, the joint name (such that joints with the same seed
+  // move independently of each other), and the number of values drawn so far. A generator that is shared by all joints
+  // would make the values depend on the seed of whichever joint was used first and on every other draw in the process
+  std::vector<std::uint32_t> state(name.begin(), name.end());
+  state.push_back(static_cast<std::uint32_t>(random_seed));
+  state.push_back(static_cast<std::uint32_t>(random_draws_++));
+  std::seed_seq seq(state.begin(), state.end());
+  std::mt19937 mt_rand(seq);
 
   // Create a new uniform distribution object with the current min and max values
   std::uniform_real_distribution<double> dist(min, max);
-- 
2.43.0


From 36dbf544f8d17a1feb5cd7d86c88f54891615d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 35/46] fix: 3D homography errors of targets at negative z were
 negative

---
 .../rct_optimizations/validation/homography_validation.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index cab437c..47996e3 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -209,8 +209,8 @@ Eigen::VectorXd calculateHomographyError(const Correspondence3D3D::Set& correspo
   // Calculate the homography error
   Eigen::VectorXd error = calculateHomographyError(correspondences_2d, correspondence_sampler);
 
-  // Scale the errors again by the z values of the original correspondences
-  return error.cwiseProduct(z_values);
+  // Scale the errors again by the distance of the original correspondences along the z axis
+  return error.cwiseProduct(z_values.cwiseAbs());
 }
 
 }  // namespace rct_optimizations
-- 
2.43.0


From b977cf2a08749dd00aeb5e5c0c252c11a15de64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 36/46] fix: the data collector reported a failed save as
 success

---
 rct_ros_tools/src/command_line_cal.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 16fca3b..4d062e6 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -182,8 +182,7 @@ struct DataCollection
     }
 
     ROS_INFO_STREAM("Saving data-set to " << save_dir_);
-    rct_ros_tools::saveToDirectory(save_dir_, data);
-    return true;
+    return rct_ros_tools::saveToDirectory(save_dir_, data);
   }
 
   ros::ServiceServer trigger_server;
-- 
2.43.0


From f2fbab774ad527bbf8b04e9c7b4747a4d51ff246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 37/46] fix: an OpenCV error in the target finder ended the
 data collector

---
 rct_ros_tools/src/command_line_cal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 4d062e6..65a5ed8 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -91,7 +91,7 @@ public:
         cv_bridge::CvImagePtr ptr(new cv_bridge::CvImage(cv_ptr->header, cv_ptr->encoding, modified_image));
         im_pub_.publish(ptr->toImageMsg());
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_ERROR_STREAM(ex.what());
         im_pub_.publish(cv_ptr->toImageMsg());
-- 
2.43.0


From 132af1617806d71278e4a007b767ab099caf8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 38/46] fix: an image message that OpenCV cannot read ended the
 data collector

---
 rct_ros_tools/src/command_line_cal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 65a5ed8..3dd97b2 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -102,6 +102,11 @@ public:
       ROS_ERROR("cv_bridge exception: %s", e.what());
       return;
     }
+    catch (const cv::Exception& e)
+    {
+      ROS_ERROR("OpenCV exception: %s", e.what());
+      return;
+    }
   }
 
   bool capture(cv::Mat& frame)
-- 
2.43.0


From 890997283081d4f4e9bb11e6afaf1f3165071071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 39/46] fix: multi-camera calibration tool crashes on a data
 set that cannot be parsed

The optional result was dereferenced before it was checked.
---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 14a817e..c51ebf6 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -108,7 +108,7 @@ int main(int argc, char** argv)
       data_path[c] = get<std::string>(pnh, param_name);
 
       // Attempt to load the data set from the specified path
-      boost::optional<ExtrinsicDataSet> data_set = *parseFromFile(data_path[c]);
+      boost::optional<ExtrinsicDataSet> data_set = parseFromFile(data_path[c]);
       if (!data_set)
         throw std::runtime_error("Failed to parse data set from path = " + data_path[c]);
       maybe_data_set[c] = *data_set;
-- 
2.43.0


From f1c92e1ee52e695b6d003055135f24381be12753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 40/46] fix: multi-step tool shows reprojections on the wrong
 image

The observations skip the images in which not all cameras found the target, so
the index of an observation is not the index of its image.
---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index e85653b..c0dd089 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -143,6 +143,9 @@ int main(int argc, char** argv)
 
     ExtrinsicCorrespondenceDataSet corr_data_set(maybe_data_set, *target_finder, true);
 
+    // The images in which all cameras found the target
+    std::vector<std::size_t> found_images;
+
     // build problem
     problem_def.fix_first_camera = fix_first_camera;
     for (std::size_t i = 0; i < corr_data_set.getImageCount(); ++i)
@@ -151,6 +154,7 @@ int main(int argc, char** argv)
       // only require that an image is seen by at least two cameras.
       if (corr_data_set.getImageCameraCount(i) == corr_data_set.getCameraCount())
       {
+        found_images.push_back(i);
         problem_def.base_to_target_guess.push_back(maybe_data_set[0].tool_poses[i] * wrist_to_target);
         problem_wrist_def.wrist_poses.push_back(maybe_data_set[0].tool_poses[i]);
         for (std::size_t c = 0; c < corr_data_set.getCameraCount(); ++c)
@@ -239,7 +243,7 @@ int main(int argc, char** argv)
       }
 
       printTitle("REPROJECT IMAGE " + std::to_string(i));
-      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[i], corr_set);
+      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[found_images[i]], corr_set);
     }
   }
   catch (const std::exception& ex)
-- 
2.43.0


From 735c7a6723b50b1f0c02ab8146cd59583b66ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 41/46] fix: noise qualification tool evaluates the first image
 every time

The image was a static local variable, hence only read once.
---
 rct_examples/src/tools/noise_qualification_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 97f6e7d..3168f2a 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -62,7 +62,7 @@ int main(int argc, char** argv)
       // Each entry should have an image path. This path is relative to the root_path directory!
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
-      static cv::Mat image = readImageOpenCV(image_name);
+      cv::Mat image = readImageOpenCV(image_name);
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From 108890c528f6758229a454db97285f16edba674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 42/46] fix: an image in which the target search fails ends a
 calibration tool

The finders also report errors by exceptions that are not runtime errors, e.g.,
cv::Exception or std::out_of_range.
---
 .../src/tools/camera_intrinsic_calibration_validation.cpp       | 2 +-
 rct_examples/src/tools/camera_on_wrist_extrinsic.cpp            | 2 +-
 rct_examples/src/tools/intrinsic_calibration.cpp                | 2 +-
 rct_examples/src/tools/noise_qualification_2d.cpp               | 2 +-
 rct_examples/src/tools/static_camera_extrinsic.cpp              | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp b/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp
index f71ee93..9efbcf3 100644
--- a/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp
+++ b/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp
@@ -106,7 +106,7 @@ int main(int argc, char** argv)
         cv::imshow(WINDOW, target_finder->drawTargetFeatures(data_set.images[i], target_features));
         cv::waitKey();
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_WARN_STREAM("Image " << i << ": '" << ex.what() << "'");
         cv::imshow(WINDOW, data_set.images[i]);
diff --git a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
index 96ad400..44d4b14 100644
--- a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
+++ b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
@@ -121,7 +121,7 @@ int main(int argc, char** argv)
         cv::imshow(WINDOW, target_finder->drawTargetFeatures(data_set.images[i], target_features));
         cv::waitKey();
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_WARN_STREAM("Image " << i << ": '" << ex.what() << "'");
         cv::imshow(WINDOW, data_set.images[i]);
diff --git a/rct_examples/src/tools/intrinsic_calibration.cpp b/rct_examples/src/tools/intrinsic_calibration.cpp
index c75efe7..fef4120 100644
--- a/rct_examples/src/tools/intrinsic_calibration.cpp
+++ b/rct_examples/src/tools/intrinsic_calibration.cpp
@@ -124,7 +124,7 @@ int main(int argc, char** argv)
 
         problem_def.image_observations.push_back(target_finder->target().createCorrespondences(target_features));
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_WARN_STREAM("Image " << i << ": '" << ex.what() << "'");
         continue;
diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 3168f2a..ea17085 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -77,7 +77,7 @@ int main(int argc, char** argv)
         cv::imshow(WINDOW, target_finder->drawTargetFeatures(image, target_features));
         cv::waitKey();
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_WARN_STREAM("Image " << i << ": '" << ex.what() << "'");
         cv::imshow(WINDOW, image);
diff --git a/rct_examples/src/tools/static_camera_extrinsic.cpp b/rct_examples/src/tools/static_camera_extrinsic.cpp
index 630653a..2e86270 100644
--- a/rct_examples/src/tools/static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/static_camera_extrinsic.cpp
@@ -115,7 +115,7 @@ int main(int argc, char** argv)
         cv::imshow(WINDOW, target_finder->drawTargetFeatures(data_set.images[i], target_features));
         cv::waitKey();
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_WARN_STREAM("Image " << i << ": '" << ex.what() << "'");
         cv::imshow(WINDOW, data_set.images[i]);
-- 
2.43.0


From 7ca46cffca210591bc2c7c060cd6273eb80b370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 43/46] fix: intrinsic calibration tool reads the first image
 of an empty data set

---
 rct_examples/src/tools/intrinsic_calibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_examples/src/tools/intrinsic_calibration.cpp b/rct_examples/src/tools/intrinsic_calibration.cpp
index fef4120..10febc2 100644
--- a/rct_examples/src/tools/intrinsic_calibration.cpp
+++ b/rct_examples/src/tools/intrinsic_calibration.cpp
@@ -136,6 +136,9 @@ int main(int argc, char** argv)
     }
     cv::destroyWindow(WINDOW);
 
+    if (problem_def.image_observations.empty())
+      throw std::runtime_error("The target was not found in any image");
+
     // Also try the OpenCV cameraCalibrate function
     printTitle("OpenCV Calibration");
     opencvCameraCalibration(
-- 
2.43.0


From dc2e4f9e6826f05ae2ea00b3f00337c75bd6e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 44/46] fix: multi-camera tool reports a transform of another
 camera under camera 0

---
 .../src/tools/multi_static_camera_extrinsic.cpp  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index c51ebf6..f9ceb80 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -25,8 +25,12 @@ static void reproject(const Eigen::Isometry3d& base_to_target,
                       const std::vector<Eigen::Isometry3d>& base_to_camera,
                       const std::vector<CameraIntrinsics>& intr,
                       const cv::Mat& image,
-                      const std::vector<Correspondence2D3D::Set>& correspondence_sets)
+                      const std::vector<Correspondence2D3D::Set>& correspondence_sets,
+                      const std::size_t first_camera)
 {
+  // The results are reported in the frame of the first camera that observed the target
+  const std::string camera = std::to_string(first_camera);
+
   Eigen::Isometry3d camera_to_target = base_to_camera[0].inverse() * base_to_target;
 
   std::vector<Eigen::Vector3d> target_points;
@@ -53,14 +57,14 @@ static void reproject(const Eigen::Isometry3d& base_to_target,
   printOptResults(r.converged, r.initial_cost_per_obs, r.final_cost_per_obs);
   printNewLine();
 
-  printTransform(camera_to_target, "Camera 0", "Target", "CAMERA 0 TO TARGET");
+  printTransform(camera_to_target, "Camera " + camera, "Target", "CAMERA " + camera + " TO TARGET");
   printNewLine();
 
   Eigen::Isometry3d result_camera_to_target = base_to_camera[0].inverse() * r.base_to_target;
-  printTransform(result_camera_to_target, "Camera 0", "Target", "PNP");
+  printTransform(result_camera_to_target, "Camera " + camera, "Target", "PNP");
   printNewLine();
 
-  printTransformDiff(camera_to_target, result_camera_to_target, "Camera 0", "Target", "PNP DIFF");
+  printTransformDiff(camera_to_target, result_camera_to_target, "Camera " + camera, "Target", "PNP DIFF");
   printNewLine();
 
   reprojections = getReprojections(result_camera_to_target, intr[0], target_points);
@@ -199,6 +203,7 @@ int main(int argc, char** argv)
       base_to_wrist = maybe_data_set[0].tool_poses[i];
 
       std::size_t cnt = 0;
+      std::size_t first_camera = 0;
       for (std::size_t c = 0; c < num_of_cameras; ++c)
       {
         if (corr_data_set.foundCorrespondence(c, i))
@@ -209,6 +214,7 @@ int main(int argc, char** argv)
           if (cnt == 0)
           {
             image = maybe_data_set[c].images[i];
+            first_camera = c;
           }
 
           ++cnt;
@@ -222,7 +228,7 @@ int main(int argc, char** argv)
       if (cnt >= 2)
       {
         printTitle("REPROJECT IMAGE " + std::to_string(i));
-        reproject(base_to_wrist * opt_result.wrist_to_target, base_to_camera, intr, image, corr_set);
+        reproject(base_to_wrist * opt_result.wrist_to_target, base_to_camera, intr, image, corr_set, first_camera);
       }
     }
   }
-- 
2.43.0


From f78345ebf5206744334c2316d9d302cc798e83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 45/46] fix: hand-eye tools accept views whose homography error
 is not a number

---
 rct_examples/src/tools/camera_on_wrist_extrinsic.cpp | 3 ++-
 rct_examples/src/tools/static_camera_extrinsic.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
index 44d4b14..bbc8fc1 100644
--- a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
+++ b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
@@ -109,7 +109,8 @@ int main(int argc, char** argv)
             obs.correspondence_set.size(), obs.correspondence_set.size() / 3, RANDOM_SEED);
         Eigen::VectorXd homography_error =
             rct_optimizations::calculateHomographyError(obs.correspondence_set, random_sampler);
-        if (homography_error.array().mean() > homography_threshold)
+        // (the error is not a number if the observed points do not define a homography)
+        if (!(homography_error.array().mean() <= homography_threshold))
           throw std::runtime_error("Homography error exceeds threshold (" +
                                    std::to_string(homography_error.array().mean()) + ")");
 
diff --git a/rct_examples/src/tools/static_camera_extrinsic.cpp b/rct_examples/src/tools/static_camera_extrinsic.cpp
index 2e86270..fdd8577 100644
--- a/rct_examples/src/tools/static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/static_camera_extrinsic.cpp
@@ -103,7 +103,8 @@ int main(int argc, char** argv)
             obs.correspondence_set.size(), obs.correspondence_set.size() / 3, RANDOM_SEED);
         Eigen::VectorXd homography_error =
             rct_optimizations::calculateHomographyError(obs.correspondence_set, random_sampler);
-        if (homography_error.array().mean() > homography_threshold)
+        // (the error is not a number if the observed points do not define a homography)
+        if (!(homography_error.array().mean() <= homography_threshold))
           throw std::runtime_error("Homography error exceeds threshold (" +
                                    std::to_string(homography_error.array().mean()) + ")");
 
-- 
2.43.0


From aeeadffe68c091964a4eb1ab5bd74998fe1d0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 46/46] fix: report a data set as not saved when an image could
 not be written completely

---
 rct_ros_tools/src/data_set.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 99afba8..4c2963e 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <fstream>
 #include <opencv2/highgui.hpp>
+#include <opencv2/imgcodecs.hpp>
 #include <ros/console.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -93,7 +94,14 @@ bool writeImage(const std::string& path, const cv::Mat& image)
 {
   try
   {
-    return cv::imwrite(path, image);
+    // cv::imwrite does not notice that an image could not be written completely (e.g. to a full disk)
+    std::vector<unsigned char> encoded;
+    if (!cv::imencode(".png", image, encoded))
+      return false;
+    std::ofstream ofh(path, std::ios::binary);
+    ofh.write(reinterpret_cast<const char*>(encoded.data()), static_cast<std::streamsize>(encoded.size()));
+    ofh.close();
+    return static_cast<bool>(ofh);
   }
   catch (const cv::Exception& ex)
   {
-- 
2.43.0

