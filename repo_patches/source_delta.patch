From 5d2915c08132c0c663320a15d30759263333c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 01/18] fix: compare points on the x axis consistently when
 sorting by angle

For two points on the positive x axis both operator()(a, b) and
operator()(b, a) returned true, so the comparator handed to std::sort was
not a strict weak ordering.
---
 extraction/include/lidar_feature_extraction/ring.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..0416f99 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -81,7 +81,7 @@ struct AHasSmallerPolarAngleThanB
     }
 
     if (a.y == 0) {
-      return (a.x >= 0) && (b.y >= 0);
+      return (a.x >= 0) && (b.y > 0 || (b.y == 0 && b.x < 0));
     }
 
     if (b.y == 0) {
-- 
2.43.0


From 06f1da516aae979b55c89799bda35e7eddd2ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 02/18] fix: compare polar angles in double precision

The squared norms and the determinant were rounded (and underflowed) in
float, so points at different angles could compare as equivalent while the
equivalence was not transitive.
---
 .../include/lidar_feature_extraction/ring.hpp    | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index 0416f99..4a6937d 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -64,8 +64,15 @@ struct AHasSmallerPolarAngleThanB
       return false;
     }
 
-    const double lena = a.x * a.x + a.y * a.y;
-    const double lenb = b.x * b.x + b.y * b.y;
+    // products of floats are exact in double: neither underflow nor rounding can
+    // make the order inconsistent
+    const double ax = a.x;
+    const double ay = a.y;
+    const double bx = b.x;
+    const double by = b.y;
+
+    const double lena = ax * ax + ay * ay;
+    const double lenb = bx * bx + by * by;
 
     if (lena == 0) {
       if (b.y == 0) {
@@ -89,9 +96,8 @@ struct AHasSmallerPolarAngleThanB
     }
 
     // both have the same y sign
-    if (a.y * b.y > 0) {
-      const double det = a.x * b.y - a.y * b.x;
-      return det > 0;
+    if ((ay > 0) == (by > 0)) {
+      return ax * by > ay * bx;
     }
 
     return a.y < 0;
-- 
2.43.0


From 9666d84632f5882fea98d8440822b1d3f0b17780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 03/18] fix: start the range slice at its begin index

---
 extraction/include/lidar_feature_extraction/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/range.hpp b/extraction/include/lidar_feature_extraction/range.hpp
index 6474fdc..015b657 100644
--- a/extraction/include/lidar_feature_extraction/range.hpp
+++ b/extraction/include/lidar_feature_extraction/range.hpp
@@ -59,7 +59,7 @@ public:
   {
     std::vector<double> ranges(end - begin);
     for (unsigned int i = 0; i < ranges.size(); i++) {
-      ranges.at(i) = (*this)(i);
+      ranges.at(i) = (*this)(begin + i);
     }
     return ranges;
   }
-- 
2.43.0


From 3051cccf4d367b8d95e48927c34663e9d69d0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 04/18] fix: compute block boundaries exactly

For example IndexRange(9, 14, 5) had an empty block, because the boundary was
rounded down to the previous index.
---
 extraction/src/index_range.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..638a4ac 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,12 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  // integer arithmetic, because rounding errors in s * (1 - j / n) + e * j / n
+  // can move a boundary and leave a block empty
+  const int64_t s = start_index_;
+  const int64_t e = end_index_;
+  const int64_t n = n_blocks_;
+  return static_cast<int>((s * (n - j) + e * j) / n);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From 46ab6869358b354a39f60ade4c8fd8b0cf35b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 05/18] fix: map the value range onto the whole colour range

The colour was computed from the value itself instead of its distance from
min, which is out of the range of uint8_t unless min is zero.
---
 extraction/src/color_points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/src/color_points.cpp b/extraction/src/color_points.cpp
index 73c5dbe..3e2636c 100644
--- a/extraction/src/color_points.cpp
+++ b/extraction/src/color_points.cpp
@@ -70,6 +70,6 @@ std::vector<uint8_t> LabelToColor(const PointLabel & label)
 std::vector<uint8_t> ValueToColor(const double value, const double min, const double max)
 {
   const double v = std::clamp(value, min, max);
-  const uint8_t c = static_cast<uint8_t>(255. * v / (max - min));
+  const uint8_t c = static_cast<uint8_t>(255. * (v - min) / (max - min));
   return std::vector<uint8_t>{c, c, c};
 }
-- 
2.43.0


From a258c66f051566e214615f754bc7a414cb94f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 06/18] fix: do not return NaN for the angle between collinear
 points

---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..7d62a0f 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -42,5 +43,6 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
   }
 
   const double cos_angle = dot / (norm1 * norm2);
-  return std::acos(cos_angle);
+  // rounding can push the cosine slightly out of [-1, 1]
+  return std::acos(std::clamp(cos_angle, -1., 1.));
 }
-- 
2.43.0


From 96b06493b5f8a7ce3451ee535c6208f06c3e9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 07/18] fix: erase every element after the limit in
 StampSortedObjects, also when none precedes it

---
 .../stamp_sorted_objects.hpp                        | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..c6c7de9 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -90,18 +90,7 @@ public:
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
 
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From ab657552906cba29c3e6650812f7da9ee55b06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 08/18] fix: return only the neighbours found when the map has
 fewer points than asked for

---
 localization/src/kdtree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/localization/src/kdtree.cpp b/localization/src/kdtree.cpp
index ff77c76..db8cd54 100644
--- a/localization/src/kdtree.cpp
+++ b/localization/src/kdtree.cpp
@@ -55,8 +55,9 @@ std::tuple<Eigen::MatrixXd, std::vector<double>> KDTreeEigen::NearestKSearch(
   kdtree_->index->findNeighbors(result, &queryvec[0], nanoflann::SearchParams(10));
   // kdtree_->query(&query[0], n_neighbors, &indices[0], &distances[0]);
 
-  indices.resize(n_neighbors);
-  distances.resize(n_neighbors);
+  // fewer than n_neighbors points are found if the map is smaller than that
+  indices.resize(result.size());
+  distances.resize(result.size());
 
   const Eigen::MatrixXd X = GetRows(map_, indices);
   return std::make_tuple(X, distances);
-- 
2.43.0


From 5b0ec481a352a8c3cbd90b0c75de72d41ecdb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 09/18] fix: define the destructor of KalmanFilter, which no
 program could link against

---
 kalman_filter/src/kalman_filter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalman_filter/src/kalman_filter.cpp b/kalman_filter/src/kalman_filter.cpp
index 1bb57e6..0b3c6cb 100644
--- a/kalman_filter/src/kalman_filter.cpp
+++ b/kalman_filter/src/kalman_filter.cpp
@@ -36,6 +36,8 @@ KalmanFilter::KalmanFilter(
   assert(!hasZeroElements(R));
 }
 
+KalmanFilter::~KalmanFilter() {}
+
 void KalmanFilter::init(const Eigen::VectorXd & x, const Eigen::MatrixXd & P0)
 {
   assert(!hasZeroElements(x));
-- 
2.43.0


From 56b76db53f9e00cc87d8f3807b977a661d0293f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 10/18] fix: log messages as text, not as printf formats

---
 ekf_localizer/include/ekf_localizer/warning.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/warning.hpp b/ekf_localizer/include/ekf_localizer/warning.hpp
index d0b02cc..0d50b8c 100644
--- a/ekf_localizer/include/ekf_localizer/warning.hpp
+++ b/ekf_localizer/include/ekf_localizer/warning.hpp
@@ -30,17 +30,17 @@ public:
 
   void Info(const std::string & message) const
   {
-    RCLCPP_INFO(node_->get_logger(), message.c_str());
+    RCLCPP_INFO(node_->get_logger(), "%s", message.c_str());
   }
 
   void Warn(const std::string & message) const
   {
-    RCLCPP_WARN(node_->get_logger(), message.c_str());
+    RCLCPP_WARN(node_->get_logger(), "%s", message.c_str());
   }
 
   void Error(const std::string & message) const
   {
-    RCLCPP_ERROR(node_->get_logger(), message.c_str());
+    RCLCPP_ERROR(node_->get_logger(), "%s", message.c_str());
   }
 
   void WarnThrottle(
@@ -50,7 +50,7 @@ public:
     RCLCPP_WARN_THROTTLE(
       node_->get_logger(), *(node_->get_clock()),
       std::chrono::milliseconds(duration_milliseconds).count(),
-      message.c_str());
+      "%s", message.c_str());
   }
 
 private:
-- 
2.43.0


From 4434d487c317268ac6dfdcfa3ae04d82f17d37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 11/18] fix: accept an empty frame name in EraseBeginSlash

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From bf1a4ed102acf1fb675a3942d0571c3937ac6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 12/18] fix: saturate the delay step instead of overflowing int
 for old stamps or a zero interval

---
 ekf_localizer/include/ekf_localizer/delay.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..1ce9033 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -15,7 +15,8 @@
 #ifndef EKF_LOCALIZER__DELAY_HPP_
 #define EKF_LOCALIZER__DELAY_HPP_
 
-#include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +28,13 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  if (!(delay_time > 0.)) {
+    return 0;
+  }
+  // A delay that does not fit in int is larger than any maximum
+  const double step = std::round(delay_time / dt);
+  const int max_step = std::numeric_limits<int>::max();
+  return step < max_step ? static_cast<int>(step) : max_step;
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 0ada2adf872882a1dba380c65f003a23980c25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 13/18] fix: keep the state of Simple1DFilter a number when
 both variances are zero

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..5a2c929 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -84,7 +84,8 @@ public:
     stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
+    const double variance_sum = stddev_ * stddev_ + obs_stddev * obs_stddev;
+    double kalman_gain = variance_sum > 0. ? stddev_ * stddev_ / variance_sum : 0.;
     x_ = x_ + kalman_gain * (obs - x_);
     stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
 
-- 
2.43.0


From ca43f8e0ebdbf30a7e508697abdb2e095a3052ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 14/18] fix: fuse every waiting measurement also when some of
 them expire

---
 ekf_localizer/src/pose_measurement.cpp  | 4 +++-
 ekf_localizer/src/twist_measurement.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..a5d4df4 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,9 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // pop() removes a message that has reached its age, so the size changes in the loop
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..00746b7 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,9 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // pop() removes a message that has reached its age, so the size changes in the loop
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 82350176fdd96206db798b26652cbc80a20037be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 15/18] fix: wrap the yaw innovation of pose measurements

---
 ekf_localizer/src/pose_measurement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index a5d4df4..2d1d604 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -93,13 +93,15 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+    // The innovation must not contain full turns
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From b2dbc3abe1c4e7bb5c03d5c01580935aa2ddf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 16/18] fix: ignore an initial pose without a transform

---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From 600d5e8d53616a888879d2f5eea19a2887568a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 17/18] fix: broadcast no viewer frame for an empty map

---
 map_tf_generator/src/map_tf_generator_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map_tf_generator/src/map_tf_generator_node.cpp b/map_tf_generator/src/map_tf_generator_node.cpp
index 0c140da..149e380 100644
--- a/map_tf_generator/src/map_tf_generator_node.cpp
+++ b/map_tf_generator/src/map_tf_generator_node.cpp
@@ -57,6 +57,10 @@ private:
     pcl::fromROSMsg<pcl::PointXYZ>(*clouds_ros, clouds);
 
     const unsigned int sum = clouds.points.size();
+    if (sum == 0) {
+      RCLCPP_WARN(get_logger(), "The map is empty and has no center. Do not broadcast");
+      return;
+    }
     double coordinate[3] = {0, 0, 0};
     for (unsigned int i = 0; i < sum; i++) {
       coordinate[0] += clouds.points[i].x;
-- 
2.43.0


From b44368f83a51bb8ba76808cf5076c7858f20bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 18/18] fix: pick the converted point's fields by name, not by
 their order in the input

filter_point_data kept the values in the order of the input's offsets, so a
cloud whose ring lies before its intensity was packed with the two swapped
(or failed to pack).
---
 point_type_converter/point_type_converter/convert.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 209b473..acaf2bd 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -121,13 +121,9 @@ def split(collection, chunk_size):
     return tuple(collection[i:i+m] for i in range(0, n, m))
 
 
-def find_indices(fields, retained_names):
-    return [i for i in range(len(fields)) if fields[i].name in retained_names]
-
-
 def filter_point_data(point_tuples, input_fields, output_fields):
-    output_names = {f.name for f in output_fields}
-    indices = find_indices(input_fields, output_names)
+    input_names = [f.name for f in input_fields]
+    indices = [input_names.index(f.name) for f in output_fields]
     return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
 
 
-- 
2.43.0

