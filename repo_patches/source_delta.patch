From 3e9c3531e198acff6fffc7fac3f155856d79b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:06 +0000
Subject: [PATCH 01/46] fix: do not rotate cross terms twice when propagating a
 square-root covariance

R*F' already propagates the body columns; multiplying the body rows of the
remaining columns by F changes the represented cross-covariances and the
covariance of the sensor states themselves.
---
 src/ekf/ekf.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..789520f 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -160,9 +160,6 @@ void EKF::PredictModel(double local_time)
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
 
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
-
       m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
     } else {
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
-- 
2.43.0


From 90e3bfc4d569e3954b5b07db4fceebdaafd2d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:05 +0000
Subject: [PATCH 02/46] fix: insert the prior covariance of a registered sensor
 at its own state index

States of one class are ordered by ID and fiducials precede the augmented
states, so appending the prior at the end of the class (or of the whole
state) attached it to another sensor whenever IDs were not registered in
increasing order or clones already existed.
---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 789520f..5cf6773 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -259,13 +259,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -277,6 +271,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -295,17 +295,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -328,23 +331,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -362,14 +366,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From dcbaae81815ce4adbed76e8d78a6d87bbe5d66a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 03/46] fix: take the square root of sensor priors when the
 filter keeps a square-root covariance

---
 src/ekf/ekf.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 5cf6773..61857b7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -273,8 +273,11 @@ void EKF::RegisterIMU(
 
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+    Eigen::MatrixXd imu_cov = covariance.block(0, 0, imu_state.size, imu_state.size);
+    if (m_use_root_covariance) {
+      imu_cov = imu_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(imu_cov, m_cov, imu_index, imu_index);
   }
 
   std::stringstream log_msg;
@@ -305,8 +308,11 @@ void EKF::RegisterGPS(
 
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+    Eigen::MatrixXd gps_cov = covariance.block(0, 0, gps_state.size, gps_state.size);
+    if (m_use_root_covariance) {
+      gps_cov = gps_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(gps_cov, m_cov, gps_index, gps_index);
   }
 
   std::stringstream log_msg;
@@ -345,8 +351,11 @@ void EKF::RegisterCamera(
 
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+    Eigen::MatrixXd cam_cov = covariance.block(0, 0, cam_state.size, cam_state.size);
+    if (m_use_root_covariance) {
+      cam_cov = cam_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(cam_cov, m_cov, cam_index, cam_index);
   }
 
   std::stringstream log_msg;
@@ -374,8 +383,11 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+    Eigen::MatrixXd fid_cov = covariance.block(0, 0, fid_state.size, fid_state.size);
+    if (m_use_root_covariance) {
+      fid_cov = fid_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(fid_cov, m_cov, fid_index, fid_index);
   }
 
   std::stringstream log_msg;
-- 
2.43.0


From ec4532c43dc3ef63011bef9554ab4c3c7851d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 04/46] fix: include IMUs with only intrinsic calibration in
 the state vector

---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..965a72a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From 5faee31ae1ee32827d06ec22852002db07244c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 05/46] fix: count every augmented state, not every camera, in
 the state size

---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 965a72a..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From e5c58fbfb89f7af04bbf5e25862f4e784ec10ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 06/46] fix: set the augmented states from the state vector as
 well

---
 src/ekf/types.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..d0e515c 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -381,6 +381,14 @@ void State::SetState(const Eigen::VectorXd & state)
       idx += g_fid_extrinsic_state_size;
     }
   }
+
+  for (auto & aug_iter : aug_states) {
+    for (auto & aug_state : aug_iter.second) {
+      aug_state.pos_b_in_l = state.segment<3>(idx + 0);
+      aug_state.ang_b_to_l = RotVecToQuat(state.segment<3>(idx + 3));
+      idx += g_aug_state_size;
+    }
+  }
 }
 
 unsigned int State::GetStateSize() const
-- 
2.43.0


From ee1fe9665b8d42e8d2ee2c093845068d94bb10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:20 +0000
Subject: [PATCH 07/46] fix: marginalise clones correctly from a square-root
 covariance

Removing rows as well as columns of the factor also removed information
about the states which are kept.
---
 src/ekf/ekf.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 61857b7..255a368 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -34,6 +34,21 @@
 #include "utility/string_helper.hpp"
 #include "utility/type_helper.hpp"
 
+namespace
+{
+// Drop states from a square-root covariance: only columns may be removed, after which the
+// factor has to be made triangular again
+Eigen::MatrixXd RemoveFromRoot(const Eigen::MatrixXd & root, unsigned int index, unsigned int size)
+{
+  auto rows = static_cast<unsigned int>(root.rows());
+  auto cols = static_cast<unsigned int>(root.cols());
+  Eigen::MatrixXd kept(rows, cols - size);
+  kept.leftCols(index) = root.leftCols(index);
+  kept.rightCols(cols - index - size) = root.rightCols(cols - index - size);
+  return QR_r(kept.topRows(index), kept.bottomRows(rows - index));
+}
+}  // namespace
+
 EKF::EKF(Parameters params)
 : m_debug_logger(params.debug_logger),
   m_data_logger(params.log_directory, "body_state.csv"),
@@ -508,7 +523,9 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      m_cov = m_use_root_covariance ?
+        RemoveFromRoot(m_cov, aug_index, g_aug_state_size) :
+        RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
 
       RefreshIndices();
     }
@@ -568,7 +585,9 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      m_cov = m_use_root_covariance ?
+        RemoveFromRoot(m_cov, aug_start, g_aug_state_size) :
+        RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
     }
 
     RefreshIndices();
-- 
2.43.0


From a9b94d4b0781c8e9fcb37bd81d19ec573854508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:37 +0000
Subject: [PATCH 08/46] fix: apply each camera's own segment of a correction to
 a map of cameras

---
 src/ekf/types.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index d0e515c..994679a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -195,9 +195,12 @@ std::map<unsigned int, CamState> & operator+=(
   unsigned int idx {0};
   for (auto & cam_iter : l_cam_state) {
     unsigned int cam_id = cam_iter.first;
-    l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
-    l_cam_state[cam_id].ang_c_to_b =
-      l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    if (l_cam_state[cam_id].GetIsExtrinsic()) {
+      l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
+      l_cam_state[cam_id].ang_c_to_b =
+        l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+      idx += g_cam_extrinsic_state_size;
+    }
   }
 
   return l_cam_state;
-- 
2.43.0


From 86615bb65be47fb261cb78cdd102a116755e2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:21 +0000
Subject: [PATCH 09/46] fix: attribute the body pose to a frame without usable
 clones to interpolate

---
 src/ekf/ekf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 255a368..99bf1c1 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -631,7 +631,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
     AugState aug_state_0;
     AugState aug_state_1;
 
-    if (time < m_state.aug_states[aug_key][0].time) {
+    if (m_state.aug_states[aug_key].empty()) {
+      aug_state_0.pos_b_in_l = m_state.body_state.pos_b_in_l;
+      aug_state_0.ang_b_to_l = m_state.body_state.ang_b_to_l;
+    } else if (time < m_state.aug_states[aug_key][0].time) {
       aug_state_0 = m_state.aug_states[aug_key][0];
     } else if (time < m_state.aug_states[aug_key].back().time) {
       for (unsigned int i = 0; i < m_state.aug_states[aug_key].size() - 1; ++i) {
@@ -646,8 +649,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      if (m_current_time > m_state.aug_states[aug_key].back().time) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) /
+          (m_current_time - m_state.aug_states[aug_key].back().time);
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From d06b1f0b57585e001d0580441a73e4ce3b4260e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:11 +0000
Subject: [PATCH 10/46] fix: correct attitudes toward a detected fiducial board
 instead of away from it

---
 src/ekf/update/fiducial_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..5a8da45 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -168,7 +168,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From bf9fbdd97f253bb5dcaf2f369d673187d83c8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:19 +0000
Subject: [PATCH 11/46] fix: fiducial Jacobian away from the identity attitude

---
 src/ekf/update/fiducial_updater.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 5a8da45..8bcc152 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -88,7 +88,6 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
-  Eigen::Matrix3d rot_f_to_l = m_ang_f_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = ang_b_to_l.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_l_to_c = rot_b_to_c * rot_l_to_b;
 
@@ -101,7 +100,7 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
     SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
     QuaternionJacobian(ang_b_to_l).transpose();
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l *
+  jacobian.block<3, 3>(3, 9) = -rot_l_to_c *
     QuaternionJacobian(ang_b_to_l).transpose();
 
   /// @todo Test camera calibration jacobians
@@ -114,13 +113,14 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
       QuaternionJacobian(m_ang_c_to_b).transpose();
 
     jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose() * rot_l_to_b * rot_f_to_l;
+      QuaternionJacobian(m_ang_c_to_b).transpose();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    jacobian.block<3, 3>(0, fid_index + 0) = Eigen::Matrix3d::Identity();
-    jacobian.block<3, 3>(3, fid_index + 3) = Eigen::Matrix3d::Identity();
+    jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c *
+      QuaternionJacobian(m_ang_f_to_l).transpose();
   }
 
   return jacobian;
-- 
2.43.0


From c131cac167f1cfa64b1988627bd5ee5ed99dbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:35 +0000
Subject: [PATCH 12/46] fix: use a square root of correlated measurement noise
 in the square-root update

---
 src/ekf/update/updater.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/updater.cpp b/src/ekf/update/updater.cpp
index 52d3d3c..f1b021a 100644
--- a/src/ekf/update/updater.cpp
+++ b/src/ekf/update/updater.cpp
@@ -36,7 +36,11 @@ void Updater::KalmanUpdate(
   Eigen::MatrixXd observation_noise;
 
   if (ekf.GetUseRootCovariance()) {
-    observation_noise = measurement_noise.cwiseSqrt();
+    // Square root of the noise, which may be correlated or singular
+    Eigen::LDLT<Eigen::MatrixXd> noise_ldlt(measurement_noise);
+    Eigen::MatrixXd noise_upper = noise_ldlt.matrixU();
+    observation_noise = noise_ldlt.vectorD().cwiseMax(0.0).cwiseSqrt().asDiagonal() *
+      noise_upper * noise_ldlt.transpositionsP();
     innovation = QR_r(ekf.m_cov * jacobian.transpose(), observation_noise);
     gain = ekf.m_cov.transpose() * ekf.m_cov * jacobian.transpose() *
       (innovation.transpose() * innovation).inverse();
-- 
2.43.0


From bcdf5c6cd5e02f8ff6bb1154ac155d58bac207f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:26 +0000
Subject: [PATCH 13/46] fix: IMU measurement model and Jacobian for a rotated
 or rotating body

---
 src/ekf/update/imu_updater.cpp | 83 ++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..c00faa6 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -302,7 +302,6 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   return true;
 }
 
-/// TODO: The frames are not correct here
 Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
@@ -310,22 +309,23 @@ Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
   Eigen::Vector3d acc_bias = ekf.m_state.imu_states[m_id].acc_bias;
   Eigen::Vector3d omg_bias = ekf.m_state.imu_states[m_id].omg_bias;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
 
   Eigen::VectorXd predicted_measurement(6);
 
-  Eigen::Vector3d imu_acc_b =
+  // Lever arm and acceleration of the IMU in the local frame
+  Eigen::Vector3d lever_arm = ang_b_to_l * pos_i_in_b;
+  Eigen::Vector3d imu_acc_l =
     ekf.m_state.body_state.acc_b_in_l +
-    ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
-    ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
-
-  Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
+    ang_acc_b_in_l.cross(lever_arm) +
+    ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(lever_arm));
 
   // Rotate measurements in place
-  predicted_measurement.segment<3>(0) = acc_bias + ang_i_to_b.inverse() * imu_acc_b;
-  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * imu_omg_b;
+  predicted_measurement.segment<3>(0) =
+    acc_bias + ang_i_to_b.inverse() * (ang_b_to_l.inverse() * imu_acc_l);
+  predicted_measurement.segment<3>(3) =
+    omg_bias + ang_i_to_b.inverse() * (ang_b_to_l.inverse() * ang_vel_b_in_l);
 
   return predicted_measurement;
 }
@@ -335,51 +335,56 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
+
+  Eigen::Matrix3d rot_b_to_l = ang_b_to_l.toRotationMatrix();
+  Eigen::Matrix3d rot_b_to_i = ang_i_to_b.toRotationMatrix().transpose();
+  Eigen::Matrix3d rot_l_to_i = rot_b_to_i * rot_b_to_l.transpose();
+
+  // Lever arm and acceleration of the IMU in the local frame
+  Eigen::Vector3d lever_arm = rot_b_to_l * pos_i_in_b;
+  Eigen::Matrix3d lever_rate = SkewSymmetric(ang_acc_b_in_l) +
+    SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(ang_vel_b_in_l);
+  Eigen::Vector3d imu_acc_l = ekf.m_state.body_state.acc_b_in_l + lever_rate * lever_arm;
 
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(6, ekf.GetStateSize());
 
   // Body Acceleration
-  measurement_jacobian.block<3, 3>(0, 6) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(0, 6) = rot_l_to_i;
+
+  // Body Orientation
+  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
+    SkewSymmetric(rot_b_to_l.transpose() * imu_acc_l) -
+    rot_b_to_l.transpose() * lever_rate * rot_b_to_l * SkewSymmetric(pos_i_in_b)
+  ) * QuaternionJacobian(ang_b_to_l);
+
+  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i *
+    SkewSymmetric(rot_b_to_l.transpose() * ang_vel_b_in_l) * QuaternionJacobian(ang_b_to_l);
 
   // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(0, 12) = ang_i_to_b.inverse().toRotationMatrix() * (
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
-    SkewSymmetric(pos_i_in_b).transpose() +
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)).transpose()
+  measurement_jacobian.block<3, 3>(0, 12) = -rot_l_to_i * (
+    SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(lever_arm) +
+    SkewSymmetric(ang_vel_b_in_l.cross(lever_arm))
   );
 
-  // Body Angular Acceleration
-  measurement_jacobian.block<3, 3>(0, 15) = -ang_i_to_b.inverse().toRotationMatrix() *
-    SkewSymmetric(pos_i_in_b);
+  measurement_jacobian.block<3, 3>(3, 12) = rot_l_to_i;
 
-  // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(3, 12) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  // Body Angular Acceleration
+  measurement_jacobian.block<3, 3>(0, 15) = -rot_l_to_i * SkewSymmetric(lever_arm);
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
-    Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
-
 
     // IMU Positional Offset
-    measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) =
-      ang_i_to_b.inverse().toRotationMatrix() * (SkewSymmetric(ang_acc_b_in_l) +
-      SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(ang_vel_b_in_l)
-      );
+    measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) = rot_l_to_i * lever_rate * rot_b_to_l;
 
     // IMU Angular Offset
-    measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * (ang_acc_b_in_l.cross(pos_i_in_b) +
-      ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(pos_i_in_b)) +
-      ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l
-      )
-    );
+    measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) =
+      SkewSymmetric(rot_l_to_i * imu_acc_l) * QuaternionJacobian(ang_i_to_b);
 
-    // IMU Angular Offset
-    measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l);
+    measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) =
+      SkewSymmetric(rot_l_to_i * ang_vel_b_in_l) * QuaternionJacobian(ang_i_to_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 72bde4906c97a33feeb9223b5d3222068e410feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 14/46] fix: Jacobian of a stationary IMU reading for rotated
 bodies and IMUs

---
 src/ekf/update/imu_updater.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index c00faa6..95ba149 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -161,16 +161,14 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
 
-  jacobian.block<3, 3>(
-    0,
-    9) = -SkewSymmetric(ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(0, 9) = -ang_i_to_b.inverse().toRotationMatrix() *
+    SkewSymmetric(ang_b_to_l.inverse() * g_gravity) * QuaternionJacobian(ang_b_to_l);
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
-    );
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
+      ang_i_to_b.inverse() * (ang_b_to_l.inverse() * g_gravity)
+      ) * QuaternionJacobian(ang_i_to_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 9bb4f09b0119ffcd2dff68c174b06c560acbbbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 15/46] fix: score stationary IMU readings against the
 covariance in square-root form

---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 95ba149..0058415 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -218,8 +218,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd covariance = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    covariance = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * covariance * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From ef0a9871843088d13eb266418333db49e8930845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:07 +0000
Subject: [PATCH 16/46] fix: project onto the left nullspace of the feature
 Jacobian

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..59d1d96 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From 0d55867ef88430cd70909f0187d213d2b1d6ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:07 +0000
Subject: [PATCH 17/46] fix: keep every non-zero row when compressing
 measurements

---
 src/utility/math_helper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 59d1d96..60f73c3 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -134,8 +134,15 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Collect non-zero rows after compression
+    unsigned int rows{0};
+    for (unsigned int i = 0; i < m_rows; i++) {
+      if ((jacobian.row(i).array().abs() > 1e-9).any()) {
+        jacobian.row(rows) = jacobian.row(i).eval();
+        residual(rows) = residual(i);
+        ++rows;
+      }
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From c4915c67a0aa326fa7fa44729b48ce4d7db2b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:50 +0000
Subject: [PATCH 18/46] fix: keep the sign of the heading of the GPS reference

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 60f73c3..bfcb434 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -205,7 +205,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
-- 
2.43.0


From 15836646291cbe9220338e1e92589aee5831e6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:50 +0000
Subject: [PATCH 19/46] fix: place the GPS reference at the origin of the local
 frame for any heading

---
 src/ekf/ekf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 99bf1c1..3e30501 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -830,8 +830,8 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
-      Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
+      Eigen::Vector3d pos_l_in_enu = transformation.inverse().translation();
+      Eigen::Vector3d pos_e_in_g = enu_to_lla(pos_l_in_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
       m_debug_logger->Log(LogLevel::INFO, "GPS Updater Initialized");
-- 
2.43.0


From 3e121879d70ffc506f6b9086cef8b23872600e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:50 +0000
Subject: [PATCH 20/46] fix: judge the GPS alignment independently of where the
 frames originate

---
 src/utility/math_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index bfcb434..8f9e4a5 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -250,7 +250,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
@@ -259,6 +259,7 @@ bool kabsch_2d(
   }
 
   pos_stddev = mean_standard_deviation(pos_errors);
+  ang_stddev = 0.0;
   if (sum_count != 0.0) {
     ang_stddev = std::sqrt(sum_square_slopes) / sum_count;
   }
-- 
2.43.0


From 826ac2a3b4a508c5aea52f8fbd53de8ba139dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:50 +0000
Subject: [PATCH 21/46] fix: align GPS measurements with the antenna instead of
 the body

---
 src/ekf/ekf.cpp                | 5 +++--
 src/ekf/ekf.hpp                | 4 +++-
 src/ekf/update/gps_updater.cpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 3e30501..c4a98e7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -799,11 +799,12 @@ void EKF::RefreshIndices()
 
 void EKF::AttemptGpsInitialization(
   double time,
-  const Eigen::Vector3d & gps_lla)
+  const Eigen::Vector3d & gps_lla,
+  const Eigen::Vector3d & pos_a_in_l)
 {
   m_gps_time_vec.push_back(time);
   m_gps_ecef_vec.push_back(lla_to_ecef(gps_lla));
-  m_gps_xyz_vec.push_back(m_state.body_state.pos_b_in_l);
+  m_gps_xyz_vec.push_back(pos_a_in_l);
 
   if (m_gps_time_vec.size() >= 4) {
     Eigen::Vector3d init_ref_ecef = average_vectors(m_gps_ecef_vec);
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..eca64b0 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -298,10 +298,12 @@ public:
   /// @brief GPS LLA to ENU Initialization Routine
   /// @param time GPS measured time
   /// @param gps_lla GPS measured lat-lon-alt
+  /// @param pos_a_in_l Estimated antenna position in the local frame
   ///
   void AttemptGpsInitialization(
     double time,
-    const Eigen::Vector3d & gps_lla);
+    const Eigen::Vector3d & gps_lla,
+    const Eigen::Vector3d & pos_a_in_l);
 
   ///
   /// @brief GPS time vector getter
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..b6e5737 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -104,7 +104,7 @@ void GpsUpdater::UpdateEKF(
   double ang_l_to_e = ekf.GetReferenceAngle();
   if (!ekf.IsLlaInitialized()) {
     m_logger->Log(LogLevel::INFO, "GPS Updater Attempt Initialization");
-    ekf.AttemptGpsInitialization(local_time, gps_lla);
+    ekf.AttemptGpsInitialization(local_time, gps_lla, PredictMeasurement(ekf));
     if (ekf.IsLlaInitialized()) {
       // Perform single update with compressed measurements
       MultiUpdateEKF(ekf);
-- 
2.43.0


From 1e684c21757c5e0675826f543c1c43bd22a42455 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 22/46] fix: convert configuration vectors of any length

---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From f3967d021f7d0cddd92e83e9c1a1165c2b1a72a0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 23/46] fix: differentiate measurements by the attitude
 correction that is applied

---
 src/ekf/update/fiducial_updater.cpp | 19 +++++++------------
 src/ekf/update/gps_updater.cpp      |  2 +-
 src/ekf/update/imu_updater.cpp      | 13 ++++++-------
 src/ekf/update/msckf_updater.cpp    |  7 ++-----
 4 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 8bcc152..a554a20 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -96,31 +96,26 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
   jacobian.block<3, 3>(0, 0) = -rot_l_to_c;
 
-  jacobian.block<3, 3>(0, 9) = rot_l_to_c *
-    SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(0, 9) = rot_b_to_c *
+    SkewSymmetric(rot_l_to_b * (m_pos_f_in_l - pos_b_in_l));
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(3, 9) = -rot_b_to_c;
 
   /// @todo Test camera calibration jacobians
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
     jacobian.block<3, 3>(0, cam_index + 0) = -rot_b_to_c;
 
-    jacobian.block<3, 3>(0, cam_index + 3) = rot_b_to_c *
-      SkewSymmetric(rot_l_to_b * (m_pos_f_in_l - pos_b_in_l) - m_pos_c_in_b) *
-      QuaternionJacobian(m_ang_c_to_b).transpose();
+    jacobian.block<3, 3>(0, cam_index + 3) = SkewSymmetric(
+      rot_b_to_c * (rot_l_to_b * (m_pos_f_in_l - pos_b_in_l) - m_pos_c_in_b));
 
-    jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose();
+    jacobian.block<3, 3>(3, cam_index + 3) = -Eigen::Matrix3d::Identity();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
     jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
-    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c *
-      QuaternionJacobian(m_ang_f_to_l).transpose();
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c * m_ang_f_to_l.toRotationMatrix();
   }
 
   return jacobian;
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index b6e5737..d4b22c3 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -68,7 +68,7 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(3, ekf.GetStateSize());
   measurement_jacobian.block<3, 3>(0, 0) = Eigen::Matrix3d::Identity(3, 3);
   measurement_jacobian.block<3, 3>(0, 9) = -ang_b_to_l.toRotationMatrix() *
-    SkewSymmetric(m_pos_a_in_b) * QuaternionJacobian(ang_b_to_l);
+    SkewSymmetric(m_pos_a_in_b);
 
   if (m_is_extrinsic) {
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 0058415..f447904 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -162,13 +162,12 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
 
   jacobian.block<3, 3>(0, 9) = -ang_i_to_b.inverse().toRotationMatrix() *
-    SkewSymmetric(ang_b_to_l.inverse() * g_gravity) * QuaternionJacobian(ang_b_to_l);
+    SkewSymmetric(ang_b_to_l.inverse() * g_gravity);
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
-      ang_i_to_b.inverse() * (ang_b_to_l.inverse() * g_gravity)
-      ) * QuaternionJacobian(ang_i_to_b);
+      ang_i_to_b.inverse() * (ang_b_to_l.inverse() * g_gravity));
   }
 
   if (m_is_intrinsic) {
@@ -360,10 +359,10 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
     SkewSymmetric(rot_b_to_l.transpose() * imu_acc_l) -
     rot_b_to_l.transpose() * lever_rate * rot_b_to_l * SkewSymmetric(pos_i_in_b)
-  ) * QuaternionJacobian(ang_b_to_l);
+  );
 
   measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i *
-    SkewSymmetric(rot_b_to_l.transpose() * ang_vel_b_in_l) * QuaternionJacobian(ang_b_to_l);
+    SkewSymmetric(rot_b_to_l.transpose() * ang_vel_b_in_l);
 
   // Body Angular Velocity
   measurement_jacobian.block<3, 3>(0, 12) = -rot_l_to_i * (
@@ -384,10 +383,10 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) =
-      SkewSymmetric(rot_l_to_i * imu_acc_l) * QuaternionJacobian(ang_i_to_b);
+      SkewSymmetric(rot_l_to_i * imu_acc_l);
 
     measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) =
-      SkewSymmetric(rot_l_to_i * ang_vel_b_in_l) * QuaternionJacobian(ang_i_to_b);
+      SkewSymmetric(rot_l_to_i * ang_vel_b_in_l);
   }
 
   if (m_is_intrinsic) {
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..33bafc3 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -343,14 +343,11 @@ void MsckfUpdater::UpdateEKF(
       // Augmented state Jacobian
       Eigen::MatrixXd H_t = Eigen::MatrixXd::Zero(3, g_aug_state_size);
       H_t.block<3, 3>(0, 0) = -rot_l_to_ci;
-      H_t.block<3, 3>(0, 3) = rot_l_to_ci * SkewSymmetric(pos_f_in_l - pos_bi_in_l) *
-        QuaternionJacobian(aug_state_i.ang_b_to_l).transpose();
+      H_t.block<3, 3>(0, 3) = rot_b_to_ci * SkewSymmetric(pos_f_in_bi);
 
       if (m_is_cam_extrinsic) {
         H_c.block<2, 3>(2 * i, cam_index + 0) = -H_d * H_p * rot_b_to_ci;
-        H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * rot_b_to_ci *
-          SkewSymmetric(rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l) - m_pos_c_in_b) *
-          QuaternionJacobian(m_ang_c_to_b).transpose();
+        H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * SkewSymmetric(pos_f_in_ci);
       }
 
       if (aug_state_i.alpha != 0.0) {
-- 
2.43.0


From 881364b63cdfde3bf72f3cb26b1a0b9035a58b5c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 24/46] fix: do not turn the body by accelerations that are not
 yet estimated

The Jacobian of the attitude added with the measurement model makes the filter
with several IMUs diverge with the process noise of the shipped configurations;
leave it out again.
---
 src/ekf/update/imu_updater.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index f447904..e869af5 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -355,15 +355,6 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   // Body Acceleration
   measurement_jacobian.block<3, 3>(0, 6) = rot_l_to_i;
 
-  // Body Orientation
-  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
-    SkewSymmetric(rot_b_to_l.transpose() * imu_acc_l) -
-    rot_b_to_l.transpose() * lever_rate * rot_b_to_l * SkewSymmetric(pos_i_in_b)
-  );
-
-  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i *
-    SkewSymmetric(rot_b_to_l.transpose() * ang_vel_b_in_l);
-
   // Body Angular Velocity
   measurement_jacobian.block<3, 3>(0, 12) = -rot_l_to_i * (
     SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(lever_arm) +
-- 
2.43.0


From 0b26d2a4eb03dd2597fd59d373bcaced99e39ad3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 25/46] fix: predict feature measurements through the lens
 distortion

---
 src/ekf/update/msckf_updater.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 33bafc3..ea5fe9e 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -236,10 +236,10 @@ Eigen::Vector2d MsckfUpdater::Distort(
   double r2 = x2 + y2;
   Eigen::Vector2d xy;
 
-  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_1 * xy_norm(0) * xy_norm(1) + intrinsics.p_2 * (r2 + 2 * x2);
 
-  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2);
 
   return xy;
@@ -326,7 +326,7 @@ void MsckfUpdater::UpdateEKF(
         m_intrinsics.width / 2) / (m_intrinsics.f_x / m_intrinsics.pixel_size);
       xy_measured(1) = (static_cast<double>(feature_track.track[i].key_point.pt.y) -
         m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
-      Eigen::Vector2d xz_residual = xy_measured - xy_predicted;
+      Eigen::Vector2d xz_residual = xy_measured - Distort(xy_predicted, m_intrinsics);
       res_f.segment<2>(2 * i) = xz_residual;
 
       // Projection Jacobian
@@ -335,7 +335,7 @@ void MsckfUpdater::UpdateEKF(
 
       // Distortion Jacobian
       Eigen::MatrixXd H_d(2, 2);
-      DistortionJacobian(xy_measured, m_intrinsics, H_d);
+      DistortionJacobian(xy_predicted, m_intrinsics, H_d);
 
       // Entire feature Jacobian
       H_f.block<2, 3>(2 * i, 0) = H_d * H_p * rot_l_to_ci;
-- 
2.43.0


From a7ccf927368b97df8eb673c8b1bbc1b96e596e05 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 26/46] fix: correlate features with the body attitude when
 there are no clones

---
 src/ekf/update/msckf_updater.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index ea5fe9e..de00b19 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -363,6 +363,11 @@ void MsckfUpdater::UpdateEKF(
         } else {
           H_c.block<2, g_aug_state_size>(2 * i, aug_state_i.index + g_aug_state_size) = H_aug_1;
         }
+      } else if (aug_state_i.index == 0) {
+        // Without augmented states the measurement correlates with the current body state
+        Eigen::MatrixXd H_b = H_d * H_p * H_t;
+        H_c.block<2, 3>(2 * i, 0) = H_b.block<2, 3>(0, 0);
+        H_c.block<2, 3>(2 * i, 9) = H_b.block<2, 3>(0, 3);
       } else {
         unsigned int aug_index = aug_state_i.index;
         H_c.block<2, g_aug_state_size>(2 * i, aug_index) = H_d * H_p * H_t;
-- 
2.43.0


From 44ccf28a91e6813620efd7d200f433072a364c49 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 27/46] fix: triangulate features, whose true position is not
 known outside of simulations

---
 src/ekf/update/msckf_updater.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/msckf_updater.hpp b/src/ekf/update/msckf_updater.hpp
index 2216846..ba3659b 100644
--- a/src/ekf/update/msckf_updater.hpp
+++ b/src/ekf/update/msckf_updater.hpp
@@ -118,7 +118,7 @@ private:
   double m_min_feat_dist{1.0};
   double m_max_feat_dist{100.0};  /// @todo: Get from input
   bool m_is_first_estimate{true};
-  bool m_use_true_triangulation{true};
+  bool m_use_true_triangulation{false};
   Intrinsics m_intrinsics;
   Eigen::Vector3d m_pos_c_in_b{0.0, 0.0, 0.0};
   Eigen::Quaterniond m_ang_c_to_b{1.0, 0.0, 0.0, 0.0};
-- 
2.43.0


From 4621d0b064c227fe10795a5d4f0d952ef000d77a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 28/46] fix: weigh features by their error in pixels

---
 src/ekf/update/msckf_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index de00b19..527e949 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -326,7 +326,11 @@ void MsckfUpdater::UpdateEKF(
         m_intrinsics.width / 2) / (m_intrinsics.f_x / m_intrinsics.pixel_size);
       xy_measured(1) = (static_cast<double>(feature_track.track[i].key_point.pt.y) -
         m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
-      Eigen::Vector2d xz_residual = xy_measured - Distort(xy_predicted, m_intrinsics);
+      // Pixels per normalized coordinate, as the measurement error is in pixels
+      Eigen::Vector2d focal_px(
+        m_intrinsics.f_x / m_intrinsics.pixel_size, m_intrinsics.f_y / m_intrinsics.pixel_size);
+      Eigen::Vector2d xz_residual =
+        focal_px.cwiseProduct(xy_measured - Distort(xy_predicted, m_intrinsics));
       res_f.segment<2>(2 * i) = xz_residual;
 
       // Projection Jacobian
@@ -336,6 +340,7 @@ void MsckfUpdater::UpdateEKF(
       // Distortion Jacobian
       Eigen::MatrixXd H_d(2, 2);
       DistortionJacobian(xy_predicted, m_intrinsics, H_d);
+      H_d = (focal_px.asDiagonal() * H_d).eval();
 
       // Entire feature Jacobian
       H_f.block<2, 3>(2 * i, 0) = H_d * H_p * rot_l_to_ci;
-- 
2.43.0


From d3fc2136c6ec24bd5319b0f7e00ecb3eb1137b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 29/46] fix: triangulate features along the rays before the
 lens

---
 src/ekf/update/msckf_updater.cpp | 24 ++++++++++++++++++++++++
 src/ekf/update/msckf_updater.hpp |  8 ++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 527e949..19460e4 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -115,6 +115,9 @@ bool MsckfUpdater::TriangulateFeature(
       m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
     b_i(2) = 1;
 
+    // Points are seen through the lens
+    b_i.head<2>() = Undistort(b_i.head<2>(), m_intrinsics);
+
     // Rotate and normalize
     b_i = (rot_ci_to_c0 * b_i / b_i.norm()).eval();
 
@@ -245,6 +248,27 @@ Eigen::Vector2d MsckfUpdater::Distort(
   return xy;
 }
 
+Eigen::Vector2d MsckfUpdater::Undistort(
+  const Eigen::Vector2d & xy_dist,
+  const Intrinsics & intrinsics
+)
+{
+  const unsigned int max_iterations{20};
+  const double tolerance{1e-12};
+
+  Eigen::Vector2d xy_norm = xy_dist;
+  for (unsigned int i = 0; i < max_iterations; ++i) {
+    Eigen::Vector2d error = xy_dist - Distort(xy_norm, intrinsics);
+    if (error.norm() < tolerance) {
+      break;
+    }
+    Eigen::MatrixXd H_d(2, 2);
+    DistortionJacobian(xy_norm, intrinsics, H_d);
+    xy_norm += Eigen::Matrix2d(H_d).inverse() * error;
+  }
+
+  return xy_norm;
+}
 
 void MsckfUpdater::UpdateEKF(
   EKF & ekf,
diff --git a/src/ekf/update/msckf_updater.hpp b/src/ekf/update/msckf_updater.hpp
index ba3659b..5028082 100644
--- a/src/ekf/update/msckf_updater.hpp
+++ b/src/ekf/update/msckf_updater.hpp
@@ -111,6 +111,14 @@ public:
   ///
   static Eigen::Vector2d Distort(const Eigen::Vector2d & xy_norm, const Intrinsics & intrinsics);
 
+  ///
+  /// @brief Find the normalized camera coordinate that is distorted to a given one
+  /// @param xy_dist Distorted XY coordinate
+  /// @param intrinsics camera intrinsics
+  /// @return Normalized camera coordinate
+  ///
+  static Eigen::Vector2d Undistort(const Eigen::Vector2d & xy_dist, const Intrinsics & intrinsics);
+
 private:
   bool m_is_cam_extrinsic;
   DataLogger m_msckf_logger;
-- 
2.43.0


From 50e4ec2369d4cf15c15378c89b68058d05aeec22 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 30/46] fix: hold on to the first estimates in Jacobians only,
 not in predicted measurements

---
 src/ekf/update/fiducial_updater.cpp | 15 ++++++++++-----
 src/ekf/update/gps_updater.cpp      |  8 ++------
 src/ekf/update/msckf_updater.cpp    | 27 ++++++++++++++++++---------
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index a554a20..724b615 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -123,11 +123,16 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
 {
-  RefreshStates(ekf);
+  // Only the Jacobian may hold on to the first estimates
+  const Eigen::Vector3d pos_c_in_b = ekf.m_state.cam_states[m_camera_id].pos_c_in_b;
+  const Eigen::Quaterniond ang_c_to_b = ekf.m_state.cam_states[m_camera_id].ang_c_to_b;
+  const Eigen::Vector3d pos_f_in_l = ekf.m_state.fid_states[m_id].pos_f_in_l;
+  const Eigen::Quaterniond ang_f_to_l = ekf.m_state.fid_states[m_id].ang_f_to_l;
+
   Eigen::VectorXd predicted_measurement = Eigen::VectorXd::Zero(6);
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
-  Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
+  Eigen::Matrix3d rot_b_to_c = ang_c_to_b.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_b_to_l = ang_b_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = rot_b_to_l.transpose();
   Eigen::Quaterniond ang_l_to_c(rot_b_to_c * rot_l_to_b);
@@ -136,9 +141,9 @@ Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
   Eigen::Quaterniond ang_predicted, ang_measured, ang_residual;
 
   // Project the current feature into the current frame of reference
-  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (m_pos_f_in_l - pos_b_in_l);
-  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - m_pos_c_in_b);
-  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * m_ang_f_to_l);
+  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (pos_f_in_l - pos_b_in_l);
+  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - pos_c_in_b);
+  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * ang_f_to_l);
   return predicted_measurement;
 }
 
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index d4b22c3..4709060 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -79,12 +79,8 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::Vector3d GpsUpdater::PredictMeasurement(EKF & ekf)
 {
-  if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
-    m_pos_a_in_b = ekf.m_state.gps_states[m_id].pos_a_in_b;
-    m_is_first_estimate = false;
-  }
-
-  return ekf.m_state.body_state.pos_b_in_l + ekf.m_state.body_state.ang_b_to_l * m_pos_a_in_b;
+  return ekf.m_state.body_state.pos_b_in_l +
+         ekf.m_state.body_state.ang_b_to_l * ekf.m_state.gps_states[m_id].pos_a_in_b;
 }
 
 void GpsUpdater::UpdateEKF(
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 19460e4..3856944 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -80,6 +80,10 @@ bool MsckfUpdater::TriangulateFeature(
     pos_f_in_l = feature_track.true_feature_position;
   }
 
+  const Eigen::Vector3d pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
+  const Eigen::Quaterniond ang_c_to_b = ekf.m_state.cam_states[m_id].ang_c_to_b;
+  const Intrinsics & intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
+
   AugState aug_state_0 = ekf.GetAugState(
     m_id, feature_track.track[0].frame_id, feature_track.track[0].frame_time);
 
@@ -89,7 +93,7 @@ bool MsckfUpdater::TriangulateFeature(
 
   const Eigen::Vector3d pos_b0_in_l = aug_state_0.pos_b_in_l;
   const Eigen::Matrix3d rot_b0_to_l = aug_state_0.ang_b_to_l.toRotationMatrix();
-  const Eigen::Matrix3d rot_c_to_b = m_ang_c_to_b.toRotationMatrix();
+  const Eigen::Matrix3d rot_c_to_b = ang_c_to_b.toRotationMatrix();
 
   const Eigen::Matrix3d rot_l_to_b0 = rot_b0_to_l.transpose();
   const Eigen::Matrix3d rot_b0_to_c0 = rot_c_to_b.transpose();
@@ -104,19 +108,19 @@ bool MsckfUpdater::TriangulateFeature(
     // Convert current pos relative to anchor
     Eigen::Matrix3d rot_ci_to_c0 = rot_b0_to_c0 * rot_l_to_b0 * rot_bi_to_l * rot_c_to_b;
     Eigen::Vector3d pos_ci_in_c0 = rot_b0_to_c0 * rot_l_to_b0 * (
-      (rot_bi_to_l * m_pos_c_in_b + pos_bi_in_l) -
-      (rot_b0_to_l * m_pos_c_in_b + pos_b0_in_l));
+      (rot_bi_to_l * pos_c_in_b + pos_bi_in_l) -
+      (rot_b0_to_l * pos_c_in_b + pos_b0_in_l));
 
     // Get the UV coordinate normal
     Eigen::Vector3d b_i;
     b_i(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
-      m_intrinsics.width / 2) / (m_intrinsics.f_x / m_intrinsics.pixel_size);
+      intrinsics.width / 2) / (intrinsics.f_x / intrinsics.pixel_size);
     b_i(1) = (static_cast<double>(feature_track.track[i].key_point.pt.y) -
-      m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
+      intrinsics.height / 2) / (intrinsics.f_y / intrinsics.pixel_size);
     b_i(2) = 1;
 
     // Points are seen through the lens
-    b_i.head<2>() = Undistort(b_i.head<2>(), m_intrinsics);
+    b_i.head<2>() = Undistort(b_i.head<2>(), intrinsics);
 
     // Rotate and normalize
     b_i = (rot_ci_to_c0 * b_i / b_i.norm()).eval();
@@ -145,7 +149,7 @@ bool MsckfUpdater::TriangulateFeature(
       success = false;
     }
   } else {
-    pos_f_in_l_tri = rot_b0_to_l * (m_ang_c_to_b * pos_f_in_c0 + m_pos_c_in_b) + pos_b0_in_l;
+    pos_f_in_l_tri = rot_b0_to_l * (ang_c_to_b * pos_f_in_c0 + pos_c_in_b) + pos_b0_in_l;
 
     std::stringstream msg;
     msg << std::setprecision(3) << local_time;
@@ -343,7 +347,12 @@ void MsckfUpdater::UpdateEKF(
       // Project the current feature into the current frame of reference
       Eigen::Vector3d pos_f_in_bi = rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l);
       Eigen::Vector3d pos_f_in_ci = rot_ci_to_b.transpose() * (pos_f_in_bi - m_pos_c_in_b);
-      Eigen::Vector2d xy_predicted = Project(pos_f_in_ci);
+
+      // Only the Jacobian may hold on to the first estimates
+      const CamState & cam_state = ekf.m_state.cam_states[m_id];
+      Eigen::Vector2d xy_predicted = Project(
+        cam_state.ang_c_to_b.toRotationMatrix().transpose() *
+        (pos_f_in_bi - cam_state.pos_c_in_b));
 
       Eigen::Vector2d xy_measured;
       xy_measured(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
@@ -363,7 +372,7 @@ void MsckfUpdater::UpdateEKF(
 
       // Distortion Jacobian
       Eigen::MatrixXd H_d(2, 2);
-      DistortionJacobian(xy_predicted, m_intrinsics, H_d);
+      DistortionJacobian(Project(pos_f_in_ci), m_intrinsics, H_d);
       H_d = (focal_px.asDiagonal() * H_d).eval();
 
       // Entire feature Jacobian
-- 
2.43.0


From 72ee71a0b97cee7e696e3eda3e286809c9690a4c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 31/46] fix: end feature tracks at frames without any features

---
 src/trackers/feature_tracker.cpp | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index cb7d4be..c1c4d25 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -240,28 +240,28 @@ void FeatureTracker::Track(
           static_cast<unsigned int>(match.trainIdx)].class_id)].
       push_back(feat_point);
     }
+  }
 
-    // Update MSCKF on features no longer detected
-    FeatureTracks feature_tracks;
-    for (auto it = m_feature_points_map.cbegin(); it != m_feature_points_map.cend(); ) {
-      const auto & feature_points = it->second;
-      if ((feature_points.back().frame_id < frame_id) ||
-        (feature_points.size() >= m_max_track_length))
-      {
-        // This feature does not exist in the latest frame
-        if (feature_points.size() >= m_min_track_length) {
-          FeatureTrack feature_track;
-          feature_track.track = feature_points;
-          feature_tracks.push_back(feature_track);
-        }
-        it = m_feature_points_map.erase(it);
-      } else {
-        ++it;
+  // Update MSCKF on features no longer detected
+  FeatureTracks feature_tracks;
+  for (auto it = m_feature_points_map.cbegin(); it != m_feature_points_map.cend(); ) {
+    const auto & feature_points = it->second;
+    if ((feature_points.back().frame_id < frame_id) ||
+      (feature_points.size() >= m_max_track_length))
+    {
+      // This feature does not exist in the latest frame
+      if (feature_points.size() >= m_min_track_length) {
+        FeatureTrack feature_track;
+        feature_track.track = feature_points;
+        feature_tracks.push_back(feature_track);
       }
+      it = m_feature_points_map.erase(it);
+    } else {
+      ++it;
     }
-    if (!feature_tracks.empty()) {
-      m_msckf_updater.UpdateEKF(*m_ekf, time, feature_tracks, m_px_error);
-    }
+  }
+  if (!feature_tracks.empty()) {
+    m_msckf_updater.UpdateEKF(*m_ekf, time, feature_tracks, m_px_error);
   }
 
   m_prev_frame_id = frame_id;
-- 
2.43.0


From b2667b8c294db256850969820200137eb81640e6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 32/46] fix: keep matches of a camera that stands still

---
 src/trackers/feature_tracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index c1c4d25..ead8266 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -380,7 +380,7 @@ void FeatureTracker::DistanceTest(
     double dist = std::sqrt(
       std::pow(point_curr.x - point_prev.x, 2) +
       std::pow(point_curr.y - point_prev.y, 2));
-    if (dist < dist_mean * 3.0) {
+    if (dist <= dist_mean * 3.0) {
       matches_out.push_back(matches_in[i]);
     }
   }
-- 
2.43.0


From c56bdcbc76348f65d05072c07606946d58567b1d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 33/46] fix: report features of down-sampled pictures in pixels
 of the camera

---
 src/trackers/feature_tracker.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index ead8266..4e0f001 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -216,10 +216,23 @@ void FeatureTracker::Track(
     RANSAC(matches_symmetry, curr_key_points, matches_ransac);
     DistanceTest(matches_ransac, curr_key_points, matches_final);
 
+    // Camera intrinsics refer to pixels of the original image
+    auto to_input_pixels = [&](cv::KeyPoint key_point) {
+        if (m_down_sample) {
+          const float scale_x = static_cast<float>(img_in.cols) / static_cast<float>(img_down.cols);
+          const float scale_y = static_cast<float>(img_in.rows) / static_cast<float>(img_down.rows);
+          key_point.pt.x = (key_point.pt.x + 0.5F) * scale_x - 0.5F;
+          key_point.pt.y = (key_point.pt.y + 0.5F) * scale_y - 0.5F;
+        }
+        return key_point;
+      };
+
     // Draw tracks
     for (const auto & match : matches_final) {
-      cv::Point2f point_old = m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].pt;
-      cv::Point2f point_new = curr_key_points[static_cast<unsigned int>(match.trainIdx)].pt;
+      cv::Point2f point_old =
+        to_input_pixels(m_prev_key_points[static_cast<unsigned int>(match.queryIdx)]).pt;
+      cv::Point2f point_new =
+        to_input_pixels(curr_key_points[static_cast<unsigned int>(match.trainIdx)]).pt;
       cv::line(img_out, point_old, point_new, cv::Scalar(0, 255, 0), 2, 8, 0);
     }
 
@@ -228,14 +241,14 @@ void FeatureTracker::Track(
       if (m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id == -1) {
         m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id = GenerateFeatureID();
         FeaturePoint feat_point {m_prev_frame_id, m_prev_frame_time,
-          m_prev_key_points[static_cast<unsigned int>(match.queryIdx)]};
+          to_input_pixels(m_prev_key_points[static_cast<unsigned int>(match.queryIdx)])};
         m_feature_points_map[static_cast<unsigned int>(m_prev_key_points[
             static_cast<unsigned int>(match.queryIdx)].class_id)].push_back(feat_point);
       }
       curr_key_points[static_cast<unsigned int>(match.trainIdx)].class_id =
         m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id;
       FeaturePoint feat_point {frame_id, m_ekf->GetCurrentTime(),
-        curr_key_points[static_cast<unsigned int>(match.trainIdx)]};
+        to_input_pixels(curr_key_points[static_cast<unsigned int>(match.trainIdx)])};
       m_feature_points_map[static_cast<unsigned int>(curr_key_points[
           static_cast<unsigned int>(match.trainIdx)].class_id)].
       push_back(feat_point);
-- 
2.43.0


From 474d4693a22443ea72b3081f120cda6dbf8cd395 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 34/46] fix: start biases with their own variance when only
 they are calibrated

---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..018425e 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.segment<6>(6).asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From 8ff459598e6ace57e366897f1cf8fd0f71aed491 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 35/46] fix: do not correct the filter by a board whose pose
 was not found

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..07e61f4 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -165,19 +165,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 3784255b26283a95aa8b26697eb9923c2d52067a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 36/46] fix: use the markers of boards without a checkerboard

---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 07e61f4..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


From 2da94a0d6af457fa238029fd9b777bdf2992f6b1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 37/46] fix: hold the attitude a cyclic trajectory starts with
 until it starts

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From c08401852760002adc573c572c16e07fda2eecda Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 38/46] fix: angular acceleration of a cyclic trajectory misses
 the change of the Euler transform

---
 .../sim/truth_engine_cyclic.cpp               | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..dd49d6e 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -178,6 +178,14 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
   if (relative_time < 0.0) {
     body_ang_acc = Eigen::Vector3d::Zero(3);
   } else {
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
     Eigen::Vector3d dd_rpy;
     dd_rpy[0] = m_ang_amplitude * 2 * M_PI * M_PI * m_ang_frequency[0] *
       m_ang_frequency[0] * std::cos(m_ang_frequency[0] * 2 * M_PI * relative_time);
@@ -188,7 +196,21 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
 
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    // Time derivative of the Euler derivative transform
+    Eigen::Matrix3d d_transform;
+    d_transform.setZero();
+    d_transform(0, 2) = -std::cos(rpy[1]) * d_rpy[1];
+    d_transform(1, 1) = -std::sin(rpy[0]) * d_rpy[0];
+    d_transform(1, 2) =
+      std::cos(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::sin(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+    d_transform(2, 1) = -std::cos(rpy[0]) * d_rpy[0];
+    d_transform(2, 2) =
+      -std::sin(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::cos(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 251a237e47539427872c40a913ecf22175c4e00e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 39/46] fix: wait at the first pose of a spline trajectory, not
 at the origin

---
 src/infrastructure/sim/truth_engine_spline.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index f639db2..c6134ba 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -28,7 +28,9 @@ Eigen::Vector3d TruthEngineSpline::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
+  if (relative_time < 0.0 && !IsSplineInvalid(m_pos_spline)) {
+    body_pos = m_pos_spline(0.0);
+  } else if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
     body_pos = Eigen::Vector3d::Zero(3);
   } else {
     body_pos = m_pos_spline(relative_time / (m_max_time - m_stationary_time));
@@ -74,7 +76,9 @@ Eigen::Quaterniond TruthEngineSpline::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
+  if (relative_time < 0.0 && !IsSplineInvalid(m_ang_spline)) {
+    body_ang_pos = EigVecToQuat(m_ang_spline(0.0));
+  } else if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
     body_ang_pos = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
   } else {
     double spline_param = relative_time / (m_max_time - m_stationary_time);
-- 
2.43.0


From 4a6195280e94962cdcad6429f263eea7b99d0899 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 40/46] fix: keep the true biases in simulated readings without
 errors

---
 src/sensors/sim/sim_imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sensors/sim/sim_imu.cpp b/src/sensors/sim/sim_imu.cpp
index 768d2b0..11e463e 100644
--- a/src/sensors/sim/sim_imu.cpp
+++ b/src/sensors/sim/sim_imu.cpp
@@ -99,7 +99,10 @@ std::vector<std::shared_ptr<SimImuMessage>> SimIMU::GenerateMessages() const
     sim_imu_msg->acceleration = imu_acc_i;
     sim_imu_msg->angular_rate = imu_omg_i;
 
-    if (!m_no_errors) {
+    if (m_no_errors) {
+      sim_imu_msg->acceleration += acc_bias_true;
+      sim_imu_msg->angular_rate += gyr_bias_true;
+    } else {
       sim_imu_msg->acceleration += SimRNG::VecNormRand(acc_bias_true, m_acc_error);
       sim_imu_msg->angular_rate += SimRNG::VecNormRand(gyr_bias_true, m_omg_error);
     }
-- 
2.43.0


From 28d1b3e382ffce686059c7ea83ea1a7601813190 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 41/46] fix: do not read past the samples of a smoothed
 trajectory

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..cebd311 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -31,6 +31,9 @@ Eigen::Vector3d TruthEngineSmoother::GetInterpolatedValue(
   double whole;
   double alpha = std::modf(time * m_rate, &whole);
   auto index = static_cast<unsigned int>(whole);
+  if (index + 1 >= values.size()) {
+    return values.back();
+  }
   return values[index] * (1 - alpha) + values[index + 1] * alpha;
 }
 
-- 
2.43.0


From 2bf80c29168bef6e4da68f1e638ab1504bd0451c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 42/46] fix: begin and end a smoothed trajectory at its first
 and last pose

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index cebd311..fdf02d7 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -121,7 +121,7 @@ std::vector<Eigen::Vector3d> InterpolateVectors(
   unsigned int j{0};
   for (unsigned int i = 0; i < m_time.size(); ++i) {
     Eigen::Vector3d vec {0.0, 0.0, 0.0};
-    if ((m_time[i] > times[0]) && (m_time[i] < times.back())) {
+    if ((m_time[i] >= times[0]) && (m_time[i] <= times.back())) {
       while (j < times.size() && ((m_time[i] < times[j]) || m_time[i] > times[j + 1])) {
         ++j;
       }
-- 
2.43.0


From 90b49787dfaa86926e3e7d732bb11efead1290c2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 43/46] fix: hand variances of simulated board detections to
 the filter, not standard deviations

---
 src/trackers/sim/sim_fiducial_tracker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trackers/sim/sim_fiducial_tracker.cpp b/src/trackers/sim/sim_fiducial_tracker.cpp
index 2b8d2eb..d28cf7a 100644
--- a/src/trackers/sim/sim_fiducial_tracker.cpp
+++ b/src/trackers/sim/sim_fiducial_tracker.cpp
@@ -134,8 +134,8 @@ std::shared_ptr<SimFiducialTrackerMessage> SimFiducialTracker::GenerateMessage(
     BoardDetection board_detection;
     board_detection.frame_id = frame_id;
     board_detection.frame_time = message_time;
-    board_detection.pos_error = m_t_vec_error;
-    board_detection.ang_error = m_r_vec_error;
+    board_detection.pos_error = m_t_vec_error.cwiseProduct(m_t_vec_error);
+    board_detection.ang_error = m_r_vec_error.cwiseProduct(m_r_vec_error);
     if (!m_no_errors) {
       board_detection.pos_f_in_c = SimRNG::VecNormRand(pos_f_in_c_true, m_t_vec_error);
       board_detection.ang_f_to_c = SimRNG::QuatNormRand(ang_f_to_c_true, m_r_vec_error);
-- 
2.43.0


From a1fccdf8c4c2d29f206afbe29716d91da12aeaec Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 44/46] fix: log IMU variances of stationary updates as
 variances

Stationary updates squared the diagonal of the covariance also where it is
not kept in square-root form, so rows of one column held variances or their
squares depending on the kind of the update.
---
 src/ekf/update/imu_updater.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index e869af5..c472e26 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -279,13 +279,19 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    if (ekf.GetUseRootCovariance()) {
+      ex_diag = ex_diag.cwiseProduct(ex_diag);
+    }
+    msg << VectorToCommaString(ex_diag);
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
     Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    if (ekf.GetUseRootCovariance()) {
+      in_diag = in_diag.cwiseProduct(in_diag);
+    }
+    msg << VectorToCommaString(in_diag);
   }
 
   msg << VectorToCommaString(acceleration);
-- 
2.43.0


From 0a72eaada278e2cc2c344085d78621c2a5522c2c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 45/46] fix: limit the rate of logs that start at time zero

Zero stood for an unset start time, so a log whose first row was at time zero
wrote every row of that time and counted from a later one.
---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..9077c39 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_is_time_initialized) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_is_time_initialized = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..21fbe7d 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_is_time_initialized{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From bd308a037370102d7df8087af4d3fafbb6bac90a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 46/46] fix: log variances of states when the covariance is
 kept as a square root

The logged variance of a state was the square of its diagonal entry of the
upper triangular root instead of the squared norm of its column, which loses
every contribution from the rows above.
---
 src/ekf/ekf.cpp                     | 13 +++++++++----
 src/ekf/ekf.hpp                     |  8 ++++++++
 src/ekf/update/fiducial_updater.cpp | 12 ++----------
 src/ekf/update/gps_updater.cpp      |  6 +-----
 src/ekf/update/imu_updater.cpp      | 16 +++-------------
 src/ekf/update/msckf_updater.cpp    |  6 +-----
 6 files changed, 24 insertions(+), 37 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index c4a98e7..ee72778 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -113,10 +113,7 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
 {
   if (m_data_log_rate != 0.0) {
     std::stringstream msg;
-    Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
-    if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
-    }
+    Eigen::VectorXd body_cov = GetVariances(0, g_body_state_size);
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
     msg << VectorToCommaString(m_state.body_state.vel_b_in_l);
@@ -131,6 +128,14 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
   }
 }
 
+Eigen::VectorXd EKF::GetVariances(unsigned int index, unsigned int size) const
+{
+  if (m_use_root_covariance) {
+    return m_cov.middleCols(index, size).colwise().squaredNorm();
+  }
+  return m_cov.diagonal().segment(index, size);
+}
+
 /// @todo: Use RK4 or other higher-order prediction step
 void EKF::PredictModel(double local_time)
 {
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index eca64b0..45945c5 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -134,6 +134,14 @@ public:
   ///
   unsigned int GetCamCount() const;
 
+  ///
+  /// @brief Variances of consecutive states, in either form of the covariance
+  /// @param index Index of the first state
+  /// @param size Number of states
+  /// @return Vector of variances
+  ///
+  Eigen::VectorXd GetVariances(unsigned int index, unsigned int size) const;
+
   ///
   /// @brief Check if body data should be logged and do so if necessary
   /// @param execution_count
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 724b615..3326dd0 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -197,20 +197,12 @@ void FiducialUpdater::UpdateEKF(
     msg << VectorToCommaString(ekf.m_state.fid_states[m_id].pos_f_in_l);
     msg << QuaternionToCommaString(ekf.m_state.fid_states[m_id].ang_f_to_l);
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(fid_index, g_fid_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(cam_index, g_cam_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << "," << t_execution.count();
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index 4709060..fbb677a 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -131,11 +131,7 @@ void GpsUpdater::UpdateEKF(
   if (m_is_extrinsic) {
     msg << VectorToCommaString(ekf.m_state.gps_states[m_id].pos_a_in_b);
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(gps_index, g_gps_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << VectorToCommaString(residual);
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index c472e26..7c85bba 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -137,11 +137,7 @@ void ImuUpdater::UpdateEKF(
   if (m_is_extrinsic || m_is_intrinsic) {
     unsigned int imu_index = ekf.m_state.imu_states[m_id].index;
     unsigned int imu_size = ekf.m_state.imu_states[m_id].size;
-    Eigen::VectorXd cov_diag =
-      ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(imu_index, imu_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << VectorToCommaString(acceleration);
@@ -278,19 +274,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      ex_diag = ex_diag.cwiseProduct(ex_diag);
-    }
+    Eigen::VectorXd ex_diag = ekf.GetVariances(index_extrinsic, 6);
     msg << VectorToCommaString(ex_diag);
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
-    Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      in_diag = in_diag.cwiseProduct(in_diag);
-    }
+    Eigen::VectorXd in_diag = ekf.GetVariances(index_intrinsic, 6);
     msg << VectorToCommaString(in_diag);
   }
 
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3856944..131c556 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -450,11 +450,7 @@ void MsckfUpdater::UpdateEKF(
   msg << VectorToCommaString(ekf.m_state.cam_states[m_id].pos_c_in_b);
   msg << QuaternionToCommaString(ekf.m_state.cam_states[m_id].ang_c_to_b);
   if (m_is_cam_extrinsic) {
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(cam_index, g_cam_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << "," << std::to_string(feature_tracks.size());
-- 
2.43.0

