PRELUDE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "ekf/update/updater.hpp"
#include "infrastructure/debug_logger.hpp"
#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::Vector3d; using Eigen::Matrix3d; using Eigen::Quaterniond;
static int bad = 0;
static void near(double a, double b, const char * w, double tol = 1e-6) {if (!(std::abs(a - b) <= tol)) {std::printf("%s: %.9g instead of %.9g\\n", w, a, b); bad = 1;}}
static EKF::Parameters params() {EKF::Parameters p; p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, ""); return p;}
'''
BUGS = {}
def bug(i, property, edits, needs, breaks, demo):
    BUGS[i] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)

bug('p01-attitude-order', 'P01',
    [('src/ekf/ekf.cpp', 'm_state.body_state.ang_b_to_l = RotVecToQuat(rot_vec) * m_state.body_state.ang_b_to_l;',
      'm_state.body_state.ang_b_to_l = m_state.body_state.ang_b_to_l * RotVecToQuat(rot_vec);')],
    'a body that is tilted and rotates about an axis other than the one of its tilt',
    'the angular rate is expressed in the local frame, but the rotation over the interval is applied in the body frame',
    '''int main() {
  EKF ekf(params()); BodyState b; b.ang_b_to_l = Quaterniond(0.6, 0.8, 0, 0); b.ang_vel_b_in_l = Vector3d(0, 0, 1);
  ekf.Initialize(0, b); ekf.InitializeGravity(); ekf.PredictModel(0.5);
  Quaterniond w = Quaterniond(std::cos(0.25), 0, 0, std::sin(0.25)) * Quaterniond(0.6, 0.8, 0, 0);
  near(ekf.m_state.body_state.ang_b_to_l.angularDistance(w), 0, "attitude");
  return bad;
}
''')
bug('p02-camera-stability', 'P02',
    [('src/ekf/ekf.cpp', 'Eigen::Matrix3d::Identity() * cam_iter.second.ang_stability;', 'Eigen::Matrix3d::Identity() * cam_iter.second.pos_stability;')],
    'a calibrated camera whose rotational and positional stabilities differ',
    'the rotational calibration of a camera receives the positional process noise',
    '''int main() {
  EKF ekf(params()); ekf.Initialize(0, BodyState()); ekf.InitializeGravity();
  CamState c; c.SetIsExtrinsic(true); c.rate = 10; c.pos_stability = 0.5; c.ang_stability = 0.125;
  ekf.RegisterCamera(1, c, MatrixXd::Identity(6, 6)); unsigned i = ekf.GetCamState(1).index;
  ekf.PredictModel(1.0);
  near(ekf.m_cov(i, i), 1.5, "position"); near(ekf.m_cov(i + 4, i + 4), 1.125, "angle");
  return bad;
}
''')
bug('p03-correlated-noise', 'P03',
    [('src/ekf/update/updater.cpp', 'gain * observation_noise * gain.transpose();', 'gain * observation_noise.diagonal().asDiagonal() * gain.transpose();')],
    'a measurement noise with correlation between the measured values, full covariance form',
    'the posterior covariance ignores the correlation of the measurement noise, so it is not the minimum-variance posterior',
    '''int main() {
  EKF ekf(params()); ekf.Initialize(0, BodyState());
  ekf.m_cov = MatrixXd::Identity(18, 18) * 2; ekf.m_cov(0, 1) = ekf.m_cov(1, 0) = 0.5;
  MatrixXd H = MatrixXd::Zero(2, 18); H(0, 0) = 1; H(1, 1) = 1;
  MatrixXd R(2, 2); R << 1, 0.5, 0.5, 2; VectorXd r = VectorXd::Zero(2);
  MatrixXd P = ekf.m_cov; MatrixXd K = P * H.transpose() * (H * P * H.transpose() + R).inverse(); MatrixXd W = P - K * H * P;
  Updater::KalmanUpdate(ekf, H, r, R);
  for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {near(ekf.m_cov(i, j), W(i, j), "posterior");}}
  return bad;
}
''')
bug('p05-gps-offset', 'P05',
    [('src/ekf/ekf.cpp', '''    gps_iter.second.index = current_index;
    if (gps_iter.second.GetIsExtrinsic()) {''', '''    if (gps_iter.second.GetIsExtrinsic()) {
      gps_iter.second.index =
        m_gps_state_start + (current_index - m_gps_state_start) % m_gps_state_size;
      if (gps_iter.second.index < m_gps_state_start + 6) {gps_iter.second.index = current_index;} else {
        gps_iter.second.index = m_gps_state_start + 3;
      }''')],
    'three or more calibrated antennas',
    'the third antenna shares the state of the second',
    '''int main() {
  EKF ekf(params()); ekf.Initialize(0, BodyState());
  for (unsigned id : {4u, 7u, 9u}) {GpsState g; g.SetIsExtrinsic(true); ekf.RegisterGPS(id, g, Matrix3d::Identity() * id);}
  near(ekf.GetGpsState(4).index, 18, "first"); near(ekf.GetGpsState(7).index, 21, "second"); near(ekf.GetGpsState(9).index, 24, "third");
  return bad;
}
''')
bug('p07-uncalibrated-antenna', 'P07',
    [('src/ekf/types.cpp', '''      gps_iter.second.pos_a_in_b = state.segment<g_gps_extrinsic_state_size>(idx);
      idx += g_gps_extrinsic_state_size;
    }
''', '''      gps_iter.second.pos_a_in_b = state.segment<g_gps_extrinsic_state_size>(idx);
    }
    idx += g_gps_extrinsic_state_size;
''')],
    'an antenna without calibration together with calibrated sensors that come after it',
    'setting the state from a vector shifts everything behind an uncalibrated antenna',
    '''int main() {
  EKF ekf(params()); ekf.Initialize(0, BodyState());
  GpsState g; ekf.RegisterGPS(2, g, Matrix3d::Identity());
  FidState f; f.SetIsExtrinsic(true); f.id = 1; f.pos_f_in_l.setZero(); f.ang_f_to_l.setIdentity(); ekf.RegisterFiducial(f, MatrixXd::Identity(6, 6));
  FidState h; h.SetIsExtrinsic(true); h.id = 3; h.pos_f_in_l.setZero(); h.ang_f_to_l.setIdentity(); ekf.RegisterFiducial(h, MatrixXd::Identity(6, 6));
  VectorXd d = ekf.m_state.ToVector(); for (int k = 0; k < 3; k++) {d[18 + k] = k + 1; d[24 + k] = k + 5;}
  State s = ekf.m_state; s.SetState(d);
  for (int k = 0; k < 3; k++) {near(s.fid_states[1].pos_f_in_l[k], k + 1, "first board"); near(s.fid_states[3].pos_f_in_l[k], k + 5, "second board");}
  return bad;
}
''')
bug('p04-subdiagonal', 'P04',
    [('src/utility/math_helper.cpp', '  vert_cat << left, right;\n', '  vert_cat << left, Eigen::MatrixXd(right.triangularView<Eigen::Upper>());\n')],
    'a second factor with entries below its diagonal, such as a factor with a clone column inserted in the middle',
    'the reduction ignores everything below the diagonal of the second factor',
    '''int main() {
  MatrixXd A = MatrixXd::Identity(2, 2), B(2, 2); B << 1, 2, 3, 4;
  MatrixXd R = QR_r(A, B), G = R.transpose() * R, W = A.transpose() * A + B.transpose() * B;
  for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {near(G(i, j), W(i, j), "gram");}}
  return bad;
}
''')
bug('p06-rate-before-guard', 'P06',
    [('src/ekf/ekf.cpp', '''{
  // Check that ID hasn't been used before
  if (m_state.cam_states.find(cam_id) != m_state.cam_states.end()) {''', '''{
  m_max_frame_period = std::max(m_max_frame_period, 1 / cam_state.rate);
  m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
  m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);

  // Check that ID hasn't been used before
  if (m_state.cam_states.find(cam_id) != m_state.cam_states.end()) {'''),
     ('src/ekf/ekf.cpp', '''    return;
  }

  m_max_frame_period = std::max(m_max_frame_period, 1 / cam_state.rate);
  m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
  m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);

  if (m_primary_camera_id == 0) {''', '''    return;
  }

  if (m_primary_camera_id == 0) {''')],
    'a camera identifier registered again with a slower rate, and clones taken by time',
    'a rejected second registration of a camera still changes how long clones are kept',
    '''int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::TIME; p.augmenting_delta_time = 0.25;
  EKF ekf(p); ekf.Initialize(0, BodyState()); ekf.SetMaxTrackLength(3);
  CamState c; c.rate = 4; ekf.RegisterCamera(1, c, MatrixXd::Identity(6, 6));
  CamState d; d.rate = 0.1; ekf.RegisterCamera(1, d, MatrixXd::Identity(6, 6));
  for (double t : {1.0, 2.0, 3.5, 5.0, 6.5}) {ekf.AugmentStateIfNeeded(1, 1); ekf.PredictModel(t);}
  if (ekf.m_state.aug_states[0].size() > 2) {std::printf("%d clones kept\\n", (int)ekf.m_state.aug_states[0].size()); bad = 1;}
  return bad;
}
''')
bug('p08-later-states', 'P08',
    [('src/ekf/ekf.cpp', '      in_cov.block(index, 9, in_rows - index, 3);', '      in_cov.block(index, 6, in_rows - index, 3);')],
    'two cameras with clones, the camera with the smaller identifier cloning while the other already holds clones',
    'the attitude of a clone inserted before other clones gets the cross covariances of the acceleration',
    '''int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; EKF ekf(p); ekf.Initialize(0, BodyState());
  ekf.AugmentStateIfNeeded(5, 1);
  ekf.m_cov = MatrixXd::Zero(24, 24); for (int i = 0; i < 24; i++) {for (int j = 0; j < 24; j++) {ekf.m_cov(i, j) = 1.0 / (1 + i + j);}}
  MatrixXd c = ekf.m_cov;
  ekf.AugmentStateIfNeeded(3, 1);
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 3; j++) {near(ekf.m_cov(24 + i, 21 + j), c(18 + i, 9 + j), "cross");}}
  return bad;
}
''')
bug('p09-index-after-erase', 'P09',
    [('src/ekf/ekf.cpp', '''      unsigned int aug_start = m_state.aug_states[camera_id][0].index;

      // Remove first element from state
      m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
''', '''      // Remove first element from state
      m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
      unsigned int aug_start = m_state.aug_states[camera_id][0].index;
''')],
    'a full window of at least two clones whose covariances differ',
    'evicting the oldest clone removes the covariance of the second oldest',
    '''int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; EKF ekf(p); ekf.Initialize(0, BodyState()); ekf.SetMaxTrackLength(2);
  ekf.AugmentStateIfNeeded(5, 1); ekf.AugmentStateIfNeeded(5, 2);
  ekf.m_cov = MatrixXd::Identity(30, 30); for (int i = 0; i < 30; i++) {ekf.m_cov(i, i) = 1 + i;}
  ekf.AugmentStateIfNeeded(5, 3);
  for (int i = 0; i < 6; i++) {near(ekf.m_cov(18 + i, 18 + i), 25 + i, "kept clone");}
  return bad;
}
''')
bug('p09-prune-own-age', 'P09',
    [('src/ekf/ekf.cpp', '      ((m_current_time - m_state.aug_states[0][static_cast<unsigned int>(i + 1)].time) >', '      ((m_current_time - m_state.aug_states[0][static_cast<unsigned int>(i)].time) >')],
    'clones taken by time, and a clone that is too old while its successor is not',
    'a clone is dropped while it is still the older end of an interval that frames within the longest track need',
    '''int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::TIME; p.augmenting_delta_time = 0.25;
  EKF ekf(p); ekf.Initialize(0, BodyState()); ekf.SetMaxTrackLength(4);
  CamState c; c.rate = 2; ekf.RegisterCamera(1, c, MatrixXd::Identity(6, 6));
  ekf.AugmentStateIfNeeded(1, 1); ekf.PredictModel(1);
  ekf.AugmentStateIfNeeded(1, 2); ekf.PredictModel(3);
  ekf.PredictModel(4);
  near(ekf.m_state.aug_states[0].size(), 2, "clones");
  return bad;
}
''')
bug('p10-last-interval', 'P10',
    [('src/ekf/ekf.cpp', '            (m_state.aug_states[aug_key][i + 1].time - m_state.aug_states[aug_key][i].time);', '            (m_state.aug_states[aug_key].back().time - m_state.aug_states[aug_key][i].time);')],
    'three or more clones and a frame between two of the older ones',
    'the fraction within an older interval is computed over the span up to the latest clone',
    '''int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::TIME; p.augmenting_delta_time = 0.5; EKF ekf(p); ekf.Initialize(0, BodyState());
  ekf.SetMaxTrackLength(20); CamState c; c.rate = 1; ekf.RegisterCamera(1, c, MatrixXd::Identity(6, 6));
  for (int k = 0; k < 3; k++) {ekf.m_state.body_state.pos_b_in_l = Vector3d(k, 0, 0); ekf.AugmentStateIfNeeded(1, k); ekf.PredictModel(1 + k);}
  near(ekf.GetAugState(1, 1, 1.5).pos_b_in_l[0], 0.5, "first interval"); near(ekf.GetAugState(1, 1, 2.5).pos_b_in_l[0], 1.5, "second interval");
  return bad;
}
''')
bug('p12-noise-block', 'P12',
    [('src/ekf/update/fiducial_updater.cpp', '  meas_noise.block<3, 3>(3, 3) = board_detection.ang_error.asDiagonal();', '  meas_noise.block<3, 3>(3, 3) = board_detection.pos_error.asDiagonal();')],
    'a detection whose position and attitude variances differ',
    'the measured attitude is weighted with the variance of the measured position',
    '''#include "ekf/update/fiducial_updater.hpp"
int main() {
  double w[2];
  for (int k = 0; k < 2; k++) {
    EKF::Parameters p = params(); EKF ekf(p); ekf.Initialize(0, BodyState());
    CamState c; ekf.RegisterCamera(1, c, MatrixXd::Identity(6, 6));
    FidState f; f.id = 2; f.pos_f_in_l = Vector3d(5, 0, 0); ekf.RegisterFiducial(f, MatrixXd::Identity(6, 6));
    FiducialUpdater u(2, 1, false, false, "", 0.0, p.debug_logger);
    BoardDetection d; d.pos_f_in_c = Vector3d(5, 0, 0); d.ang_f_to_c = RotVecToQuat(Vector3d(0.1, 0, 0));
    d.pos_error = Vector3d(1, 1, 1); d.ang_error = Vector3d(1, 1, 1) * (k ? 100 : 0.01);
    u.UpdateEKF(ekf, 0, d);
    w[k] = QuatToRotVec(ekf.m_state.body_state.ang_b_to_l)[0];
  }
  if (!(std::abs(w[0]) > 5 * std::abs(w[1]))) {bad = 1; printf("attitude variance ignored: %g %g\\n", w[0], w[1]);}
  return bad;
}
''')
bug('p14-bias-unrotated', 'P14',
    [('src/ekf/update/imu_updater.cpp', 'ang_b_to_l * ang_i_to_b * (acceleration - acc_bias);', 'ang_b_to_l * (ang_i_to_b * acceleration - acc_bias);')],
    'one IMU with an accelerometer bias, mounted rotated on the body',
    'the accelerometer bias is subtracted in the frame of the body instead of the IMU',
    '''#include "ekf/update/imu_updater.hpp"
int main() {
  EKF::Parameters p = params(); EKF ekf(p); ekf.Initialize(0, BodyState()); ekf.InitializeGravity();
  ImuState i; i.SetIsIntrinsic(true); ekf.RegisterIMU(1, i, MatrixXd::Identity(6, 6) * 1e-4);
  ekf.m_state.imu_states[1].ang_i_to_b = Quaterniond(0.5, 0.5, 0.5, 0.5); ekf.m_state.imu_states[1].acc_bias = Vector3d(0.5, 0, 0);
  ImuUpdater u(1, false, true, "", 0.0, p.debug_logger);
  u.UpdateEKF(ekf, 0.25, Vector3d(100.5, 0, 0), Matrix3d::Identity() * 1e-3, Vector3d(0, 0, 0), Matrix3d::Identity() * 1e-3);
  Vector3d a = ekf.m_state.body_state.acc_b_in_l, w = Quaterniond(0.5, 0.5, 0.5, 0.5) * Vector3d(100, 0, 0);
  for (int k = 0; k < 3; k++) {near(a[k], w[k], "acceleration");}
  return bad;
}
''')
bug('p14-rate-noise', 'P14',
    [('src/ekf/update/imu_updater.cpp', '    meas_noise.block<3, 3>(0, 0) = acceleration_covariance;\n    meas_noise.block<3, 3>(3, 3) = angular_rate_covariance;\n\n    // Apply Kalman update\n    KalmanUpdate(ekf, jacobian, resid, meas_noise);\n  }', '    meas_noise.block<3, 3>(0, 0) = acceleration_covariance;\n    meas_noise.block<3, 3>(3, 3) = acceleration_covariance;\n\n    // Apply Kalman update\n    KalmanUpdate(ekf, jacobian, resid, meas_noise);\n  }')],
    'two IMUs, whose gyroscope and accelerometer covariances differ',
    'angular rates are weighted with the covariance of the accelerometer',
    '''#include "ekf/update/imu_updater.hpp"
int main() {
  double w[2];
  for (int k = 0; k < 2; k++) {
    EKF::Parameters p = params(); EKF ekf(p); ekf.Initialize(0, BodyState()); ekf.InitializeGravity();
    ImuState i; ekf.RegisterIMU(1, i, MatrixXd::Zero(0, 0)); ekf.RegisterIMU(2, i, MatrixXd::Zero(0, 0));
    ImuUpdater u(1, false, false, "", 0.0, p.debug_logger);
    ekf.m_cov = MatrixXd::Identity(18, 18);
    u.UpdateEKF(ekf, 0, Vector3d(900, 0, 0), Matrix3d::Identity(), Vector3d(1, 0, 0), Matrix3d::Identity() * (k ? 100 : 0.01));
    w[k] = ekf.m_state.body_state.ang_vel_b_in_l[0];
  }
  if (!(std::abs(w[0]) > 5 * std::abs(w[1]))) {bad = 1; printf("rate covariance ignored: %g %g\\n", w[0], w[1]);}
  return bad;
}
''')
bug('p15-gravity-from-motion', 'P15',
    [('src/ekf/update/imu_updater.cpp', '  } else if (score < ekf.GetMotionDetectionChiSquared()) {', '  } else {')],
    'a body that already moves when the first readings arrive',
    'gravity is taken as initialised by a reading of a moving body, so that the next one is integrated as motion',
    '''#include "ekf/update/imu_updater.hpp"
int main() {
  EKF::Parameters p = params(); EKF ekf(p); ekf.Initialize(0, BodyState());
  ImuState i; ekf.RegisterIMU(1, i, MatrixXd::Zero(0, 0));
  ImuUpdater u(1, false, false, "", 0.0, p.debug_logger);
  u.UpdateEKF(ekf, 0, Vector3d(900, 0, 0), Matrix3d::Identity() * 1e-3, Vector3d(1, 0, 0), Matrix3d::Identity() * 1e-3);
  if (ekf.IsGravityInitialized()) {bad = 1; printf("initialised by motion\\n");}
  return bad;
}
''')
bug('p15-forgets-motion', 'P15',
    [('src/ekf/update/imu_updater.cpp', '    m_initial_motion_detected = true;\n', '    m_initial_motion_detected = !m_is_intrinsic;\n')],
    'a self-calibrating IMU whose body moves and then accelerates at gravity only',
    'a calibrated sensor forgets that it has seen motion and holds a coasting body still',
    '''#include "ekf/update/imu_updater.hpp"
int main() {
  EKF::Parameters p = params(); EKF ekf(p); ekf.Initialize(0, BodyState()); ekf.InitializeGravity();
  ImuState i; i.SetIsIntrinsic(true); ekf.RegisterIMU(1, i, MatrixXd::Identity(6, 6) * 1e-4);
  ImuUpdater u(1, false, true, "", 0.0, p.debug_logger); Matrix3d r = Matrix3d::Identity() * 1e-3;
  u.UpdateEKF(ekf, 0, Vector3d(900, 0, 0), r, Vector3d(0, 0, 0), r);
  u.UpdateEKF(ekf, 0.125, Vector3d(0, 0, 9.80665), r, Vector3d(0.01, 0, 0), r);
  near(ekf.m_state.body_state.ang_vel_b_in_l[0], 0.01, "angular rate after motion");
  return bad;
}
''')
bug('p16-long-way', 'P16',
    [('src/utility/type_helper.cpp', '  Eigen::AngleAxisd ang_axis{quat};\n  Eigen::Vector3d rot_vec = ang_axis.axis() * ang_axis.angle();\n', '  double half = std::acos(quat.w());\n  Eigen::Vector3d rot_vec = Eigen::Vector3d::Zero();\n  if (std::abs(quat.w()) < 1.0) {rot_vec = quat.vec() / std::sin(half) * 2.0 * half;}\n')],
    'a quaternion with a negative real part',
    'the rotation vector goes the long way round, more than half a turn',
    '''int main() {
  Vector3d v = QuatToRotVec(Quaterniond(-0.8, 0.6, 0, 0));
  near(v[0], -2 * std::acos(0.8), "rotation vector");
  return bad;
}
''')
bug('p16-clamped-jacobian', 'P16',
    [('src/utility/math_helper.cpp', '  double vec_norm = std::max(rot_vec.norm(), 1e-9);', '  double vec_norm = std::min(std::max(rot_vec.norm(), 1e-9), 3.0);')],
    'an attitude turned by more than 3 rad',
    'the derivative of the rotation-vector chart saturates near half a turn',
    '''int main() {
  Quaterniond q = RotVecToQuat(Vector3d(0, 3.12, 0.1));
  Vector3d a = QuatToRotVec(q); double h = 1e-6; MatrixXd D(3, 3);
  for (int k = 0; k < 3; k++) {D.col(k) = (QuatToRotVec(q * Quaterniond(1, k == 0 ? h / 2 : 0, k == 1 ? h / 2 : 0, k == 2 ? h / 2 : 0).normalized()) - a) / h;}
  MatrixXd I = QuaternionJacobian(q) * D;
  for (int i = 0; i < 3; i++) {for (int k = 0; k < 3; k++) {near(I(i, k), i == k, "jacobian", 1e-3);}}
  return bad;
}
''')
bug('p17-height-scaled', 'P17',
    [('src/utility/gps_helper.cpp', '  out(2) = (r_n * (1.0 - NAV_E2) + lla(2)) * sin_lat;', '  out(2) = (r_n + lla(2)) * (1.0 - NAV_E2) * sin_lat;')],
    'a position away from the equator and above the ellipsoid',
    'the height contributes to the polar coordinate with the flattening of the ellipsoid',
    '''#include "utility/gps_helper.hpp"
int main() {
  Vector3d a = lla_to_ecef(Vector3d(40, 20, 0)), b = lla_to_ecef(Vector3d(40, 20, 1000));
  near((b - a).norm(), 1000, "height", 1e-3);
  return bad;
}
''')
bug('p13-banded-rotation', 'P13',
    [('src/utility/math_helper.cpp', '(jacobian.block(i - 1, j, 2, n_cols - j)).applyOnTheLeft', '(jacobian.block(i - 1, j, 2, std::min(n_cols - j, 6u))).applyOnTheLeft')],
    'measurements of more than six states',
    'the rotations of the compression reach only the next six states',
    '''int main() {
  MatrixXd J(9, 8); for (int i = 0; i < 9; i++) {for (int j = 0; j < 8; j++) {J(i, j) = std::sin(1.0 + i * 8 + j * j);}} VectorXd r = VectorXd::Ones(9);
  MatrixXd J0 = J; VectorXd r0 = r; CompressMeasurements(J, r);
  VectorXd a = J.transpose() * r, b = J0.transpose() * r0;
  for (int i = 0; i < 8; i++) {near(a[i], b[i], "information vector");}
  return bad;
}
''')
bug('p13-sign-of-projection', 'P13',
    [('src/utility/math_helper.cpp', '  H_x = Q_null * H_x;\n  res = Q_null * res;', '  H_x = Q_null * H_x;\n  res = (Q_null * Q_null.transpose()).inverse() * Q_null.cwiseAbs() * res;')],
    'a projection with entries of both signs',
    'the residual is projected with the magnitudes of the projection',
    '''int main() {
  MatrixXd F(3, 1); F << 1, 2, 3; MatrixXd H = MatrixXd::Identity(3, 3); VectorXd r(3); r << 1, -2, 0.5; VectorXd r0 = r;
  ApplyLeftNullspace(F, H, r);
  for (int i = 0; i < 2; i++) {near(r[i], (H * r0)[i], "residual");}
  return bad;
}
''')
bug('p18-mirrored', 'P18',
    [('src/utility/math_helper.cpp', '  eye(1, 1) = sign(det);', '  eye(1, 1) = std::abs(det);')],
    'readings along a straight line, or so noisy that the best orthogonal fit is a reflection',
    'the alignment may be a reflection instead of a rotation',
    '''int main() {
  for (int flip = 0; flip < 8; flip++) {
    std::vector<Vector3d> src, tgt; double c = flip & 1 ? 0.6 : -0.8, s = flip & 1 ? -0.8 : 0.6; if (flip & 2) {s = -s;}
    for (double x : {-8.0, 0.0, 16.0, 24.0}) {Vector3d p(x, flip & 4 ? x / 2 : 3.0, 1); src.push_back(p); tgt.push_back(Vector3d(c * p[0] - s * p[1], s * p[0] + c * p[1], 1));}
    Eigen::Affine3d T; double a, b; kabsch_2d(tgt, src, T, a, b);
    near(T.linear().determinant(), 1, "determinant"); near(T.linear()(1, 0), s, "sine");
  }
  return bad;
}
''')
bug('p18-last-position', 'P18',
    [('src/ekf/update/gps_updater.cpp', '    resid.segment(3 * i, 3) = gps_local - local_xyz_vec[i];', '    resid.segment(3 * i, 3) = gps_local - local_xyz_vec.back();')],
    'a body that moves while the reference is being established',
    'the remembered readings are compared with the latest position instead of the positions at their own times',
    '''#include "ekf/update/gps_updater.hpp"
#include "utility/gps_helper.hpp"
int main() {
  EKF::Parameters p = params(); p.gps_init_type = GpsInitType::BASELINE_DIST; p.gps_init_baseline_dist = 8;
  EKF e(p); e.Initialize(0, BodyState()); e.InitializeGravity();
  GpsState g; g.SetIsExtrinsic(true); g.pos_a_in_b.setZero(); e.RegisterGPS(5, g, Matrix3d::Identity() * 0.01);
  GpsUpdater u(5, true, "", 0.0, p.debug_logger); Vector3d ref(30.5, -96.25, 80), q;
  double X[4][2] = {{0, 0}, {16, 2}, {20, -12}, {-8, 4}};
  for (int k = 0; k < 4; k++) {
    q = Vector3d(X[k][0], X[k][1], 0); e.m_state.body_state.pos_b_in_l = q;
    u.UpdateEKF(e, 0.5 * k, enu_to_lla(q, ref), Matrix3d::Identity());
  }
  if (!e.IsLlaInitialized()) {std::printf("no reference\\n"); return 1;}
  for (int i = 0; i < 3; i++) {near(e.m_state.body_state.pos_b_in_l[i], q[i], "position", 0.01);}
  return bad;
}
''')
bug('p11-inverse-attitude', 'P11',
    [('src/ekf/update/gps_updater.cpp', 'measurement_jacobian.block<3, 3>(0, gps_index) = ang_b_to_l.toRotationMatrix();', 'measurement_jacobian.block<3, 3>(0, gps_index) = ang_b_to_l.inverse().toRotationMatrix();')],
    'a calibrated antenna on a body whose attitude is not its own inverse',
    'the antenna offset is corrected along axes turned the wrong way',
    '''#include "ekf/update/gps_updater.hpp"
int main() {
  EKF::Parameters p = params(); EKF e(p); e.Initialize(0, BodyState()); GpsState g; g.SetIsExtrinsic(true); g.pos_a_in_b = Vector3d(1, 2, 3); e.RegisterGPS(5, g, Matrix3d::Identity());
  e.m_state.body_state.ang_b_to_l = Quaterniond(0.6, 0, 0.8, 0); GpsUpdater u(5, true, "", 0.0, p.debug_logger);
  MatrixXd H = u.GetMeasurementJacobian(e); unsigned k = e.GetGpsState(5).index; Vector3d z = u.PredictMeasurement(e);
  for (int i = 0; i < 3; i++) {e.m_state.gps_states[5].pos_a_in_b = g.pos_a_in_b + Vector3d::Unit(i); Vector3d d = u.PredictMeasurement(e) - z; for (int j = 0; j < 3; j++) {near(H(j, k + i), d[j], "derivative");}}
  return bad;
}
''')
bug('p19-tangential', 'P19',
    [('src/ekf/update/msckf_updater.cpp', '2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2)', '2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * x2)')],
    'a lens with tangential distortion',
    'the vertical tangential distortion follows the horizontal coordinate, and no longer matches its derivative or the lens',
    '''#include "ekf/update/msckf_updater.hpp"
int main() {
  Intrinsics c; c.p_1 = 0.1; Eigen::Vector2d v = MsckfUpdater::Distort(Eigen::Vector2d(0.5, 0.25), c);
  near(v[1], 0.25 + 0.1 * (0.3125 + 2 * 0.0625), "vertical");
  return bad;
}
''')
bug('p19-focal-lengths', 'P19',
    [('src/ekf/update/msckf_updater.cpp', 'm_intrinsics.height / 2) / (m_intrinsics.f_y', 'm_intrinsics.height / 2) / (m_intrinsics.f_x')],
    'a camera whose two focal lengths differ',
    'rows of a picture are scaled with the focal length of the columns',
    '''#include "ekf/update/msckf_updater.hpp"
int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; EKF e(p); e.Initialize(0, BodyState()); e.InitializeGravity();
  CamState c; c.rate = 10; c.intrinsics.f_x = 0.01; c.intrinsics.f_y = 0.02; c.intrinsics.pixel_size = 1e-4; c.intrinsics.width = 640; c.intrinsics.height = 480; c.ang_c_to_b = Quaterniond(1, 0, 0, 0);
  e.RegisterCamera(3, c, MatrixXd::Identity(6, 6)); Vector3d f(0.5, 0.75, 4); FeatureTrack t; double at[4] = {0, 1, -1, 0.5};
  for (int k = 0; k < 4; k++) {
    e.PredictModel(0.1 * k); e.m_state.body_state.pos_b_in_l = Vector3d(at[k], 0.5 * at[k], 0); e.m_state.body_state.ang_b_to_l = Quaterniond(1, 0, 0, 0); e.m_state.body_state.vel_b_in_l.setZero(); e.AugmentStateIfNeeded(3, 60 + k);
    Vector3d x = f - e.m_state.body_state.pos_b_in_l; cv::KeyPoint q; q.class_id = 1; q.pt.x = 320 + 100 * x[0] / x[2]; q.pt.y = 240 + 200 * x[1] / x[2]; t.track.push_back(FeaturePoint{60u + k, 0.1 * k, q});
  }
  Vector3d before = e.m_state.body_state.pos_b_in_l; std::vector<AugState> clones = e.m_state.aug_states[3]; MsckfUpdater u(3, false, "", 0.0, 0.1, p.debug_logger); u.UpdateEKF(e, 0.3, FeatureTracks(1, t), 1.0);
  for (int i = 0; i < 3; i++) {near(e.m_state.body_state.pos_b_in_l[i], before[i], "body", 1e-3); for (size_t k = 0; k < clones.size(); k++) {near(e.m_state.aug_states[3][k].pos_b_in_l[i], clones[k].pos_b_in_l[i], "clone", 1e-3);}}
  return bad;
}
''')
bug('p20-weighted-rays', 'P20',
    [('src/ekf/update/msckf_updater.cpp', 'b_i = (rot_ci_to_c0 * b_i / b_i.norm()).eval();', 'b_i = (rot_ci_to_c0 * b_i).eval();')],
    'sightings with errors, away from the centre of the picture',
    'the ray of a sighting keeps its length, so that its projection is none and distant sightings are weighed wrongly in the triangulation',
    '''#include "ekf/update/msckf_updater.hpp"
int main() {
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; EKF e(p); e.Initialize(0, BodyState()); e.InitializeGravity();
  CamState c; c.rate = 10; c.intrinsics.f_x = 0.01; c.intrinsics.f_y = 0.01; c.intrinsics.pixel_size = 1e-4; c.intrinsics.width = 640; c.intrinsics.height = 480; c.ang_c_to_b = Quaterniond(1, 0, 0, 0);
  e.RegisterCamera(3, c, MatrixXd::Identity(6, 6)); Vector3d f(2, 3, 4), w, b(0, 0, 0); Matrix3d A = Matrix3d::Zero(); FeatureTrack t; double at[4] = {0, 1, -1, 0.5};
  for (int k = 0; k < 4; k++) {
    e.PredictModel(0.1 * k); e.m_state.body_state.pos_b_in_l = Vector3d(at[k], 0.5 * at[k], 0.25 * k); e.m_state.body_state.ang_b_to_l = Quaterniond(1, 0, 0, 0); e.m_state.body_state.vel_b_in_l.setZero(); e.AugmentStateIfNeeded(3, 60 + k);
    Vector3d x = f - e.m_state.body_state.pos_b_in_l; cv::KeyPoint q; q.class_id = 1; q.pt.x = 320 + 100 * x[0] / x[2]; q.pt.y = 240 + 100 * x[1] / x[2] + (k % 2 ? 4 : -4); Vector3d r((q.pt.x - 320) / 100, (q.pt.y - 240) / 100, 1); r /= r.norm(); Matrix3d P = Matrix3d::Identity() - r * r.transpose(); A += P; b += P * e.m_state.body_state.pos_b_in_l; t.track.push_back(FeaturePoint{60u + k, 0.1 * k, q});
  }
  MsckfUpdater u(3, false, "", 0.0, 0.1, p.debug_logger); u.UpdateEKF(e, 0.3, FeatureTracks(), 1.0); if (!u.TriangulateFeature(0.3, e, t, w)) {std::printf("not found\\n"); return 1;}
  b = A.inverse() * b; for (int i = 0; i < 3; i++) {near(w[i], b[i], "feature", 1e-4);}
  return bad;
}
''')
bug('p21-root-forgets', 'P21',
    [('src/ekf/update/gps_updater.cpp', '    m_is_first_estimate = false;\n', '    m_is_first_estimate = ekf.GetUseRootCovariance();\n')],
    'first-estimate Jacobians together with a covariance kept as a square root',
    'the antenna position used in Jacobians follows the estimate although the first one was asked for',
    '''#include "ekf/update/gps_updater.hpp"
int main() {
  for (bool root : {false, true}) {
    EKF::Parameters p = params(); p.use_first_estimate_jacobian = true; p.use_root_covariance = root; EKF e(p); e.Initialize(0, BodyState()); GpsState g; g.SetIsExtrinsic(true); g.pos_a_in_b = Vector3d(1, 2, 3); e.RegisterGPS(5, g, Matrix3d::Identity());
    GpsUpdater u(5, true, "", 0.0, p.debug_logger); MatrixXd a = u.GetMeasurementJacobian(e); e.m_state.gps_states[5].pos_a_in_b = Vector3d(7, -2, 5); MatrixXd b = u.GetMeasurementJacobian(e); near((a - b).norm(), 0, "Jacobian");
  }
  return bad;
}
''')
bug('p22-one-way', 'P22',
    [('src/trackers/feature_tracker.cpp', 'match_b[0].queryIdx == match_f[0].trainIdx', 'match_b[0].queryIdx >= match_f[0].trainIdx')],
    'a feature whose best match prefers another one, while a later feature prefers the first',
    'matches that are not mutual are followed, so that a track mixes two features',
    '''#include "trackers/feature_tracker.hpp"
int main() {
  std::vector<std::vector<cv::DMatch>> f, b; std::vector<cv::DMatch> out;
  f.push_back({cv::DMatch(0, 1, 1), cv::DMatch(0, 0, 9)}); b.push_back({cv::DMatch(1, 2, 1), cv::DMatch(1, 0, 9)}); b.push_back({cv::DMatch(2, 0, 1), cv::DMatch(2, 1, 9)});
  FeatureTracker::SymmetryTest(f, b, out); near(out.size(), 0, "matches");
  return bad;
}
''')
bug('p23-bias-stability', 'P23',
    [('src/sensors/imu.cpp', 'imu_state.acc_bias_stability = params.acc_bias_stability;', 'imu_state.acc_bias_stability = params.omg_bias_stability;')],
    'an IMU whose accelerometer and gyroscope biases drift differently',
    'the accelerometer bias drifts as configured for the gyroscope',
    '''#include "sensors/imu.hpp"
int main() {
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p); e->Initialize(0, BodyState()); IMU::Parameters i; i.name = "i"; i.logger = p.debug_logger; i.ekf = e; i.is_intrinsic = true; i.acc_bias_stability = 0.5; i.omg_bias_stability = 0.125;
  IMU imu(i); near(e->GetImuState(imu.GetId()).acc_bias_stability, 0.5, "accelerometer"); near(e->GetImuState(imu.GetId()).omg_bias_stability, 0.125, "gyroscope");
  return bad;
}
''')
bug('p25-centripetal', 'P25',
    [('src/sensors/sim/sim_imu.cpp', 'body_ang_vel_l.cross((body_ang_vel_l.cross(pos_i_in_b_true)))', 'body_ang_vel_l.cross((pos_i_in_b_true.cross(body_ang_vel_l)))')],
    'an IMU that is mounted off the centre of a turning body',
    'the simulated accelerometer is pushed outwards, not inwards, by the turning',
    '''#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "ekf/constants.hpp"
int main() {
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p); e->Initialize(0, BodyState());
  auto t = std::make_shared<TruthEngineCyclic>(Vector3d(0, 0, 0), Vector3d(0.5, 0.25, 0.5), Vector3d(0, 0, 0), Vector3d(0, 0, 0), 0, 2.0, 0, 4, p.debug_logger);
  SimIMU::Parameters s; s.no_errors = true; s.imu_params.name = "i"; s.imu_params.rate = 4; s.imu_params.logger = p.debug_logger; s.imu_params.ekf = e; s.imu_params.pos_i_in_b = Vector3d(1, 2, 3); SimIMU imu(s, t);
  for (auto & m : imu.GenerateMessages()) {
    Vector3d w = t->GetBodyAngularRate(m->time), a = t->GetBodyAngularAcceleration(m->time), r = s.imu_params.pos_i_in_b; Vector3d x = t->GetBodyAngularPosition(m->time).inverse() * g_gravity + a.cross(r) + w.cross(w.cross(r));
    for (int i = 0; i < 3; i++) {near(m->acceleration[i], x[i], "acceleration");}
  }
  return bad;
}
''')
bug('p26-antenna-column', 'P26',
    [('src/infrastructure/sim/truth_engine.cpp', 'VectorToCommaString(GetGpsPosition(sensor_count))', 'VectorToCommaString(GetGpsPosition(j + 1))')],
    'a GPS receiver that is not the first of the sensors',
    'the log of the truth holds no antenna position',
    '''#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "infrastructure/sim/truth_engine_cyclic.hpp"
static std::vector<std::string> cut(const std::string & l) {std::vector<std::string> v; std::stringstream s(l); std::string x; while (std::getline(s, x, ',')) {v.push_back(x);} return v;}
int main() {
  TruthEngineCyclic t(Vector3d(0, 0, 0), Vector3d(0, 0, 0), Vector3d(0, 0, 0), Vector3d(0, 0, 0), 0, 0, 0, 1, std::make_shared<DebugLogger>(LogLevel::FATAL, ""));
  Quaterniond q(1, 0, 0, 0); t.SetImuPosition(1, Vector3d(1, 1, 1)); t.SetImuAngularPosition(1, q); t.SetImuAccelerometerBias(1, Vector3d(0, 0, 0)); t.SetImuGyroscopeBias(1, Vector3d(0, 0, 0)); t.SetGpsPosition(2, Vector3d(4, 5, 6)); t.SetLocalPosition(Vector3d(0, 0, 0)); t.SetLocalHeading(0);
  t.WriteTruthData(1.0, "./"); std::ifstream f("./body_truth.csv"); std::string h, r; std::getline(f, h); std::getline(f, r); auto a = cut(h), b = cut(r); int found = 0;
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {for (int k = 0; k < 3; k++) {if (a[i] == "gps_pos_2_" + std::to_string(k)) {found++; near(std::atof(b[i].c_str()), 4 + k, "antenna");}}}
  near(found, 3, "columns");
  return bad;
}
''')
bug('p27-square-picture', 'P27',
    [('src/trackers/sim/sim_feature_tracker.cpp', 'projected_points[i].y <= intrinsics.height', 'projected_points[i].y <= intrinsics.width')],
    'a picture that is wider than high, and a feature just below it',
    'features below the picture are seen',
    '''#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
int main() {
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p); e->Initialize(0, BodyState());
  auto t = std::make_shared<TruthEngineCyclic>(Vector3d(0, 0, 0), Vector3d(0, 0, 0), Vector3d(0, 0, 0), Vector3d(0, 0, 0), 0, 0, 0, 1, p.debug_logger);
  Intrinsics c; t->SetCameraPosition(1, Vector3d(0, 0, 0)); t->SetCameraAngularPosition(1, Quaterniond(1, 0, 0, 0)); t->SetCameraIntrinsics(1, c);
  SimFeatureTracker::Parameters s; s.no_errors = true; s.feature_count = 0; s.tracker_params.camera_id = 1; s.tracker_params.logger = p.debug_logger; s.tracker_params.ekf = e; SimFeatureTracker k(s, t);
  auto seen = k.GetVisibleKeypoints(0.5); near(seen.empty(), 0, "empty");
  for (auto & q : seen) {if (q.pt.y > c.height + 1e-3 || q.pt.x > c.width + 1e-3) {std::printf("outside of the picture: %g %g\\n", q.pt.x, q.pt.y); bad = 1;}}
  return bad;
}
''')
bug('p29-absolute-time', 'P29',
    [('src/sensors/camera.cpp', 'm_ekf->PredictModel(local_time);', 'm_ekf->PredictModel(camera_message.time);')],
    'a picture after the clock was started by a measurement at a time other than zero',
    'pictures move the filter to their absolute time, far beyond the other sensors',
    '''#include "sensors/camera.hpp"
#include "sensors/camera_message.hpp"
#include "sensors/imu.hpp"
#include "sensors/imu_message.hpp"
int main() {
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p);
  IMU::Parameters i; i.name = "i"; i.logger = p.debug_logger; i.ekf = e; IMU imu(i);
  Camera::Parameters c; c.name = "c"; c.logger = p.debug_logger; c.ekf = e; c.rate = 4; Camera cam(c);
  FeatureTracker::Parameters t; t.camera_id = cam.GetId(); t.logger = p.debug_logger; t.ekf = e; cam.AddTracker(std::make_shared<FeatureTracker>(t));
  ImuMessage m; m.time = 1000; m.sensor_id = imu.GetId(); m.acceleration = Vector3d(0, 0, 9.80665); m.angular_rate.setZero(); m.acceleration_covariance = m.angular_rate_covariance = Matrix3d::Identity() * 1e-3; imu.Callback(m);
  near(e->GetCurrentTime(), 0, "first");
  cv::Mat img = cv::Mat::zeros(64, 64, CV_8U); CameraMessage q(img); q.time = 1000.5; q.sensor_id = cam.GetId(); cam.Callback(q); near(e->GetCurrentTime(), 0.5, "picture");
  return bad;
}
''')
