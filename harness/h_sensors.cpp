// Sensors: what they register with the filter, and what their messages hand to it.
#include "hmeas.hpp"
#include "sensors/camera.hpp"
#include "sensors/camera_message.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "trackers/fiducial_tracker.hpp"
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
using namespace hc;
namespace {
struct Call {std::string what; unsigned id = 0, id2 = 0; bool f1 = false, f2 = false; double time = 0; std::vector<Vector3d> v; std::vector<Matrix3d> m; Quaterniond q{1, 0, 0, 0}; unsigned frame = 0; double now = -1; bool cloned = false;};
std::vector<Call> calls;
int markers = 0, squares = 0; bool valid = false; cv::Vec3d rvec, tvec; double matrix_used[9], lens_used[4]; int markers_used = 0;
}
// what reaches the filter is recorded
void ImuUpdater::UpdateEKF(EKF &, const double time, const Vector3d & a, const Matrix3d & ca, const Vector3d & w, const Matrix3d & cw)
{
  Call c; c.what = "imu"; c.id = m_id; c.f1 = m_is_extrinsic; c.f2 = m_is_intrinsic; c.time = time; c.v = {a, w}; c.m = {ca, cw}; calls.push_back(c);
}
void GpsUpdater::UpdateEKF(EKF &, const double time, const Vector3d & lla, const MatrixXd & cov)
{
  Call c; c.what = "gps"; c.id = m_id; c.f1 = m_is_extrinsic; c.time = time; c.v = {lla}; c.m = {cov}; calls.push_back(c);
}
void FiducialUpdater::UpdateEKF(EKF & e, const double time, const BoardDetection & b)
{
  Call c; c.what = "board"; c.id = m_id; c.id2 = m_camera_id; c.f1 = m_is_fid_extrinsic; c.f2 = m_is_cam_extrinsic; c.time = time; c.v = {b.pos_f_in_c, b.pos_error, b.ang_error}; c.q = b.ang_f_to_c; c.frame = b.frame_id;
  c.now = e.GetCurrentTime(); calls.push_back(c);
}
void FeatureTracker::Track(double time, unsigned int frame, const cv::Mat &, cv::Mat &)
{
  Call c; c.what = "track"; c.id = m_id; c.time = time; c.frame = frame; c.now = m_ekf->GetCurrentTime();
  for (auto & a : m_ekf->m_state.aug_states[m_camera_id]) {c.cloned = c.cloned || a.frame_id == frame;}
  calls.push_back(c);
}
namespace cv { namespace aruco {
void detectMarkers(InputArray, const Ptr<Dictionary> &, OutputArrayOfArrays corners, OutputArray ids, const Ptr<DetectorParameters> &, OutputArrayOfArrays)
{
  corners.create(markers, 1, CV_32FC2);
  for (int i = 0; i < markers; i++) {corners.create(4, 1, CV_32FC2, i, true);}
  ids.create(1, markers, CV_32S); Mat m = ids.getMat(); for (int i = 0; i < markers; i++) {m.at<int>(i) = i;}
}
int interpolateCornersCharuco(InputArrayOfArrays, InputArray, InputArray, const Ptr<CharucoBoard> &, OutputArray c, OutputArray ids, InputArray, InputArray, int)
{
  c.create(1, squares, CV_32FC2); ids.create(1, squares, CV_32S); return squares;
}
static void found(InputArray k, InputArray d, InputOutputArray r, InputOutputArray t)
{
  Mat km = k.getMat(), dm = d.getMat();
  for (int i = 0; i < 9; i++) {matrix_used[i] = km.ptr<double>(i / 3)[i % 3];}
  for (int i = 0; i < 4; i++) {lens_used[i] = dm.ptr<double>()[i];}
  Mat a = r.getMat(), b = t.getMat(); for (int i = 0; i < 3; i++) {a.ptr<double>()[i] = rvec[i]; b.ptr<double>()[i] = tvec[i];}
}
bool estimatePoseCharucoBoard(InputArray, InputArray ids, const Ptr<CharucoBoard> &, InputArray k, InputArray d, InputOutputArray r, InputOutputArray t, bool)
{
  markers_used = (int)ids.getMat().total(); if (valid) {found(k, d, r, t);} return valid;
}
int estimatePoseBoard(InputArrayOfArrays c, InputArray ids, const Ptr<Board> &, InputArray k, InputArray d, InputOutputArray r, InputOutputArray t, bool)
{
  markers_used = (int)ids.getMat().total(); if (valid) {found(k, d, r, t);} return valid ? (int)c.total() : 0;
}
void drawDetectedMarkers(InputOutputArray, InputArrayOfArrays, InputArray, Scalar) {}
void drawDetectedCornersCharuco(InputOutputArray, InputArray, InputArray, Scalar) {}
}
void drawFrameAxes(InputOutputArray, InputArray, InputArray, InputArray, InputArray, float, int) {}
}
static Quaterniond some(int k) {return k ? Quaterniond(0.5, -0.5, 0.5, 0.5) : Quaterniond(0.6, 0, 0.8, 0);}
static double floored(double v) {return v < 1e-6 ? 1e-6 : v;}
static std::shared_ptr<EKF> filterOf(EKF::Parameters & p)
{
  calls.clear(); auto e = std::make_shared<EKF>(p); e->Initialize(0, BodyState());
  if (sym::flag("other")) {ImuState i; i.SetIsExtrinsic(true); i.SetIsIntrinsic(true); e->RegisterIMU(90, i, MatrixXd::Identity(12, 12) * 0.5); GpsState g; g.SetIsExtrinsic(true); e->RegisterGPS(91, g, Matrix3d::Identity() * 0.5);}
  return e;
}
// the diagonal block of a calibrated sensor, and that it starts uncorrelated
static void prior(EKF & e, unsigned index, const VectorXd & want, const std::string & l)
{
  int d = (int)e.GetStateSize(), n = (int)want.size();
  sym::check(e.m_cov.rows() == d && e.m_cov.cols() == d, l + ": size of the covariance"); if (e.m_cov.rows() != d) {return;}
  for (int i = 0; i < n; i++) {for (int j = 0; j < d; j++) {double w = (int)index + i == j ? want[i] : 0; sym::eq(e.m_cov(index + i, j), w, l + ": prior"); sym::eq(e.m_cov(j, index + i), w, l + ": prior");}}
}
SCENARIO(imu)
{
  EKF::Parameters p = params(); auto e = filterOf(p);
  IMU::Parameters q; q.name = "i"; q.logger = logger(); q.ekf = e; q.rate = 100; q.is_extrinsic = sym::flag("extrinsic"); q.is_intrinsic = sym::flag("intrinsic"); q.data_log_rate = 0;
  q.pos_i_in_b = sym::vec3("pos"); q.ang_i_to_b = some(sym::choice("attitude", 2)); q.acc_bias = sym::vec3("acc_bias"); q.omg_bias = sym::vec3("omg_bias");
  q.pos_stability = sym::real("s0", 0, 1); q.ang_stability = sym::real("s1", 0, 1); q.acc_bias_stability = sym::real("s2", 0, 1); q.omg_bias_stability = sym::real("s3", 0, 1);
  q.variance = VectorXd(12); for (int i = 0; i < 12; i++) {q.variance[i] = i % 4 == 1 ? (i == 5 ? sym::real("small", -0.125, 0.125) : 0.0) : sym::real("v" + std::to_string(i), 0.0625, 4);}
  unsigned before = e->GetStateSize(); VectorXd var = q.variance;
  IMU s(q); ImuState & i = e->m_state.imu_states[s.GetId()];
  sym::check(e->m_state.imu_states.count(s.GetId()) == 1 && i.GetIsExtrinsic() == q.is_extrinsic && i.GetIsIntrinsic() == q.is_intrinsic, "imu: registered as configured");
  sym::check(e->GetStateSize() == before + (q.is_extrinsic ? 6 : 0) + (q.is_intrinsic ? 6 : 0), "imu: states");
  sym::eqm(i.pos_i_in_b, q.pos_i_in_b, "imu: position"); sym::eqrot(i.ang_i_to_b, q.ang_i_to_b, "imu: attitude"); sym::eqm(i.acc_bias, q.acc_bias, "imu: accelerometer bias"); sym::eqm(i.omg_bias, q.omg_bias, "imu: gyroscope bias");
  sym::eq(i.pos_stability, q.pos_stability, "imu: stability"); sym::eq(i.ang_stability, q.ang_stability, "imu: stability"); sym::eq(i.acc_bias_stability, q.acc_bias_stability, "imu: stability"); sym::eq(i.omg_bias_stability, q.omg_bias_stability, "imu: stability");
  unsigned at = i.index;
  if (q.is_extrinsic) {VectorXd w(6); for (int k = 0; k < 6; k++) {w[k] = floored(var[k]);} prior(*e, at, w, "imu"); at += 6;}
  if (q.is_intrinsic) {VectorXd w(6); for (int k = 0; k < 6; k++) {w[k] = floored(var[6 + k]);} prior(*e, at, w, "imu");}
  ImuMessage m; m.time = sym::real("time", 0, 64); m.acceleration = sym::vec3("acc"); m.angular_rate = sym::vec3("rate"); m.acceleration_covariance = sym::symmat("ca", 3); m.angular_rate_covariance = sym::symmat("cw", 3); m.sensor_id = s.GetId();
  s.Callback(m);
  sym::check(calls.size() == 1, "imu: one update for every message"); if (calls.size() != 1) {return;}
  Call & c = calls[0]; sym::check(c.id == s.GetId() && c.f1 == q.is_extrinsic && c.f2 == q.is_intrinsic, "imu: by its own calibration"); sym::eq(c.time, m.time, "imu: time of the message");
  sym::eqm(c.v[0], m.acceleration, "imu: acceleration"); sym::eqm(c.v[1], m.angular_rate, "imu: angular rate"); sym::eqm(c.m[0], m.acceleration_covariance, "imu: covariance of the acceleration"); sym::eqm(c.m[1], m.angular_rate_covariance, "imu: covariance of the rate");
}
SCENARIO(gps)
{
  EKF::Parameters p = params(); auto e = filterOf(p);
  GPS::Parameters q; q.name = "g"; q.logger = logger(); q.ekf = e; q.rate = 5; q.is_extrinsic = sym::flag("extrinsic"); q.pos_a_in_b = sym::vec3("pos"); q.pos_stability = sym::real("s0", 0, 1); q.variance = sym::vec3("v", 0.0625, 4);
  unsigned before = e->GetStateSize(); GPS s(q); GpsState & i = e->m_state.gps_states[s.GetId()];
  sym::check(e->m_state.gps_states.count(s.GetId()) == 1 && i.GetIsExtrinsic() == q.is_extrinsic && e->GetStateSize() == before + (q.is_extrinsic ? 3 : 0), "gps: registered as configured");
  sym::eqm(i.pos_a_in_b, q.pos_a_in_b, "gps: antenna"); sym::eq(i.pos_stability, q.pos_stability, "gps: stability");
  if (q.is_extrinsic) {prior(*e, i.index, q.variance, "gps");}
  GpsMessage m; m.time = sym::real("time", 0, 64); m.gps_lla = sym::vec3("lla"); m.pos_covariance = sym::symmat("c", 3); m.sensor_id = s.GetId(); s.Callback(m);
  sym::check(calls.size() == 1, "gps: one update for every message"); if (calls.size() != 1) {return;}
  Call & c = calls[0]; sym::check(c.id == s.GetId() && c.f1 == q.is_extrinsic, "gps: by its own calibration"); sym::eq(c.time, m.time, "gps: time of the message"); sym::eqm(c.v[0], m.gps_lla, "gps: reading"); sym::eqm(c.m[0], m.pos_covariance, "gps: covariance");
}
// a camera with trackers and boards
SCENARIO(camera)
{
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; auto e = filterOf(p); e->InitializeGravity();
  Camera::Parameters q; q.name = "c"; q.logger = logger(); q.ekf = e; q.rate = 4; q.is_extrinsic = sym::flag("extrinsic");
  q.pos_c_in_b = sym::vec3("pos"); q.ang_c_to_b = some(sym::choice("attitude", 2)); q.pos_stability = sym::real("s0", 0, 1); q.ang_stability = sym::real("s1", 0, 1);
  q.variance = VectorXd(6); for (int i = 0; i < 6; i++) {q.variance[i] = i == 1 ? 0.0 : i == 4 ? sym::real("small", -0.125, 0.125) : sym::real("v" + std::to_string(i), 0.0625, 4);}
  VectorXd var = q.variance; Intrinsics & k = q.intrinsics;
  k.f_x = sym::real("fx", 0.25, 2); k.f_y = sym::real("fy", 0.25, 2); k.k_1 = sym::real("k1", -1, 1); k.k_2 = sym::real("k2", -1, 1); k.p_1 = sym::real("p1", -1, 1); k.p_2 = sym::real("p2", -1, 1); k.width = sym::real("w", 64, 2048); k.height = sym::real("h", 64, 2048); k.pixel_size = sym::real("px", 0.0009765625, 0.0625);
  unsigned before = e->GetStateSize(); Camera s(q); CamState & i = e->m_state.cam_states[s.GetId()];
  sym::check(e->m_state.cam_states.count(s.GetId()) == 1 && i.GetIsExtrinsic() == q.is_extrinsic && e->GetStateSize() == before + (q.is_extrinsic ? 6 : 0), "camera: registered as configured");
  sym::eqm(i.pos_c_in_b, q.pos_c_in_b, "camera: position"); sym::eqrot(i.ang_c_to_b, q.ang_c_to_b, "camera: attitude"); sym::eq(i.pos_stability, q.pos_stability, "camera: stability"); sym::eq(i.ang_stability, q.ang_stability, "camera: stability"); sym::eq(i.rate, 4, "camera: rate");
  if (q.is_extrinsic) {VectorXd w(6); for (int n = 0; n < 6; n++) {w[n] = floored(var[n]);} prior(*e, i.index, w, "camera");}
  Intrinsics & a = i.intrinsics;
  const double got[9] = {a.f_x, a.f_y, a.k_1, a.k_2, a.p_1, a.p_2, a.width, a.height, a.pixel_size}, want[9] = {k.f_x, k.f_y, k.k_1, k.k_2, k.p_1, k.p_2, k.width, k.height, k.pixel_size};
  for (int n = 0; n < 9; n++) {sym::eq(got[n], want[n], "camera: intrinsics");}
  // a board
  FiducialTracker::Parameters f; f.camera_id = s.GetId(); f.logger = logger(); f.ekf = e; f.detector_type = sym::flag("checkerboard") ? FiducialType::CHARUCO_BOARD : FiducialType::ARUCO_BOARD; f.squares_x = 3; f.squares_y = 3; f.square_length = 0.04; f.marker_length = 0.02; f.id = 40;
  f.pos_f_in_l = sym::vec3("board"); f.ang_f_to_l = some(1); f.is_extrinsic = sym::flag("board_extrinsic"); f.is_cam_extrinsic = q.is_extrinsic; f.variance = sym::vecn("bv", 6, 0.0625, 4);
  unsigned mid = e->GetStateSize(); auto board = std::make_shared<FiducialTracker>(f); FidState & b = e->m_state.fid_states[40];
  sym::check(e->m_state.fid_states.count(40) == 1 && b.GetIsExtrinsic() == f.is_extrinsic && e->GetStateSize() == mid + (f.is_extrinsic ? 6 : 0), "board: registered as configured");
  sym::eqm(b.pos_f_in_l, f.pos_f_in_l, "board: position"); sym::eqrot(b.ang_f_to_l, f.ang_f_to_l, "board: attitude");
  if (f.is_extrinsic) {prior(*e, b.index, f.variance, "board");}
  e->m_cov.setZero();
  bool tracks = sym::flag("tracker"), boards = sym::flag("board_used"), empty = sym::flag("empty");
  unsigned tid = 0;
  if (tracks) {FeatureTracker::Parameters t; t.camera_id = s.GetId(); t.logger = logger(); t.ekf = e; auto x = std::make_shared<FeatureTracker>(t); tid = x->GetID(); s.AddTracker(x);}
  if (boards) {s.AddFiducial(board);}
  markers = 2 * sym::choice("markers", 2); squares = 4 * sym::choice("squares", 2); valid = sym::flag("valid"); markers_used = 0;
  tvec = cv::Vec3d(sym::real("t.x", -2, 2), sym::real("t.y", -2, 2), sym::real("t.z", 1, 4)); rvec = cv::Vec3d(0.5, -0.25, 0.75);
  CameraMessage m(empty ? cv::Mat() : cv::Mat::zeros(8, 8, CV_8U)); m.time = sym::real("time", 0.0625, 64); m.sensor_id = s.GetId(); s.Callback(m);
  bool active = !empty && (tracks || boards);
  auto & clones = e->m_state.aug_states[s.GetId()];
  sym::check(clones.size() == (active ? 1u : 0u), "camera: a clone for every picture that is used"); sym::eq(e->GetCurrentTime(), active ? m.time : 0, "camera: the filter is brought to the time of the picture");
  bool checker = f.detector_type == FiducialType::CHARUCO_BOARD;
  bool detected = active && boards && markers > 0 && (!checker || squares > 0) && valid;
  size_t n = (active && tracks ? 1 : 0) + (detected ? 1 : 0);
  sym::check(calls.size() == n, "camera: trackers and visible boards are used"); if (calls.size() != n) {return;}
  if (active && tracks) {Call & c = calls[0]; sym::check(c.what == "track" && c.id == tid && c.cloned && clones[0].frame_id == c.frame, "camera: features of the frame that was cloned"); sym::eq(c.time, m.time, "camera: time of the message"); sym::eq(c.now, m.time, "camera: predicted before it is used");}
  if (detected) {
    Call & c = calls.back(); sym::check(c.what == "board" && c.id == 40 && c.id2 == s.GetId() && c.f1 == f.is_extrinsic && c.f2 == q.is_extrinsic && c.frame == clones[0].frame_id, "board: by its own calibration"); sym::eq(c.time, m.time, "board: time of the message");
    sym::eqm(c.v[0], Vector3d(tvec[0], tvec[1], tvec[2]), "board: position found"); sym::eqm(c.v[1], f.variance.head(3), "board: variance"); sym::eqm(c.v[2], f.variance.tail(3), "board: variance");
    double a2 = std::sqrt(0.875), h = std::sin(a2 / 2) / a2; sym::check((int)markers_used == (checker ? squares : markers), "board: what was found of it");
    sym::eqrot(c.q, Quaterniond(std::cos(a2 / 2), 0.5 * h, -0.25 * h, 0.75 * h), "board: attitude found", 1e-6);
    const double K[9] = {k.f_x / k.pixel_size, 0, k.width / 2, 0, k.f_y / k.pixel_size, k.height / 2, 0, 0, 1}, D[4] = {k.k_1, k.k_2, k.p_1, k.p_2};
    for (int j = 0; j < 9; j++) {sym::eq(matrix_used[j], K[j], "board: by the intrinsics of the camera");}
    for (int j = 0; j < 4; j++) {sym::eq(lens_used[j], D[j], "board: by the lens of the camera");}
  }
  sym::reach(detected ? "board" : "none");
}
// Messages are ordered by time, as std::sort needs it.
SCENARIO(order)
{
  std::vector<std::shared_ptr<SensorMessage>> m; for (int i = 0; i < 3; i++) {auto x = std::make_shared<SensorMessage>(); x->time = sym::real("t" + std::to_string(i), -4, 4); x->sensor_id = (unsigned)(3 - i); m.push_back(x);}
  std::vector<std::shared_ptr<SensorMessage>> s = m; std::sort(s.begin(), s.end(), MessageCompare);
  for (int i = 0; i < 2; i++) {sym::le(s[i]->time, s[i + 1]->time, "messages in the order of time");}
  sym::check(!MessageCompare(m[0], m[0]) && !(MessageCompare(m[0], m[1]) && MessageCompare(m[1], m[0])), "a strict order");
}
