// Log files: what a row holds against what the header of the file announces, how often rows are written, truth logs.
#include "hmsckf.hpp"
#include <sstream>
#include <streambuf>
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "infrastructure/data_logger.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "utility/string_helper.hpp"
#include "utility/gps_helper.hpp"
using namespace hc;
// numbers are written as references to their values, so that rows keep them exactly (and symbolically)
static std::vector<double> numbers;
extern "C" std::ostream & _ZNSo9_M_insertIdEERSoT_(std::ostream * o, double v) {numbers.push_back(v); std::string s = "@" + std::to_string(numbers.size() - 1); o->write(s.data(), (std::streamsize)s.size()); return *o;}
// corrections and reductions of a square root are decided elsewhere (P03, P04)
static std::vector<VectorXd> residuals;
void Updater::KalmanUpdate(EKF &, const MatrixXd &, const VectorXd & r, const MatrixXd &) {residuals.push_back(r);}
void ApplyLeftNullspace(const MatrixXd &, MatrixXd & X, VectorXd & r) {X = MatrixXd(X.topRows(3)); r = VectorXd(r.head(3));}
void CompressMeasurements(MatrixXd &, VectorXd &) {}
Vector3d lla_to_enu(const Vector3d & a, const Vector3d & r) {return Vector3d(a[0] - r[0], a[1] - r[1], a[2] - r[2]);}
// a log file in memory
struct Log
{
  DataLogger & l; std::stringbuf b;
  explicit Log(DataLogger & d, bool rates = true) : l(d) {l.m_logging_on = true; l.m_initialized = true; static_cast<std::ios &>(l.m_log_file).rdbuf(&b); if (rates) {l.m_rate = 0;}}
  std::vector<std::string> lines() {std::vector<std::string> v; std::stringstream s(b.str()); std::string x; while (std::getline(s, x)) {v.push_back(x);} return v;}
};
static std::vector<std::string> split(const std::string & x) {std::vector<std::string> v; std::string c; for (char k : x) {if (k == ',') {v.push_back(c); c.clear();} else {c += k;}} v.push_back(c); return v;}
struct Row
{
  std::vector<std::string> names, cells; bool ok = false; std::string l; std::vector<int> used;
  Row(const std::string & header, const std::string & row, const std::string & label) : names(split(header)), cells(split(row)), l(label) {ok = names.size() == cells.size(); sym::check(ok, l + ": a value for every column"); used.assign(names.size(), 0);}
  double value(size_t i) {return !cells[i].empty() && cells[i][0] == '@' ? numbers[std::stoul(cells[i].substr(1))] : std::strtod(cells[i].c_str(), nullptr);}
  int find(const std::string & n) {for (size_t i = 0; i < names.size(); i++) {if (names[i] == n) {return (int)i;}} return -1;}
  void one(const std::string & n, double v) {if (!ok) {return;} int i = find(n); sym::check(i >= 0, l + ": column " + n); if (i >= 0) {used[i] = 1; sym::eq(value((size_t)i), v, l + ": " + n);}}
  void many(const std::string & n, const VectorXd & v) {for (int k = 0; k < v.size(); k++) {one(n + "_" + std::to_string(k), v[k]);}}
  void turned(const std::string & n, const Quaterniond & q) {one(n + "_0", q.w()); one(n + "_1", q.x()); one(n + "_2", q.y()); one(n + "_3", q.z());}
  void rest(const std::vector<std::string> & others) {if (!ok) {return;} for (auto & o : others) {int i = find(o); if (i >= 0) {used[i] = 1;}} for (size_t i = 0; i < names.size(); i++) {sym::check(used[i], l + ": nothing else");}}
};
static VectorXd variances(EKF & e, unsigned i, unsigned n)
{
  VectorXd v(n); for (unsigned k = 0; k < n; k++) {v[k] = 0; if (!e.GetUseRootCovariance()) {v[k] = e.m_cov(i + k, i + k); continue;} for (int r = 0; r < e.m_cov.rows(); r++) {v[k] += e.m_cov(r, i + k) * e.m_cov(r, i + k);}}
  return v;
}
static void fill(EKF & e)
{
  int n = (int)e.GetStateSize(); bool root = e.GetUseRootCovariance(); e.m_cov = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; i++) {e.m_cov(i, i) = sym::real("d" + std::to_string(i), 0.25, 2);}
  for (int i = 0; i + 1 < n; i++) {double c = sym::real("c" + std::to_string(i), -0.25, 0.25); e.m_cov(i, i + 1) = c; if (!root) {e.m_cov(i + 1, i) = c;}}
}
static bool forgotten() {numbers.clear(); residuals.clear(); return true;}
static std::string only(Log & g, const std::string & l) {auto v = g.lines(); sym::check(v.size() == 1, l + ": one row"); return v.size() == 1 ? v[0] : std::string();}
SCENARIO(body)
{
  forgotten(); EKF::Parameters p = params(); p.data_log_rate = 1; p.use_root_covariance = sym::flag("root"); p.augmenting_type = AugmentationType::ALL; EKF e(p); BodyState b = body("b"); e.Initialize(sym::real("t", 0, 4), BodyState()); e.m_state.body_state = b;
  Log g(e.m_data_logger), a(e.m_augmentation_logger); World w(e); w.apply(GPS_E, 2, VectorXd::Ones(12)); fill(e);
  e.LogBodyStateIfNeeded(7);
  Row r(e.m_data_logger.m_log_header, only(g, "body"), "body");
  r.one("time", e.m_current_time); r.many("body_pos", b.pos_b_in_l); r.many("body_vel", b.vel_b_in_l); r.many("body_acc", b.acc_b_in_l); r.turned("body_ang_pos", b.ang_b_to_l); r.many("body_ang_vel", b.ang_vel_b_in_l); r.many("body_ang_acc", b.ang_acc_b_in_l);
  r.many("body_cov", variances(e, 0, 18)); r.one("state_size", 21); r.one("duration_0", 7); r.rest({});
  w.apply(CAM_0, 3, VectorXd::Ones(12)); e.AugmentStateIfNeeded(3, 9);
  Row c(e.m_augmentation_logger.m_log_header, only(a, "clone"), "clone"); c.one("time", e.m_current_time); c.many("aug_pos", b.pos_b_in_l); c.turned("aug_ang", b.ang_b_to_l); c.rest({});
}
SCENARIO(imu)
{
  forgotten(); EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root"); bool still = sym::flag("still"), several = sym::flag("several"); p.motion_detection_chi_squared = still ? 1e6 : 1; EKF e(p); e.Initialize(0, BodyState()); e.InitializeGravity();
  int kind = sym::choice("calibrated", 4); bool ext = kind & 1, in = kind & 2; World w(e); w.apply(ext && in ? IMU_EI : ext ? IMU_E : in ? IMU_I : IMU_0, 3, VectorXd::Ones(12)); if (several) {w.apply(IMU_E, 1, VectorXd::Ones(12));}
  ImuState & s = e.m_state.imu_states[3]; s.pos_i_in_b = sym::vec3("ip"); s.ang_i_to_b = Quaterniond(0.5, -0.5, 0.5, 0.5); s.acc_bias = sym::vec3("ba"); s.omg_bias = sym::vec3("bw");
  ImuUpdater u(3, ext, in, "", 1.0, logger()); u.m_initial_motion_detected = !still; Log g(u.m_data_logger); fill(e);
  if (still) {for (int i = 0; i < e.m_cov.rows(); i++) {for (int k = 0; k < i; k++) {e.m_cov(i, k) = e.m_cov(k, i) = 0;}} s.acc_bias = Vector3d(0.25, 0, -0.5); s.omg_bias = Vector3d(0, 0.125, -0.25);}
  Vector3d acc = still ? Vector3d(0.5, 0.25, 9.5) : sym::vec3("acc"), omg = still ? Vector3d(0.125, 0, 0) : sym::vec3("omg"); MatrixXd one = MatrixXd::Identity(3, 3);
  if (still) {for (int i = 0; i < e.m_cov.rows(); i++) {if (i > 17) {continue;} e.m_cov(i, i) = 0.5;} }
  u.UpdateEKF(e, 0, acc, one, omg, one);
  std::string l = still ? "imu at rest" : "imu"; Row r(u.m_data_logger.m_log_header, only(g, l), l);
  r.one("time", 0); r.one("stationary", still ? 1 : 0); r.many("imu_pos", s.pos_i_in_b); r.turned("imu_ang_pos", s.ang_i_to_b); r.many("imu_acc_bias", s.acc_bias); r.many("imu_gyr_bias", s.omg_bias);
  if (ext) {r.many("imu_ext_cov", variances(e, s.index_extrinsic, 6));} if (in) {r.many("imu_int_cov", variances(e, s.index_intrinsic, 6));}
  r.many("acc", acc); r.many("omg", omg); bool corrected = still || several; sym::check(residuals.size() == (corrected ? 1 : 0), l + ": corrections");
  VectorXd z = VectorXd::Zero(6); if (corrected && residuals.size()) {z.head(residuals[0].size()) = residuals[0];} r.many("residual", z); r.rest({"score", "duration_0"});
}
SCENARIO(gps)
{
  forgotten(); EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root"); bool ext = sym::flag("calibrated"), known = sym::flag("reference"); if (known) {p.gps_init_type = GpsInitType::CONSTANT; p.pos_e_in_g = Vector3d(30, -96, 50); p.ang_l_to_e = 0;} else {p.gps_init_type = GpsInitType::BASELINE_DIST;}
  EKF e(p); e.Initialize(0, BodyState()); e.InitializeGravity(); World w(e); if (sym::flag("several")) {w.apply(GPS_E, 2, VectorXd::Ones(12)); e.m_state.gps_states[2].pos_a_in_b = Vector3d(5, 6, 7);} w.apply(ext ? GPS_E : GPS_0, 4, VectorXd::Ones(12)); e.m_state.gps_states[4].pos_a_in_b = sym::vec3("ap"); e.m_state.body_state.pos_b_in_l = sym::vec3("bp");
  GpsUpdater u(4, ext, "", 1.0, logger()); Log g(u.m_data_logger); fill(e);
  Vector3d lla = Vector3d(30, -96, 50) + sym::vec3("lla", -1, 1); u.UpdateEKF(e, 0, lla, MatrixXd::Identity(3, 3));
  Row r(u.m_data_logger.m_log_header, only(g, "gps"), "gps"); const char * a[3] = {"lat", "lon", "alt"}, * b[3] = {"x", "y", "z"}, * c[3] = {"ref_lat", "ref_lon", "ref_alt"};
  Vector3d at(0, 0, 0), ref(0, 0, 0); if (known) {at = lla - p.pos_e_in_g; ref = p.pos_e_in_g;}
  r.one("time", 0); for (int i = 0; i < 3; i++) {r.one(a[i], lla[i]); r.one(b[i], at[i]); r.one(c[i], ref[i]);} r.one("ref_heading", 0); r.one("is_initialized", known ? 1 : 0);
  if (ext) {r.many("ant_pos", e.m_state.gps_states[4].pos_a_in_b); r.many("gps_cov", variances(e, e.m_state.gps_states[4].index, 3));}
  sym::check(residuals.size() == (known ? 1 : 0), "gps: corrections"); r.many("residual", known && residuals.size() ? residuals[0] : VectorXd(VectorXd::Zero(3))); r.rest({"duration_0"});
}
SCENARIO(board)
{
  forgotten(); EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root"); bool cam_cal = sym::flag("calibrated_camera"), fid_cal = sym::flag("calibrated_board"); EKF e(p); e.Initialize(0, BodyState()); e.InitializeGravity();
  World w(e); if (sym::flag("several")) {w.apply(CAM_E, 2, VectorXd::Ones(12)); w.apply(FID_E, 7, VectorXd::Ones(12)); e.m_state.cam_states[2].pos_c_in_b = e.m_state.fid_states[7].pos_f_in_l = Vector3d(5, 6, 7);} w.apply(cam_cal ? CAM_E : CAM_0, 3, VectorXd::Ones(12)); w.apply(fid_cal ? FID_E : FID_0, 8, VectorXd::Ones(12));
  CamState & c = e.m_state.cam_states[3]; FidState & f = e.m_state.fid_states[8]; c.pos_c_in_b = sym::vec3("cp"); c.ang_c_to_b = Quaterniond(0.5, -0.5, 0.5, 0.5); f.pos_f_in_l = sym::vec3("fp"); f.ang_f_to_l = Quaterniond(0.5, 0.5, 0.5, -0.5);
  FiducialUpdater u(8, 3, fid_cal, cam_cal, "", 1.0, logger()); Log g(u.m_fiducial_logger); fill(e);
  BoardDetection d; d.frame_id = 5; d.pos_f_in_c = sym::vec3("zp"); d.ang_f_to_c = Quaterniond(0.8, 0, 0.6, 0); d.pos_error = Vector3d(1, 1, 1); d.ang_error = Vector3d(1, 1, 1); u.UpdateEKF(e, 0, d);
  Row r(u.m_fiducial_logger.m_log_header, only(g, "board"), "board");
  r.one("time", 0); r.one("board", 8); r.many("board_meas_pos", d.pos_f_in_c); r.turned("board_meas_ang", d.ang_f_to_c); r.many("cam_pos", c.pos_c_in_b); r.turned("cam_ang_pos", c.ang_c_to_b); sym::check(residuals.size() == 1, "board: corrections"); if (residuals.size()) {r.many("residual", residuals[0]);}
  if (fid_cal) {r.many("fid_pos", f.pos_f_in_l); r.turned("fid_ang", f.ang_f_to_l); r.many("fid_cov", variances(e, f.index, 6));} if (cam_cal) {r.many("cam_cov", variances(e, c.index, 6));} r.rest({"duration_0"});
}
SCENARIO(features)
{
  forgotten(); bool cal = sym::flag("calibrated"); Scene c = scene(EVERY, cal, 3, false, sym::flag("root"), true); EKF & e = *c.f; if (sym::flag("several")) {World w(e); w.apply(CAM_E, 1, VectorXd::Ones(12)); e.m_state.cam_states[1].pos_c_in_b = Vector3d(5, 6, 7);} fill(e);
  Vector3d f(3, 1, 2); std::vector<Vector2d> px; for (int i = 0; i < 3; i++) {px.push_back(Vector2d(0.5 * i, 0.25));} FeatureTrack t = trackOf(c, px); t.true_feature_position = f;
  MsckfUpdater u(3, cal, "", 1.0, 0.0, logger()); u.m_use_true_triangulation = true; u.m_min_feat_dist = -1e9; u.m_max_feat_dist = 1e9; Log g(u.m_msckf_logger), h(u.m_triangulation_logger);
  int n = 1 + sym::choice("tracks", 2); CamState & s = e.m_state.cam_states[3]; s.pos_c_in_b = Vector3d(0.25, -0.5, 0.125);
  u.UpdateEKF(e, c.now, FeatureTracks((size_t)n, t), 1.0);
  Row r(u.m_msckf_logger.m_log_header, only(g, "features"), "features"); r.one("time", c.now); r.many("cam_pos", s.pos_c_in_b); r.turned("cam_ang_pos", s.ang_c_to_b); if (cal) {r.many("cam_cov", variances(e, s.index, 6));} r.one("FeatureTracks", n); r.rest({"duration_0"});
  auto v = h.lines(); sym::check((int)v.size() == n, "triangulation: a row per feature"); for (auto & x : v) {Row q(u.m_triangulation_logger.m_log_header, x, "triangulation"); q.one("time", c.now); q.one("feature", 5); q.rest({"x", "y", "z"});}
}
// how often rows are written
SCENARIO(rates)
{
  bool on = sym::flag("on"); double rate = sym::choice("rate", 3) * 2.0; DataLogger d("", "x.csv"); Log g(d, false); d.m_logging_on = on; d.SetLogRate(rate);
  double t0 = sym::flag("zero") ? 0 : sym::real("t0", 0, 4), t = t0; int written = 0, n = 5;
  for (int i = 0; i < n; i++) {
    if (i) {t = t + sym::real("step" + std::to_string(i), 0, 0.75);}
    size_t before = g.lines().size(); d.RateLimitedLog("row " + std::to_string(i), t); auto v = g.lines(); size_t now = v.size();
    sym::check(now - before <= 1 && (now == before || v.back() == "row " + std::to_string(i)), "rates: rows as given"); bool wrote = now == before + 1;
    if (!on) {sym::check(!wrote, "rates: nothing is written when logging is off"); continue;}
    if (i == 0) {sym::check(wrote, "rates: the first row is written");}
    else if (rate == 0) {sym::check(wrote, "rates: every row without a rate");}
    else if (wrote) {sym::le(written, rate * (t - t0), "rates: no more rows than the rate allows");}
    else {sym::le(rate * (t - t0), written, "rates: no fewer rows than the rate allows");}
    written += wrote;
  }
}
// the truth
struct Motion : TruthEngine
{
  Vector3d p = sym::vec3("p"), v = sym::vec3("v"), a = sym::vec3("a"), w = sym::vec3("w"), al = sym::vec3("al"); Quaterniond q = Quaterniond(0.5, 0.5, -0.5, 0.5);
  explicit Motion(double m) : TruthEngine(m, logger()) {}
  Vector3d GetBodyPosition(double t) override {return p * (1 + t);} Vector3d GetBodyVelocity(double t) override {return v * (1 + t);} Vector3d GetBodyAcceleration(double t) override {return a * (1 + t);}
  Quaterniond GetBodyAngularPosition(double) override {return q;} Vector3d GetBodyAngularRate(double t) override {return w * (1 + t);} Vector3d GetBodyAngularAcceleration(double t) override {return al * (1 + t);}
};
static std::map<std::string, std::string> headers, texts;
void DataLogger::DefineHeader(const std::string & h) {m_log_header = h;}
void DataLogger::Log(const std::string & m)
{
  if (!m_logging_on) {return;}
  if (static_cast<std::ios &>(m_log_file).rdbuf() && m_initialized) {m_log_file << m << std::endl; ++m_log_count; return;}
  headers[m_log_directory + m_file_name] = m_log_header; texts[m_log_directory + m_file_name] += m + "\n"; ++m_log_count;
}
static std::vector<std::string> linesOf(const std::string & t) {std::vector<std::string> v; std::stringstream s(t); std::string x; while (std::getline(s, x)) {v.push_back(x);} return v;}
SCENARIO(truth)
{
  forgotten(); headers.clear(); texts.clear(); double most = 1; Motion m(most); int I = sym::choice("imus", 3), C = sym::choice("cameras", 3), G = sym::choice("gps", 2); double rate = 1 + sym::choice("rate", 2); unsigned id = 0;
  struct Mount {Vector3d p, a, w; Quaterniond q;}; std::vector<Mount> mounts; const Quaterniond turned[3] = {Quaterniond(0.5, 0.5, 0.5, 0.5), Quaterniond(0.5, -0.5, 0.5, -0.5), Quaterniond(0.8, 0, 0.6, 0)};
  for (int k = 0; k < I + C + G; k++) {
    id++; Mount x {sym::vec3("p" + std::to_string(id)), sym::vec3("ba" + std::to_string(id)), sym::vec3("bw" + std::to_string(id)), turned[k % 3]}; mounts.push_back(x);
    if (k < I) {m.SetImuPosition(id, x.p); m.SetImuAngularPosition(id, x.q); m.SetImuAccelerometerBias(id, x.a); m.SetImuGyroscopeBias(id, x.w);} else if (k < I + C) {m.SetCameraPosition(id, x.p); m.SetCameraAngularPosition(id, x.q);} else {m.SetGpsPosition(id, x.p);}
  }
  Vector3d ref = sym::vec3("ref"); double heading = sym::real("heading", -3, 3); m.SetLocalPosition(ref); m.SetLocalHeading(heading);
  std::map<unsigned, Mount> boards; int B = sym::choice("boards", 3); for (unsigned b = 0; b < (unsigned)B; b++) {Mount x {sym::vec3("board" + std::to_string(b)), {}, {}, turned[b]}; boards[3 + 2 * b] = x; m.SetBoardPosition(3 + 2 * b, x.p); m.SetBoardOrientation(3 + 2 * b, x.q);}
  std::vector<Vector3d> f; m.m_feature_points.clear(); for (int i = 0; i < 2; i++) {Vector3d x = sym::vec3("f" + std::to_string(i)); f.push_back(x); m.m_feature_points.push_back(cv::Point3d(x[0], x[1], x[2]));}
  m.WriteTruthData(rate, "");
  auto v = linesOf(texts["body_truth.csv"]); int rows = 0; sym::check((double)v.size() > most * rate, "truth: rows until the end");
  for (auto & x : v) {
    double t = rows / rate; rows++; Row r(headers["body_truth.csv"], x, "truth"); r.one("time", t);
    r.many("body_pos", m.GetBodyPosition(t)); r.many("body_vel", m.GetBodyVelocity(t)); r.many("body_acc", m.GetBodyAcceleration(t) + g_gravity); r.turned("body_ang_pos", m.GetBodyAngularPosition(t)); r.many("body_ang_vel", m.GetBodyAngularRate(t)); r.many("body_ang_acc", m.GetBodyAngularAcceleration(t));
    for (int k = 0; k < I + C + G; k++) {
      Mount & z = mounts[(size_t)k]; std::string n = "_" + std::to_string(k + 1);
      if (k < I) {r.many("imu_pos" + n, z.p); r.turned("imu_ang_pos" + n, z.q); r.many("imu_acc_bias" + n, z.a); r.many("imu_gyr_bias" + n, z.w);} else if (k < I + C) {r.many("cam_pos" + n, z.p); r.turned("cam_ang_pos" + n, z.q);} else {r.many("gps_pos" + n, z.p);}
    }
    if (G) {r.one("ref_lat", ref[0]); r.one("ref_lon", ref[1]); r.one("ref_alt", ref[2]); r.one("ref_heading", heading);} r.rest({});
  }
  auto w = linesOf(texts["board_truth.csv"]); sym::check(w.size() == boards.size(), "boards: a row for each");
  for (auto & x : w) {Row r(headers["board_truth.csv"], x, "boards"); unsigned b = (unsigned)r.value(0); sym::check(boards.count(b) == 1, "boards: number"); if (!boards.count(b)) {continue;} const char * a[7] = {"pos_x", "pos_y", "pos_z", "quat_w", "quat_x", "quat_y", "quat_z"}; Mount & z = boards[b]; double want[7] = {z.p[0], z.p[1], z.p[2], z.q.w(), z.q.x(), z.q.y(), z.q.z()}; for (int i = 0; i < 7; i++) {r.one(a[i], want[i]);} r.rest({"board"}); boards.erase(b);}
  auto y = linesOf(texts["feature_points.csv"]); sym::check(y.size() == f.size(), "features: a row for each");
  for (size_t i = 0; i < y.size() && i < f.size(); i++) {Row r(headers["feature_points.csv"], y[i], "features"); r.one("Feature", (double)i); r.one("x", f[i][0]); r.one("y", f[i][1]); r.one("z", f[i][2]); r.rest({});}
}
