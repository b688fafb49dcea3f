// Simulated sensors: what they measure of the true motion, with which errors, and when.
#include "hmeas.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
using namespace hc;
namespace {
// draws of the generator: any value, in units of the standard deviation (or of the interval)
int draws = 0; std::map<int, std::vector<double>> drawn; std::vector<double> uniform;
struct Motion : TruthEngine                                   // a motion of which position, velocity, acceleration and rates are arbitrary
{
  Vector3d p = sym::vec3("p"), a = sym::vec3("a", -8, 8), w = sym::vec3("w"), al = sym::vec3("al"); Quaterniond q{0.5, 0.5, -0.5, 0.5}; std::vector<double> asked;
  explicit Motion(double end) : TruthEngine(end, logger()) {int k = sym::choice("attitude", 3); if (k == 1) {q = Quaterniond(0.6, 0, 0.8, 0);} if (k == 2) {q = Quaterniond(0.5, -0.1, 0.7, 0.5);}}
  Vector3d GetBodyPosition(double t) override {asked.push_back(t); return p * (1 + t);}
  Vector3d GetBodyVelocity(double) override {return Vector3d(0, 0, 0);}
  Vector3d GetBodyAcceleration(double t) override {asked.push_back(t); return a * (1 + t);}
  Quaterniond GetBodyAngularPosition(double t) override {asked.push_back(t); return q;}
  Vector3d GetBodyAngularRate(double t) override {asked.push_back(t); return w * (1 + t);}
  Vector3d GetBodyAngularAcceleration(double t) override {asked.push_back(t); return al * (1 + t);}
};
struct Call {std::string what; unsigned id; double time, now; size_t n; BoardDetection b; bool cloned;};
std::vector<Call> calls;
Vector3d enu_given, ref_given; int converted = 0;
}
// deviations lie in separate intervals of 1/4, by which the draws are told apart, in whatever order they are made
static double dev(const std::string & n, int k) {return 0.25 * k + sym::real(n, 0.0625, 0.1875);}
static Vector3d devs(const std::string & n, int k) {return Vector3d(dev(n + ".x", k), dev(n + ".y", k + 1), dev(n + ".z", k + 2));}
double SimRNG::NormRand(double mean, double std) {double z = sym::real("z" + std::to_string(draws++), -0.25, 0.25); drawn[(int)std::floor(4 * __sym_peek(std))].push_back(z); return mean + std * z;}
double SimRNG::UniRand(double lo, double hi) {double u = sym::real("u" + std::to_string(draws++), 0, 1); uniform.push_back(u); return lo + (hi - lo) * u;}
Vector3d SimRNG::VecNormRand(const Vector3d & m, const Vector3d & s) {Vector3d v; for (int i = 0; i < 3; i++) {v[i] = SimRNG::NormRand(m[i], s[i]);} return v;}
static void forget() {drawn.clear(); uniform.clear();}
static double draw(int k, size_t i) {sym::check(drawn[k].size() > i, "errors are drawn with their deviation"); return drawn[k].size() > i ? drawn[k][i] : 0;}
static Vector3d draw3(int k, size_t i = 0) {return Vector3d(draw(k, i), draw(k + 1, i), draw(k + 2, i));}
static double offset() {sym::check(uniform.size() == 1, "one offset in time"); return uniform.empty() ? 0 : uniform[0];}
Quaterniond SimRNG::QuatNormRand(const Quaterniond & m, const Vector3d & s)         // an exact attitude, seen to depend on mean and deviation
{
  draws++; return sym::qmul(Quaterniond(0.96, s[0] > s[1] ? 0.28 : 0, s[0] > s[1] ? 0 : 0.28, 0), m);
}
// the geodetic conversion is recorded (its inverse is P17)
Vector3d enu_to_lla(const Vector3d & enu, const Vector3d & ref) {enu_given = enu; ref_given = ref; converted++; return Vector3d(enu[0] + 1, enu[1] + 2, enu[2] + 3);}
void MsckfUpdater::UpdateEKF(EKF & e, const double time, const FeatureTracks & t, double)
{
  Call c{"track", m_id, time, e.GetCurrentTime(), t.size(), BoardDetection(), !e.m_state.aug_states[m_id].empty()}; calls.push_back(c);
}
void FiducialUpdater::UpdateEKF(EKF & e, const double time, const BoardDetection & b)
{
  Call c{"board", m_id, time, e.GetCurrentTime(), 1, b, !e.m_state.aug_states[m_camera_id].empty()}; calls.push_back(c);
}
static Vector3d times(const Vector3d & a, const Vector3d & b) {return a.cwiseProduct(b);}
static Quaterniond mount(int k) {return k ? Quaterniond(0.5, -0.5, 0.5, 0.5) : Quaterniond(0.6, 0, 0.8, 0);}
static Matrix3d square(const Vector3d & s) {Matrix3d m = Matrix3d::Zero(); for (int i = 0; i < 3; i++) {m(i, i) = s[i] * s[i];} return m;}
SCENARIO(times)
{
  double end = sym::real("end", 1.0625, 1.1875); auto e = std::make_shared<EKF>(params()); auto m = std::make_shared<Motion>(end);
  SimGPS::Parameters s; s.gps_params.logger = logger(); s.gps_params.ekf = e; s.gps_params.rate = 4; s.no_errors = !sym::flag("errors"); s.time_error = sym::real("te", 0, 0.0625);
  SimGPS g(s, m); forget(); std::vector<double> t = g.GenerateMeasurementTimes(4);
  sym::check(t.size() == 4, "as many messages as periods"); if (t.size() != 4) {return;}
  for (int i = 0; i < 4; i++) {
    double w = 0.25 * i; if (!s.no_errors) {w += 0.25 * offset() + s.time_error * draw(0, i);}
    sym::eq(t[i], w, "at the rate of the sensor");
  }
}
SCENARIO(imu)
{
  auto e = std::make_shared<EKF>(params()); auto m = std::make_shared<Motion>(0.53125); bool exact = !sym::flag("errors"); forget();
  SimIMU::Parameters s; IMU::Parameters & q = s.imu_params; q.logger = logger(); q.ekf = e; q.rate = 4; s.no_errors = exact; s.time_error = 0;
  q.pos_i_in_b = sym::vec3("ip"); q.ang_i_to_b = mount(sym::choice("mount", 2)); q.acc_bias = sym::vec3("ba"); q.omg_bias = sym::vec3("bw");
  s.acc_error = devs("ea", 1); s.omg_error = devs("ew", 4); s.pos_error = devs("ep", 7); s.ang_error = Vector3d(0.5, 0.25, 0.125); s.acc_bias_error = devs("eba", 10); s.omg_bias_error = devs("ebw", 13);
  SimIMU i(s, m); unsigned id = i.GetId();
  Vector3d p = q.pos_i_in_b, ba = q.acc_bias, bw = q.omg_bias; Quaterniond a = q.ang_i_to_b;
  if (!exact) {p += times(s.pos_error, draw3(7)); a = sym::qmul(Quaterniond(0.96, 0.28, 0, 0), a); ba += times(s.acc_bias_error, draw3(10)); bw += times(s.omg_bias_error, draw3(13));}
  sym::eqm(m->GetImuPosition(id), p, "imu: where it really is"); sym::eqrot(m->GetImuAngularPosition(id), a, "imu: how it is really turned"); sym::eqm(m->GetImuAccelerometerBias(id), ba, "imu: true bias"); sym::eqm(m->GetImuGyroscopeBias(id), bw, "imu: true bias");
  forget(); auto out = i.GenerateMessages(); sym::check(out.size() == 2, "imu: messages"); if (out.size() != 2) {return;}
  for (int k = 0; k < 2; k++) {
    auto & x = *out[k]; double t = 0.25 * k + (exact ? 0 : 0.25 * offset()), f = 1 + t;
    sym::eq(x.time, t, "imu: time"); sym::check(x.sensor_id == id && x.sensor_type == SensorType::IMU, "imu: source");
    Matrix3d l = sym::rot(m->q).transpose(), r = sym::rot(a).transpose(); Vector3d w = m->w * f, al = m->al * f;
    Vector3d acc = r * (l * (m->a * f + g_gravity) + sym::skew(al) * p + sym::skew(w) * (sym::skew(w) * p)) + ba, rate = r * w + bw;
    if (!exact) {acc += times(s.acc_error, draw3(1, k)); rate += times(s.omg_error, draw3(4, k));}
    sym::eqm(x.acceleration, acc, "imu: acceleration", 1e-7); sym::eqm(x.angular_rate, rate, "imu: angular rate", 1e-7);
    sym::eqm(x.acceleration_covariance, square(s.acc_error), "imu: covariance"); sym::eqm(x.angular_rate_covariance, square(s.omg_error), "imu: covariance");
  }
}
SCENARIO(gps)
{
  auto e = std::make_shared<EKF>(params()); auto m = std::make_shared<Motion>(0.53125); bool exact = !sym::flag("errors"); forget();
  SimGPS::Parameters s; GPS::Parameters & q = s.gps_params; q.logger = logger(); q.ekf = e; q.rate = 4; s.no_errors = exact; s.time_error = 0; q.pos_a_in_b = sym::vec3("ap");
  s.lla_error = devs("el", 1); s.pos_a_in_b_err = devs("ep", 7);
  Vector3d ref = sym::vec3("ref", 0, 1); double heading = sym::choice("heading", 3) * 0.75 - 0.5; m->SetLocalPosition(ref); m->SetLocalHeading(heading);
  SimGPS i(s, m); unsigned id = i.GetId(); Vector3d p = q.pos_a_in_b; if (!exact) {p += times(s.pos_a_in_b_err, draw3(7));}
  sym::eqm(m->GetGpsPosition(id), p, "gps: where it really is");
  forget(); m->m_max_time = 0.28125; auto out = i.GenerateMessages(); sym::check(out.size() == 1 && converted == 1, "gps: messages"); if (out.size() != 1) {return;}
  auto & x = *out[0]; double t = exact ? 0 : 0.25 * offset(); sym::eq(x.time, t, "gps: time"); sym::check(x.sensor_id == id && x.sensor_type == SensorType::GPS, "gps: source");
  Vector3d at = m->p * (1 + t) + sym::rot(m->q) * p; if (!exact) {at += times(s.lla_error, draw3(1));}
  double c = std::cos(heading), d = std::sin(heading);
  sym::eqm(enu_given, Vector3d(c * at[0] + d * at[1], c * at[1] - d * at[0], at[2]), "gps: position of the antenna"); sym::eqm(ref_given, ref, "gps: reference");
  sym::eqm(x.gps_lla, Vector3d(enu_given[0] + 1, enu_given[1] + 2, enu_given[2] + 3), "gps: reading"); sym::eqm(x.pos_covariance, square(s.lla_error), "gps: covariance");
}
// a camera with one board (and, in callbacks, two trackers)
SCENARIO(camera)
{
  EKF::Parameters ep = params(); ep.augmenting_type = AugmentationType::ALL; auto e = std::make_shared<EKF>(ep); e->Initialize(0, BodyState()); e->InitializeGravity(); auto m = std::make_shared<Motion>(0.53125); bool exact = !sym::flag("errors"), board_exact = exact || !sym::flag("board_errors"); forget(); calls.clear();
  SimCamera::Parameters s; Camera::Parameters & q = s.cam_params; q.logger = logger(); q.ekf = e; q.rate = 4; s.no_errors = exact; s.time_error = 0; q.pos_c_in_b = sym::vec3("cp"); q.ang_c_to_b = mount(0); q.intrinsics.f_x = sym::real("fx", 1, 2);
  s.pos_error = devs("ep", 7); s.ang_error = Vector3d(0.5, 0.25, 0.125); SimCamera i(s, m); unsigned id = i.GetId();
  Vector3d p = q.pos_c_in_b; Quaterniond a = q.ang_c_to_b; if (!exact) {p += times(s.pos_error, draw3(7)); a = sym::qmul(Quaterniond(0.96, 0.28, 0, 0), a);}
  sym::eqm(m->GetCameraPosition(id), p, "camera: where it really is"); sym::eqrot(m->GetCameraAngularPosition(id), a, "camera: how it is really turned"); sym::eq(m->GetCameraIntrinsics(id).f_x, q.intrinsics.f_x, "camera: intrinsics");
  SimFiducialTracker::Parameters f; FiducialTracker::Parameters & b = f.fiducial_params; b.id = 40; b.camera_id = id; b.logger = logger(); b.ekf = e; b.squares_x = 3; b.squares_y = 3; b.square_length = 0.04; b.marker_length = 0.02; b.pos_f_in_l = sym::vec3("bp"); b.ang_f_to_l = mount(1); b.variance = VectorXd::Ones(6);
  f.no_errors = board_exact; f.pos_error = devs("fp", 1); f.ang_error = Vector3d(0.125, 0.25, 0.5); f.t_vec_error = devs("ft", 4); f.r_vec_error = Vector3d(0.25, 0.5, 0.125);
  forget(); auto fid = std::make_shared<SimFiducialTracker>(f, m); i.AddFiducial(fid);
  Vector3d bp = b.pos_f_in_l; Quaterniond ba = b.ang_f_to_l; if (!board_exact) {bp += times(f.pos_error, draw3(1)); ba = sym::qmul(Quaterniond(0.96, 0, 0.28, 0), ba);}
  unsigned fi = fid->GetID(); sym::eqm(m->GetBoardPosition(fi), bp, "board: where it really is"); sym::eqrot(m->GetBoardOrientation(fi), ba, "board: how it is really turned");
  forget(); auto out = i.GenerateMessages(); sym::check(out.size() == 2, "camera: messages"); if (out.size() != 2) {return;}
  sym::check(out[0]->frame_id != out[1]->frame_id, "camera: frames are told apart");
  for (int k = 0; k < 2; k++) {
    auto & x = *out[k]; double t = 0.25 * k + (exact ? 0 : 0.25 * offset());
    sym::eq(x.time, t, "camera: time"); sym::check(x.sensor_id == id && x.sensor_type == SensorType::Camera && x.feature_track_messages.empty() && x.fiducial_track_messages.size() == 1, "camera: one detection of every board"); if (x.fiducial_track_messages.size() != 1) {return;}
    auto & y = *x.fiducial_track_messages[0]; BoardDetection & d = y.board_detection; if (!y.is_board_visible) {continue;}
    sym::eq(y.time, t, "board: time"); sym::eq(d.frame_time, t, "board: time"); sym::check(y.tracker_id == fi && y.sensor_id == id && d.frame_id == x.frame_id, "board: source");
    Matrix3d l = sym::rot(m->q).transpose(), c = sym::rot(a).transpose(); Vector3d at = c * (l * (bp - m->p * (1 + t)) - p); Quaterniond turned = sym::qmul(sym::qmul(qinv(a), qinv(m->q)), ba);
    if (!board_exact) {at += times(f.t_vec_error, draw3(4, k)); turned = sym::qmul(Quaterniond(0.96, 0, 0.28, 0), turned);}
    sym::eqm(d.pos_f_in_c, at, "board: position"); sym::eqrot(d.ang_f_to_c, turned, "board: attitude");
    sym::eqm(d.pos_error, times(f.t_vec_error, f.t_vec_error), "board: variance"); sym::eqm(d.ang_error, times(f.r_vec_error, f.r_vec_error), "board: variance");
  }
  // and what of it reaches the filter
  SimFeatureTracker::Parameters tp; tp.tracker_params.camera_id = id; tp.tracker_params.logger = logger(); tp.tracker_params.ekf = e; auto t1 = std::make_shared<SimFeatureTracker>(tp, m); i.AddTracker(t1);
  auto msg = *out[1]; auto tm = std::make_shared<SimFeatureTrackerMessage>(); tm->tracker_id = t1->GetID(); bool any = sym::flag("tracks"), seen = sym::flag("board_seen"); if (any) {tm->feature_tracks.resize(2);} msg.feature_track_messages.push_back(tm); msg.fiducial_track_messages[0]->is_board_visible = seen;
  i.Callback(msg);
  sym::eq(e->GetCurrentTime(), msg.time, "camera: the filter is brought to the time of the picture"); auto & cl = e->m_state.aug_states[id]; sym::check(cl.size() == 1 && cl[0].frame_id == msg.frame_id, "camera: a clone of the frame");
  size_t n = (any ? 1 : 0) + (seen ? 1 : 0); sym::check(calls.size() == n, "camera: what was seen is used, once"); if (calls.size() != n) {return;}
  for (auto & c : calls) {sym::eq(c.time, msg.time, "camera: time of the message"); sym::eq(c.now, msg.time, "camera: predicted before it is used"); sym::check(c.cloned, "camera: cloned before it is used");}
  if (any) {sym::check(calls[0].what == "track" && calls[0].n == 2, "camera: tracks");}
  if (seen) {sym::check(calls.back().what == "board" && calls.back().b.frame_id == msg.frame_id, "camera: board"); sym::eqm(calls.back().b.pos_f_in_c, msg.fiducial_track_messages[0]->board_detection.pos_f_in_c, "camera: board as detected");}
}
