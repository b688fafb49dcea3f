// One clock for all sensors: where measurements lie in the time of the filter, and that every interval is integrated once.
#include "hmsckf.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "sensors/imu.hpp"
#include "sensors/gps.hpp"
#include "sensors/camera.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "sensors/camera_message.hpp"
#include "utility/gps_helper.hpp"
using namespace hc;
// corrections correct nothing here, and what a picture shows is found elsewhere
void Updater::KalmanUpdate(EKF &, const MatrixXd &, const VectorXd &, const MatrixXd &) {}
Vector3d lla_to_enu(const Vector3d & a, const Vector3d &) {return a;}
static FiducialUpdater * board = nullptr; static MsckfUpdater * features = nullptr; static double shown = 0; static unsigned shown_id = 0;
void FiducialTracker::Track(double time, unsigned int id, const cv::Mat &, cv::Mat &)
{
  shown = time; shown_id = id; BoardDetection d; d.frame_id = (int)id; d.pos_f_in_c = Vector3d(1, 2, 3); d.ang_f_to_c = Quaterniond(1, 0, 0, 0); d.pos_error = d.ang_error = Vector3d(1, 1, 1);
  board->UpdateEKF(*m_ekf, time, d); features->UpdateEKF(*m_ekf, time, FeatureTracks(), 1.0);
}
static void run(int n, bool pictures)
{
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; p.gps_init_type = GpsInitType::CONSTANT; auto e = std::make_shared<EKF>(p); int how = sym::choice("started", 3); double ref = 0, first = sym::real("t0", -4, 4096); bool started = how > 0;
  BodyState b; b.pos_b_in_l = sym::vec3("p"); b.vel_b_in_l = sym::vec3("v"); b.acc_b_in_l = g_gravity; double now = 0;
  if (how == 1) {now = sym::real("from", 0, 2); e->Initialize(now, b); first = now;} else if (how == 2) {e->Initialize(0, b); first = 0;} else {e->m_state.body_state = b;}
  e->m_is_gravity_initialized = true; e->m_is_zero_acceleration = false;
  IMU::Parameters ip; ip.name = "i"; ip.logger = logger(); ip.ekf = e; IMU imu(ip); imu.m_imu_updater.m_initial_motion_detected = true;
  GPS::Parameters gp; gp.name = "g"; gp.logger = logger(); gp.ekf = e; GPS gps(gp);
  Camera::Parameters cp; cp.name = "c"; cp.logger = logger(); cp.ekf = e; cp.rate = 4; Camera camera(cp); unsigned id = camera.GetId();
  FiducialTracker::Parameters fp; fp.name = "f"; fp.camera_id = id; fp.logger = logger(); fp.ekf = e; auto f = std::make_shared<FiducialTracker>(fp); camera.AddFiducial(f);
  FiducialUpdater fu(f->m_id, id, false, false, "", 0.0, logger()); MsckfUpdater mu(id, false, "", 0.0, 0.1, logger()); board = &fu; features = &mu;
  Vector3d at = b.pos_b_in_l, v = b.vel_b_in_l;
  for (int k = 0; k < n; k++) {
    std::string s = std::to_string(k); double t = k == 0 && how == 0 ? first : first + sym::real("t" + s, how == 0 ? -1 : -0.5, 2); int kind = pictures ? 2 : sym::choice("kind" + s, 3);
    if (!started) {ref = t; started = true; now = 0;}
    double local = t - ref; size_t clones = e->m_state.aug_states[id].size();
    bool later = local > now; if (later) {at = at + v * (local - now); now = local;}
    if (kind == 0) {auto m = std::make_shared<ImuMessage>(); m->time = t; m->sensor_id = imu.GetId(); m->acceleration = g_gravity; m->angular_rate = Vector3d(0, 0, 0); m->acceleration_covariance = m->angular_rate_covariance = Matrix3d::Identity(); imu.Callback(*m);}
    if (kind == 1) {auto m = std::make_shared<GpsMessage>(); m->time = t; m->sensor_id = gps.GetId(); m->gps_lla = Vector3d(1, 2, 3); m->pos_covariance = Matrix3d::Identity(); gps.Callback(*m);}
    if (kind == 2) {CameraMessage m(cv::Mat::zeros(4, 4, CV_8U)); m.time = t; m.sensor_id = id; camera.Callback(m); sym::eq(shown, t, "time of the picture");}
    sym::eq(e->GetCurrentTime(), now, "time of the filter");
    sym::eqm(e->m_state.body_state.pos_b_in_l, at, "every interval is integrated once"); sym::eqm(e->m_state.body_state.vel_b_in_l, v, "velocity");
    auto & a = e->m_state.aug_states[id]; if (kind == 2) {bool found = false; for (auto & c : a) {if (c.frame_id == (int)shown_id) {found = true; sym::eq(c.time, now, "time of the clone"); sym::eqm(c.pos_b_in_l, at, "position of the clone");}} sym::check(found, "clone of the picture");} else {sym::check(a.size() == clones, "no other clones");}
  }
}
SCENARIO(mixed) {run(sym::thorough() ? 4 : 3, false);}
SCENARIO(pictures) {run(4, true);}
