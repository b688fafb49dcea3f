// GPS antenna measurement: prediction, Jacobian and the update they feed.
#include "hmeas.hpp"
#include "ekf/update/gps_updater.hpp"
#include "utility/gps_helper.hpp"
using namespace hc;
// filter with one to three antennas and other sensors; the antenna under test is number `id`
static void setup(EKF & ekf, int mix, bool calibrated)
{
  VectorXd one = VectorXd::Ones(12);
  World w(ekf);
  ekf.Initialize(0, BodyState());
  if (mix & 1) {w.apply(GPS_E, 2, one); w.apply(CAM_E, 3, one);}
  w.apply(calibrated ? GPS_E : GPS_0, 5, one);
  if (mix & 2) {w.apply(IMU_EI, 4, one); w.apply(GPS_E, 7, one);}
  for (auto & g : ekf.m_state.gps_states) {g.second.pos_a_in_b = sym::vec3("ant" + std::to_string(g.first));}
  ekf.m_state.body_state = body("b", false); ekf.m_state.body_state.ang_b_to_l = attitude("q");
}
static Vector3d model(State & s) {return s.body_state.pos_b_in_l + sym::rot(s.body_state.ang_b_to_l) * s.gps_states[5].pos_a_in_b;}
SCENARIO(prediction_and_jacobian)
{
  bool cal = sym::flag("calibrated");
  EKF::Parameters p = params();
  EKF ekf(p); setup(ekf, sym::choice("mix", 4), cal);
  GpsUpdater u(5, cal, "", 0.0, logger());
  sym::eqm(u.PredictMeasurement(ekf), model(ekf.m_state), "predicted antenna position");
  MatrixXd J = u.GetMeasurementJacobian(ekf);
  sym::check((int)J.rows() == 3, "rows"); if ((int)J.rows() != 3) {return;}
  auto blocks = bodyBlocks();
  if (cal) {blocks.push_back(pos((int)ekf.m_state.gps_states[5].index, [](State & s) -> Vector3d & {return s.gps_states[5].pos_a_in_b;}));}
  checkJacobian(J, ekf.m_state, (int)ekf.GetStateSize(), blocks, [](State & s) {return VectorXd(model(s));}, "jacobian");
}
// an update corrects the filter with the position of the antenna in the local frame minus the predicted one
SCENARIO(update)
{
  EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root");
  EKF a(p), b(p);
  double t = sym::real("t", 0.125, 1);
  Vector3d ref(47, 8.5, 400), lla(47 + sym::real("lat", -0.01, 0.01), 8.5 + sym::real("lon", -0.01, 0.01), 400 + sym::real("alt", -50, 50));
  double ang = sym::real("heading", -3, 3);
  Matrix3d R = Matrix3d::Zero(); R(0, 0) = 0.5; R(1, 1) = 0.25; R(2, 2) = 2; R(0, 1) = R(1, 0) = 0.125;
  for (EKF * e : {&a, &b}) {
    VectorXd one = VectorXd::Ones(12); World w(*e);
    e->Initialize(0, BodyState());
    w.apply(GPS_E, 5, one);
    e->m_state.gps_states[5].pos_a_in_b = Vector3d(0.5, -1, 0.25);
    e->m_state.body_state.pos_b_in_l = sym::vec3("p"); e->m_state.body_state.vel_b_in_l = Vector3d(1, -0.5, 0.25);
    e->m_state.body_state.ang_b_to_l = Quaterniond(0.5, 0.5, -0.5, 0.5);
    e->m_cov = MatrixXd::Identity(21, 21) * 0.5; e->m_cov(0, 9) = 0.125; if (!p.use_root_covariance) {e->m_cov(9, 0) = 0.125;}
    e->SetGpsReference(ref, ang);
    e->m_is_gravity_initialized = true;
  }
  b.m_state = a.m_state;
  GpsUpdater u(5, true, "", 0.0, logger());
  u.UpdateEKF(a, t, lla, R);
  b.PredictModel(t);
  Vector3d enu = lla_to_enu(lla, ref);
  Vector3d local(std::cos(ang) * enu[0] - std::sin(ang) * enu[1], std::sin(ang) * enu[0] + std::cos(ang) * enu[1], enu[2]);
  VectorXd r = local - model(b.m_state);
  GpsUpdater v(5, true, "", 0.0, logger());
  MatrixXd J = v.GetMeasurementJacobian(b);
  Updater::KalmanUpdate(b, J, r, R);
  sameFilters(a, b, "update");
}
// before the reference exists a measurement moves the filter time only, and is remembered
SCENARIO(waiting)
{
  EKF::Parameters p = params(); p.gps_init_type = sym::flag("by_error") ? GpsInitType::ERROR_THRESHOLD : GpsInitType::BASELINE_DIST;
  EKF a(p), b(p);
  int n = sym::choice("measurements", 3) + 1;
  for (EKF * e : {&a, &b}) {VectorXd one = VectorXd::Ones(12); World w(*e); e->Initialize(0, BodyState()); w.apply(GPS_E, 5, one);}
  a.m_state.body_state = body("b", false); a.m_state.body_state.ang_b_to_l = Quaterniond(0.5, 0.5, -0.5, 0.5); a.m_state.body_state.ang_vel_b_in_l = a.m_state.body_state.ang_acc_b_in_l = Vector3d::Zero();
  b.m_state = a.m_state;
  a.m_is_gravity_initialized = b.m_is_gravity_initialized = sym::flag("gravity");
  GpsUpdater u(5, true, "", 0.0, logger());
  for (int k = 0; k < n; k++) {
    double t = sym::real("t" + std::to_string(k), k + 0.5, k + 1);
    u.UpdateEKF(a, t, Vector3d(47, 8.5, 400), Matrix3d::Identity());
    b.PredictModel(t);
    sym::check(!a.IsLlaInitialized(), "no reference yet");
    sym::check((int)a.GetGpsTimeVector().size() == k + 1, "measurement remembered");
    if ((int)a.GetGpsXyzVector().size() == k + 1) {sym::eqm(a.GetGpsXyzVector()[k], b.m_state.body_state.pos_b_in_l, "remembered position");}
  }
  sameFilters(a, b, "waiting");
}
