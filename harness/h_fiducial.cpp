// Fiducial board measurement: prediction, Jacobian and the update they feed.
#include "hmeas.hpp"
#include "ekf/update/fiducial_updater.hpp"
using namespace hc;
// filter with one or two cameras and boards; camera 3 and board 5 are under test
static void setup(EKF & ekf, int mix, bool cal_cam, bool cal_fid)
{
  VectorXd one = VectorXd::Ones(12);
  World w(ekf);
  ekf.Initialize(0, BodyState());
  if (mix & 1) {w.apply(GPS_E, 2, one); w.apply(CAM_E, 2, one); w.apply(FID_E, 4, one);}
  w.apply(cal_cam ? CAM_E : CAM_0, 3, one);
  if (mix & 2) {w.apply(CAM_E, 6, one); w.apply(FID_E, 7, one);}
  w.apply(cal_fid ? FID_E : FID_0, 5, one);
  for (auto & g : ekf.m_state.cam_states) {g.second.pos_c_in_b = sym::vec3("cam" + std::to_string(g.first)); g.second.ang_c_to_b = Quaterniond(0.5, -0.5, 0.5, 0.5);}
  for (auto & g : ekf.m_state.fid_states) {g.second.pos_f_in_l = sym::vec3("fid" + std::to_string(g.first)); g.second.ang_f_to_l = Quaterniond(0.5, 0.5, 0.5, -0.5);}
  ekf.m_state.body_state = body("b", false); ekf.m_state.body_state.ang_b_to_l = Quaterniond(0.5, 0.5, -0.5, 0.5);
}
static CamState & cam(State & s) {return s.cam_states[3];}
static FidState & fid(State & s) {return s.fid_states[5];}
static Vector3d place(State & s)
{
  Matrix3d Rb = sym::rot(s.body_state.ang_b_to_l), Rc = sym::rot(cam(s).ang_c_to_b);
  return Rc.transpose() * (Rb.transpose() * (fid(s).pos_f_in_l - s.body_state.pos_b_in_l) - cam(s).pos_c_in_b);
}
static Quaterniond turn(State & s) {return sym::qmul(qinv(cam(s).ang_c_to_b), sym::qmul(qinv(s.body_state.ang_b_to_l), fid(s).ang_f_to_l));}
// one of the three attitudes is arbitrary, the others fixed
static void attitudes(State & s)
{
  int k = sym::choice("attitude", 4);
  if (k == 0) {s.body_state.ang_b_to_l = attitude("q");}
  if (k == 1) {cam(s).ang_c_to_b = attitude("q");}
  if (k == 2) {fid(s).ang_f_to_l = attitude("q");}
  if (k == 3) {s.body_state.ang_b_to_l = Quaterniond(0.1, -0.7, 0.1, 0.7);}
}
SCENARIO(prediction)
{
  EKF::Parameters p = params();
  EKF ekf(p); setup(ekf, 3, true, true);
  const Quaterniond qs[4] = {Quaterniond(0.5, 0.5, -0.5, 0.5), Quaterniond(0.1, -0.7, 0.1, 0.7), Quaterniond(1, 0, 0, 0), Quaterniond(0, 0.6, 0, 0.8)};
  cam(ekf.m_state).ang_c_to_b = qs[sym::choice("camera", 4)]; fid(ekf.m_state).ang_f_to_l = qs[sym::choice("board", 4)];
  int k = sym::choice("body", sym::thorough() ? 5 : 4);
  ekf.m_state.body_state.ang_b_to_l = k < 4 ? qs[k] : attitude("q");
  FiducialUpdater u(5, 3, true, true, "", 0.0, logger());
  VectorXd z = u.PredictMeasurement(ekf);
  sym::check((int)z.size() == 6, "size"); if ((int)z.size() != 6) {return;}
  sym::eqm(z.head(3), place(ekf.m_state), "predicted board position");
  if (k == 4) {return;}
  Vector3d v = z.tail(3);
  checkRotated(turn(ekf.m_state), Quaterniond(1, 0, 0, 0), v, true, "predicted board attitude");
}
SCENARIO(jacobian)
{
  bool cc = sym::flag("calibrated_camera"), cf = sym::flag("calibrated_board");
  EKF::Parameters p = params();
  EKF ekf(p); setup(ekf, sym::choice("mix", 4), cc, cf); attitudes(ekf.m_state);
  FiducialUpdater u(5, 3, cf, cc, "", 0.0, logger());
  MatrixXd J = u.GetMeasurementJacobian(ekf);
  sym::check((int)J.rows() == 6, "rows"); if ((int)J.rows() != 6) {return;}
  auto blocks = bodyBlocks();
  if (cc) {
    int i = ekf.m_state.cam_states[3].index;
    blocks.push_back(pos(i, [](State & s) -> Vector3d & {return cam(s).pos_c_in_b;})); blocks.push_back(att(i + 3, [](State & s) -> Quaterniond & {return cam(s).ang_c_to_b;}));
  }
  if (cf) {
    int i = ekf.m_state.fid_states[5].index;
    blocks.push_back(pos(i, [](State & s) -> Vector3d & {return fid(s).pos_f_in_l;})); blocks.push_back(att(i + 3, [](State & s) -> Quaterniond & {return fid(s).ang_f_to_l;}));
  }
  Quaterniond here = turn(ekf.m_state);
  // the attitude rows describe how the predicted attitude turns, seen from the camera
  checkJacobian(J, ekf.m_state, (int)ekf.GetStateSize(), blocks, [&](State & s) {
    VectorXd h(6); h.head(3) = place(s);
    Quaterniond d = sym::qmul(turn(s), qinv(here));
    h[3] = 2 * d.x(); h[4] = 2 * d.y(); h[5] = 2 * d.z();
    return h;
  }, "jacobian");
}
SCENARIO(update)
{
  EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root");
  EKF a(p), b(p);
  double t = 0.5;
  bool calibrated = sym::flag("calibrated");
  BoardDetection d; d.frame_id = 4;
  d.pos_error = Vector3d(0.25, 0.5, 1); d.ang_error = Vector3d(0.125, 0.25, 2);
  bool fixed = sym::flag("fixed");
  d.pos_f_in_c = fixed ? Vector3d(3, 0.5, -1) : sym::vec3("measured");
  for (EKF * e : {&a, &b}) {
    VectorXd one = VectorXd::Ones(12); World w(*e);
    e->Initialize(0, BodyState());
    w.apply(calibrated ? CAM_E : CAM_0, 3, one); w.apply(calibrated ? FID_E : FID_0, 5, one);
    cam(e->m_state).pos_c_in_b = Vector3d(0.5, -1, 0.25); cam(e->m_state).ang_c_to_b = Quaterniond(0.5, -0.5, 0.5, 0.5);
    fid(e->m_state).pos_f_in_l = Vector3d(4, 1, -0.5); fid(e->m_state).ang_f_to_l = Quaterniond(0.1, 0.7, 0.7, 0.1);
    e->m_state.body_state.pos_b_in_l = Vector3d(-1, 2, 0.5); e->m_state.body_state.vel_b_in_l = Vector3d(1, -0.5, 0.25);
    e->m_state.body_state.ang_b_to_l = Quaterniond(0.5, 0.5, -0.5, 0.5);
    int n = (int)e->GetStateSize();
    e->m_cov = MatrixXd::Identity(n, n) * 0.5; e->m_cov(0, 9) = 0.125; if (!p.use_root_covariance) {e->m_cov(9, 0) = 0.125;}
    e->m_is_gravity_initialized = true;
  }
  b.m_state = a.m_state;
  // the measured attitude is the predicted one turned by a small or a large rotation, seen from the camera
  const Quaterniond turns[4] = {Quaterniond(0.98, 0.14, -0.14, 0), Quaterniond(0.1, 0.7, -0.1, 0.7), Quaterniond(-0.98, 0, 0.14, 0.14), Quaterniond(1, 0, 0, 0)};
  Quaterniond delta = turns[sym::choice("turn", 4)];
  b.PredictModel(t);
  d.ang_f_to_c = sym::qmul(delta, turn(b.m_state));
  FiducialUpdater u(5, 3, calibrated, calibrated, "", 0.0, logger());
  u.UpdateEKF(a, t, d);
  VectorXd r(6);
  r.head(3) = d.pos_f_in_c - place(b.m_state);
  double s = delta.w() < 0 ? -1 : 1, n = std::sqrt(delta.x() * delta.x() + delta.y() * delta.y() + delta.z() * delta.z());
  double f = n > 0 ? 2 * std::atan2(n, s * delta.w()) / n * s : 2;
  r[3] = f * delta.x(); r[4] = f * delta.y(); r[5] = f * delta.z();
  MatrixXd R = MatrixXd::Zero(6, 6); R.diagonal() << 0.25, 0.5, 1, 0.125, 0.25, 2;
  FiducialUpdater v(5, 3, calibrated, calibrated, "", 0.0, logger());
  MatrixXd J = v.GetMeasurementJacobian(b);
  Updater::KalmanUpdate(b, J, r, R);
  sameFilters(a, b, "update", fixed);
}
