// IMU readings of a moving body: prediction, Jacobian, and what a reading does to the filter.
#include "hmeas.hpp"
#include "ekf/update/imu_updater.hpp"
using namespace hc;
static ImuState & imu(State & s) {return s.imu_states[3];}
static const Quaterniond QI(0.5, -0.5, 0.5, 0.5), QB(0.5, 0.5, -0.5, 0.5), QX(0.1, -0.7, 0.1, 0.7);
static void setup(EKF & ekf, Kind kind, int mix)
{
  VectorXd one = VectorXd::Ones(12);
  World w(ekf);
  ekf.Initialize(0, BodyState());
  if (mix & 1) {w.apply(GPS_E, 2, one); w.apply(IMU_E, 2, one);}
  w.apply(kind, 3, one);
  if (mix & 2) {w.apply(IMU_EI, 6, one); w.apply(CAM_E, 7, one);}
  for (auto & g : ekf.m_state.imu_states) {
    std::string n = "imu" + std::to_string(g.first);
    g.second.pos_i_in_b = sym::vec3(n); g.second.ang_i_to_b = QI; g.second.acc_bias = sym::vec3(n + ".a"); g.second.omg_bias = sym::vec3(n + ".g");
  }
  ekf.m_state.body_state = body("b", false); ekf.m_state.body_state.ang_b_to_l = QB;
}
// reading of the IMU on the moving body (acceleration of the body includes the reaction to gravity)
static VectorXd reading(State & s)
{
  BodyState & b = s.body_state; ImuState & i = imu(s);
  Matrix3d R = sym::rot(b.ang_b_to_l), Ri = sym::rot(i.ang_i_to_b);
  Vector3d l = R * i.pos_i_in_b;
  Matrix3d W = sym::skew(b.ang_vel_b_in_l);
  Vector3d a = b.acc_b_in_l + sym::skew(b.ang_acc_b_in_l) * l + W * (W * l);
  VectorXd z(6);
  z.head(3) = i.acc_bias + Ri.transpose() * (R.transpose() * a);
  z.tail(3) = i.omg_bias + Ri.transpose() * (R.transpose() * b.ang_vel_b_in_l);
  return z;
}
SCENARIO(prediction_and_jacobian)
{
  const Kind kinds[4] = {IMU_E, IMU_I, IMU_EI, IMU_0};
  int kind = sym::choice("kind", 4);
  EKF::Parameters p = params();
  EKF ekf(p); setup(ekf, kinds[kind], sym::choice("mix", 4));
  int k = sym::choice("attitude", 3);
  if (k == 0) {ekf.m_state.body_state.ang_b_to_l = attitude("q");}
  if (k == 1) {imu(ekf.m_state).ang_i_to_b = attitude("q");}
  if (k == 2) {ekf.m_state.body_state.ang_b_to_l = QX;}
  bool ext = kind == 0 || kind == 2, in = kind == 1 || kind == 2;
  ImuUpdater u(3, ext, in, "", 0.0, logger());
  sym::eqm(u.PredictMeasurement(ekf), reading(ekf.m_state), "predicted reading");
  MatrixXd J = u.GetMeasurementJacobian(ekf);
  sym::check((int)J.rows() == 6, "rows"); if ((int)J.rows() != 6) {return;}
  auto blocks = bodyBlocks();
  if (ext) {
    int i = imu(ekf.m_state).index_extrinsic;
    blocks.push_back(pos(i, [](State & s) -> Vector3d & {return imu(s).pos_i_in_b;})); blocks.push_back(att(i + 3, [](State & s) -> Quaterniond & {return imu(s).ang_i_to_b;}));
  }
  if (in) {
    int i = imu(ekf.m_state).index_intrinsic;
    blocks.push_back(pos(i, [](State & s) -> Vector3d & {return imu(s).acc_bias;})); blocks.push_back(pos(i + 3, [](State & s) -> Vector3d & {return imu(s).omg_bias;}));
  }
  // rows of the attitude that are nothing but zeros are one finding, whatever the state
  MatrixXd E = J;
  for (int g = 0; g < 2; g++) {
    bool none = true;
    for (int i = 0; i < 9; i++) {none = none && J(3 * g + i / 3, 9 + i % 3) == 0;}
    if (!none) {continue;}
    MatrixXd D(3, 3);
    for (int k = 0; k < 3; k++) {D.col(k) = sym::derivative([&](double e) {State t = ekf.m_state; t.body_state.ang_b_to_l = sym::perturb(t.body_state.ang_b_to_l, k, e); return VectorXd(reading(t).segment(3 * g, 3));});}
    for (int i = 0; i < 3; i++) {for (int k = 0; k < 3; k++) {sym::eq(0.0, D(i, k), g ? "attitude left out of the angular rate" : "attitude left out of the acceleration", sym::native() ? 1e-4 : 1e-9); E(3 * g + i, 9 + k) = D(i, k);}}
  }
  checkJacobian(E, ekf.m_state, (int)ekf.GetStateSize(), blocks, [](State & s) {return reading(s);}, "jacobian");
}
static void still(EKF & e, bool ext, bool in)
{
  VectorXd one = VectorXd::Ones(12); World w(e);
  e.Initialize(0, BodyState()); e.InitializeGravity();
  w.apply(ext && in ? IMU_EI : ext ? IMU_E : in ? IMU_I : IMU_0, 3, one);
  imu(e.m_state).pos_i_in_b = Vector3d(0.5, -1, 0.25); imu(e.m_state).ang_i_to_b = QI;
  imu(e.m_state).acc_bias = Vector3d(0.25, 0, -0.5); imu(e.m_state).omg_bias = Vector3d(0, 0.125, -0.25);
}
// an updater that has seen its body move
static void moved(ImuUpdater & u, bool ext, bool in)
{
  EKF::Parameters p = params(); EKF t(p); still(t, ext, in);
  u.UpdateEKF(t, 0.0, Vector3d(900, -900, 900), Matrix3d::Identity() * 1e-3, Vector3d(50, 50, -50), Matrix3d::Identity() * 1e-3);
}
// a single IMU drives the rates of the body
SCENARIO(single)
{
  EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root");
  EKF a(p), b(p);
  bool ext = sym::flag("extrinsic"), in = sym::flag("intrinsic");
  bool tilted = sym::flag("tilted"), turning = sym::flag("turning");
  double t = tilted && turning ? 0.5 : sym::real("t", 0.125, 1);
  for (EKF * e : {&a, &b}) {still(*e, ext, in);}
  a.m_state.body_state.pos_b_in_l = sym::vec3("p"); a.m_state.body_state.vel_b_in_l = sym::vec3("v"); a.m_state.body_state.ang_acc_b_in_l = Vector3d(1, 1, 1);
  a.m_state.body_state.ang_b_to_l = tilted ? QX : QB;
  imu(a.m_state).acc_bias = sym::vec3("ab"); if (!turning) {imu(a.m_state).omg_bias = sym::vec3("gb");}
  b.m_state = a.m_state;
  ImuUpdater u(3, ext, in, "", 0.0, logger());
  moved(u, ext, in);
  Vector3d acc = sym::vec3("acc", -12, 12), omg = imu(a.m_state).omg_bias;
  if (turning) {omg += Vector3d(0.5, -0.25, 1);}
  u.UpdateEKF(a, t, acc, Matrix3d::Identity() * 1e-3, omg, Matrix3d::Identity() * 1e-3);
  BodyState & s = b.m_state.body_state;
  s.acc_b_in_l = sym::rot(s.ang_b_to_l) * (sym::rot(QI) * (acc - imu(b.m_state).acc_bias));
  s.ang_vel_b_in_l = sym::rot(s.ang_b_to_l) * (sym::rot(QI) * (omg - imu(b.m_state).omg_bias));
  s.ang_acc_b_in_l = Vector3d::Zero();
  b.SetZeroAcceleration(false);
  b.PredictModel(t);
  sameFilters(a, b, "single");
}
// with several IMUs a reading corrects the filter
SCENARIO(several)
{
  EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root");
  EKF a(p), b(p);
  int kind = sym::choice("kind", 4); bool ext = kind & 1, in = kind & 2;
  bool fixed = sym::flag("fixed");
  for (EKF * e : {&a, &b}) {
    still(*e, ext, in); World w(*e); VectorXd one = VectorXd::Ones(12); w.apply(IMU_I, 1, one);
    BodyState & s = e->m_state.body_state;
    s.pos_b_in_l = Vector3d(1, 2, -1); s.vel_b_in_l = Vector3d(1, -0.5, 0.25); s.acc_b_in_l = Vector3d(0.5, 1, 9); s.ang_b_to_l = QX;
    s.ang_vel_b_in_l = Vector3d(0.5, -0.25, 1); s.ang_acc_b_in_l = Vector3d(0.25, 0.5, -0.5);
    int n = (int)e->GetStateSize();
    e->m_cov = MatrixXd::Identity(n, n) * 0.5; e->m_cov(6, 9) = 0.125; if (!p.use_root_covariance) {e->m_cov(9, 6) = 0.125;}
  }
  b.m_state = a.m_state;
  ImuUpdater u(3, ext, in, "", 0.0, logger()), v(3, ext, in, "", 0.0, logger());
  moved(u, ext, in);
  Matrix3d Ra = Matrix3d::Zero(), Rg = Matrix3d::Zero(); Ra.diagonal() << 0.25, 0.5, 1; Rg.diagonal() << 0.125, 4, 0.25;
  VectorXd q(6); q << 3, -2, 8, 0.5, 1, -0.25;
  if (!fixed) {q(sym::choice("axis", 6)) = sym::real("reading", -12, 12);}
  Vector3d acc = q.head(3), omg = q.tail(3);
  double t = 0.5;
  u.UpdateEKF(a, t, acc, Ra, omg, Rg);
  VectorXd r(6), z = reading(b.m_state); r.head(3) = acc - z.head(3); r.tail(3) = omg - z.tail(3);
  MatrixXd R = MatrixXd::Zero(6, 6); R.block(0, 0, 3, 3) = Ra; R.block(3, 3, 3, 3) = Rg;
  Updater::KalmanUpdate(b, v.GetMeasurementJacobian(b), r, R);
  if (!fixed) {
    // the rates are linear in the reading; the attitude they lead to is not
    sym::eqm(a.m_state.body_state.acc_b_in_l, b.m_state.body_state.acc_b_in_l, "several: acceleration");
    sym::eqm(a.m_state.body_state.ang_vel_b_in_l, b.m_state.body_state.ang_vel_b_in_l, "several: angular rate");
    sym::eqm(a.m_state.body_state.ang_acc_b_in_l, b.m_state.body_state.ang_acc_b_in_l, "several: angular acceleration");
    if (ext) {sym::eqm(imu(a.m_state).pos_i_in_b, imu(b.m_state).pos_i_in_b, "several: imu position");}
    if (in) {sym::eqm(imu(a.m_state).acc_bias, imu(b.m_state).acc_bias, "several: bias"); sym::eqm(imu(a.m_state).omg_bias, imu(b.m_state).omg_bias, "several: bias");}
    return;
  }
  b.SetZeroAcceleration(false);
  b.PredictModel(t);
  sameFilters(a, b, "several");
}
