// IMU readings of a body at rest: model, decision between rest and motion, and effect on the filter.
#include "hmeas.hpp"
#include "ekf/constants.hpp"
#include "ekf/update/imu_updater.hpp"
using namespace hc;
static ImuState & imu(State & s) {return s.imu_states[3];}
static const Quaterniond QI(0.5, -0.5, 0.5, 0.5), QX(0.1, 0.7, 0.5, 0.5);
static const Vector3d G(0, 0, 9.80665);
static void setup(EKF & e, Kind kind, int mix)
{
  VectorXd one = VectorXd::Ones(12);
  World w(e);
  e.Initialize(0, BodyState());
  if (mix & 1) {w.apply(GPS_E, 2, one); w.apply(CAM_E, 1, one);}
  w.apply(kind, 3, one);
  if (mix & 2) {w.apply(IMU_EI, 6, one);}
  for (auto & g : e.m_state.imu_states) {
    g.second.pos_i_in_b = Vector3d(0.5, -1, 0.25); g.second.ang_i_to_b = QI; g.second.acc_bias = Vector3d(0.25, 0, -0.5); g.second.omg_bias = Vector3d(0, 0.125, -0.25);
  }
  e.m_state.body_state.ang_b_to_l = QX; e.m_state.body_state.pos_b_in_l = Vector3d(1, -2, 3); e.m_state.body_state.vel_b_in_l = Vector3d(0.5, 0.25, -1);
}
// reading of the IMU on a body at rest; an uncalibrated gyroscope is not used
static VectorXd resting(State & s, bool gyro)
{
  Matrix3d R = sym::rot(s.body_state.ang_b_to_l), Ri = sym::rot(imu(s).ang_i_to_b);
  VectorXd z(gyro ? 6 : 3);
  z.head(3) = imu(s).acc_bias + Ri.transpose() * (R.transpose() * G);
  if (gyro) {z.tail(3) = imu(s).omg_bias;}
  return z;
}
static std::vector<Block> blocksOf(EKF & e, bool ext, bool in)
{
  auto blocks = bodyBlocks();
  if (ext) {
    int i = imu(e.m_state).index_extrinsic;
    blocks.push_back(pos(i, [](State & s) -> Vector3d & {return imu(s).pos_i_in_b;})); blocks.push_back(att(i + 3, [](State & s) -> Quaterniond & {return imu(s).ang_i_to_b;}));
  }
  if (in) {
    int i = imu(e.m_state).index_intrinsic;
    blocks.push_back(pos(i, [](State & s) -> Vector3d & {return imu(s).acc_bias;})); blocks.push_back(pos(i + 3, [](State & s) -> Vector3d & {return imu(s).omg_bias;}));
  }
  return blocks;
}
static const Kind CALIB[4] = {IMU_0, IMU_E, IMU_I, IMU_EI};
SCENARIO(jacobian)
{
  int kind = sym::choice("kind", 4); bool ext = kind & 1, in = kind & 2;
  EKF::Parameters p = params();
  EKF ekf(p), probe(p);
  int mix = sym::choice("mix", 4);
  setup(ekf, CALIB[kind], mix); setup(probe, CALIB[kind], mix);
  imu(ekf.m_state).acc_bias = sym::vec3("ab"); imu(ekf.m_state).omg_bias = sym::vec3("gb"); imu(ekf.m_state).pos_i_in_b = sym::vec3("lever");
  ekf.m_state.body_state.ang_vel_b_in_l = sym::vec3("w"); ekf.m_state.body_state.acc_b_in_l = sym::vec3("a");
  if (sym::flag("imu")) {imu(ekf.m_state).ang_i_to_b = attitude("q"); ekf.m_state.body_state.ang_b_to_l = sym::flag("side") ? Quaterniond(0.5, 0.5, -0.5, 0.5) : Quaterniond(0.5, 0.5, 0.5, 0.5);} else {ekf.m_state.body_state.ang_b_to_l = attitude("q");}
  ImuUpdater u(3, ext, in, "", 0.0, logger());
  auto h = [in](State & s) {return resting(s, in);};
  // the residual may be taken either way round
  double s = 1;
  probe.m_state.body_state.ang_b_to_l = QX;
  {
    MatrixXd J = u.GetZeroAccelerationJacobian(probe);
    VectorXd d = sym::derivative([&](double e) {State t = probe.m_state; t.body_state.ang_b_to_l = sym::perturb(t.body_state.ang_b_to_l, 0, e); return h(t);});
    VectorXd c = J.col(9);
    if (c.dot(d) < 0) {s = -1;}
  }
  MatrixXd J = u.GetZeroAccelerationJacobian(ekf) * s;
  sym::check((int)J.rows() == (in ? 6 : 3), "rows"); if ((int)J.rows() != (in ? 6 : 3)) {return;}
  checkJacobian(J, ekf.m_state, (int)ekf.GetStateSize(), blocksOf(ekf, ext, in), h, "jacobian");
}
static MatrixXd jacobianOf(EKF & e, bool ext, bool in)
{
  MatrixXd J = MatrixXd::Zero(in ? 6 : 3, e.GetStateSize());
  for (auto & b : blocksOf(e, ext, in)) {
    MatrixXd D(J.rows(), 3);
    for (int k = 0; k < 3; k++) {D.col(k) = sym::derivative([&](double x) {State t = e.m_state; b.move(t, k, x); return resting(t, in);});}
    J.middleCols(b.index, 3) = D;
  }
  return J;
}
// what one reading does to the filter; `detected` is the memory of the sensor
static void oracle(EKF & b, double t, const Vector3d & acc, const Matrix3d & Ra, const Vector3d & omg, const Matrix3d & Rg, bool ext, bool in, bool & detected, bool known, bool high)
{
  EKF::Parameters p = params();
  int m = in ? 6 : 3;
  VectorXd r = -resting(b.m_state, in); r.head(3) += acc; if (in) {r.tail(3) += omg;}
  MatrixXd R = MatrixXd::Zero(m, m); R.block(0, 0, 3, 3) = Ra; if (in) {R.block(3, 3, 3, 3) = Rg;}
  if (!detected) {
    MatrixXd H = jacobianOf(b, ext, in);
    MatrixXd S = H * covOf(b) * H.transpose() + b.GetImuNoiseScaleFactor() * R;
    double score = r.dot(S.ldlt().solve(r)), chi = b.GetMotionDetectionChiSquared();
    if (known) {if (high) {sym::assume_le(chi + 1e-6, score);} else {sym::assume_le(score, chi - 1e-6);}}
    if (high && b.IsGravityInitialized()) {detected = true;}
    if (!high) {b.InitializeGravity();}
  }
  BodyState & s = b.m_state.body_state;
  if (detected) {
    b.SetZeroAcceleration(false);
    s.acc_b_in_l = sym::rot(s.ang_b_to_l) * (sym::rot(imu(b.m_state).ang_i_to_b) * (acc - imu(b.m_state).acc_bias));
    s.ang_vel_b_in_l = sym::rot(s.ang_b_to_l) * (sym::rot(imu(b.m_state).ang_i_to_b) * (omg - imu(b.m_state).omg_bias));
    s.ang_acc_b_in_l = Vector3d::Zero();
    b.PredictModel(t);
    return;
  }
  b.PredictModel(t);
  Updater::KalmanUpdate(b, jacobianOf(b, ext, in), r, R);
  s.acc_b_in_l = G; s.ang_vel_b_in_l = Vector3d::Zero(); s.ang_acc_b_in_l = Vector3d::Zero();
  b.SetZeroAcceleration(true);
}
static void uncertain(EKF & e, bool root)
{
  int n = (int)e.GetStateSize();
  e.m_cov = MatrixXd::Identity(n, n) * 0.5;
  e.m_cov(9, 10) = 0.125; e.m_cov(3, 9) = 0.25; e.m_cov(0, n - 1) = 0.0625; e.m_cov(10, n - 1) = 0.125;
  if (!root) {for (int i = 0; i < n; i++) {for (int j = 0; j < i; j++) {e.m_cov(i, j) = e.m_cov(j, i);}}}
}
SCENARIO(decision)
{
  EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root"); p.motion_detection_chi_squared = 0.5; p.imu_noise_scale_factor = 16;
  EKF a(p), b(p);
  int kind = sym::choice("kind", 4); bool ext = kind & 1, in = kind & 2, high = sym::flag("high"), gravity = sym::flag("gravity");
  int mix = sym::flag("mix") ? (high && gravity ? 1 : 3) : 0;
  for (EKF * e : {&a, &b}) {setup(*e, CALIB[kind], mix); uncertain(*e, p.use_root_covariance); if (gravity) {e->InitializeGravity();}}
  Matrix3d Ra = Matrix3d::Zero(), Rg = Matrix3d::Zero(); Ra.diagonal() << 0.25, 0.5, 1; Rg.diagonal() << 0.125, 4, 0.25;
  VectorXd q(6); q << resting(a.m_state, false), Vector3d(0, 0.125, -0.25);
  q[2] += 0.25;
  int axis = sym::choice("axis", in ? 6 : 3); bool fixed = sym::flag("fixed"); q(axis) += fixed ? (high ? 24 : 0.5) : sym::real("reading", -40, 40);
  if (!fixed && axis >= 3 && high && gravity) {q.tail(3) = imu(a.m_state).omg_bias; q(axis) += 24;}
  Vector3d acc = q.head(3), omg = q.tail(3);
  bool detected = false;
  double t = 0.5;
  oracle(b, t, acc, Ra, omg, Rg, ext, in, detected, true, high);
  ImuUpdater u(3, ext, in, "", 0.0, logger());
  u.UpdateEKF(a, t, acc, Ra, omg, Rg);
  sym::check(a.IsGravityInitialized() == b.IsGravityInitialized(), "gravity");
  sameFilters(a, b, detected ? "moving" : "resting", fixed || detected);   // a symbolic correction of an attitude is not linear
}

// once motion was detected a sensor never takes its body for resting again
SCENARIO(memory)
{
  EKF::Parameters p = params(); p.use_root_covariance = sym::flag("root"); p.motion_detection_chi_squared = 0.5; p.imu_noise_scale_factor = 16;
  EKF a(p), b(p);
  int kind = sym::choice("kind", 4); bool ext = kind & 1, in = kind & 2;
  for (EKF * e : {&a, &b}) {setup(*e, CALIB[kind], 0); uncertain(*e, p.use_root_covariance);}
  a.m_state.body_state.pos_b_in_l = sym::vec3("p"); a.m_state.body_state.vel_b_in_l = sym::vec3("v");
  b.m_state = a.m_state;
  Matrix3d Ra = Matrix3d::Identity() * 0.25, Rg = Matrix3d::Identity() * 0.5;
  ImuUpdater u(3, ext, in, "", 0.0, logger());
  bool detected = false;
  for (int k = 0; k < 4; k++) {
    bool moving = sym::flag("moving");
    VectorXd z = resting(a.m_state, true); Vector3d acc = z.head(3), omg = z.tail(3);
    if (detected) {omg = imu(a.m_state).omg_bias;}
    if (moving) {acc += Vector3d(90, 40, -60);}
    oracle(b, 0.25 * k, acc, Ra, omg, Rg, ext, in, detected, false, moving);
    u.UpdateEKF(a, 0.25 * k, acc, Ra, omg, Rg);
    sym::check(a.IsGravityInitialized() == b.IsGravityInitialized(), "gravity");
  }
  sameFilters(a, b, detected ? "moved" : "never moved");
}
