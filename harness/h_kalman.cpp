// Measurement correction: gain, corrected state and corrected covariance, both covariance forms.
#include "hroot.hpp"
using namespace hc;

static void setup(EKF & ekf, int which)
{
  if (which & 1) {
    GpsState g; g.SetIsExtrinsic(true); g.pos_a_in_b = Vector3d(0.5, -0.25, 1);
    ekf.RegisterGPS(5, g, Matrix3d::Identity());
  }
  if (which & 2) {
    CamState c; c.SetIsExtrinsic(true); c.pos_c_in_b = Vector3d(0.25, 0.5, -1);
    ekf.RegisterCamera(6, c, MatrixXd::Identity(6, 6));
  }
}
// oracle: textbook minimum-variance correction, S inverted by Cramer's rule
struct Oracle { MatrixXd P; VectorXd dx; double det; };
static Oracle oracle(const MatrixXd & P, const MatrixXd & H, const VectorXd & r, const MatrixXd & R)
{
  int m = (int)H.rows(), n = (int)P.rows();
  MatrixXd A = P * H.transpose();
  MatrixXd S = H * A + R, Si(m, m);
  Oracle o;
  if (m == 1) {o.det = S(0, 0); Si(0, 0) = 1 / o.det;}
  if (m == 2) {
    o.det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
    Si << S(1, 1) / o.det, -S(0, 1) / o.det, -S(1, 0) / o.det, S(0, 0) / o.det;
  }
  o.P = P - A * Si * A.transpose();
  o.dx = A * (Si * r);
  (void)n;
  return o;
}
static void compare(EKF & ekf, const State & before, const Oracle & o)
{
  int n = (int)o.P.rows();
  sym::check((int)ekf.m_cov.rows() == n && (int)ekf.m_cov.cols() == n, "covariance size kept");
  if ((int)ekf.m_cov.rows() != n) {return;}
  sym::eqm(covOf(ekf), o.P, "corrected covariance");
  BodyState & a = ekf.m_state.body_state; const BodyState & b = before.body_state;
  sym::eqm(a.pos_b_in_l, b.pos_b_in_l + o.dx.segment<3>(0), "position correction");
  sym::eqm(a.vel_b_in_l, b.vel_b_in_l + o.dx.segment<3>(3), "velocity correction");
  sym::eqm(a.acc_b_in_l, b.acc_b_in_l + o.dx.segment<3>(6), "acceleration correction");
  sym::eqm(a.ang_vel_b_in_l, b.ang_vel_b_in_l + o.dx.segment<3>(12), "angular rate correction");
  sym::eqm(a.ang_acc_b_in_l, b.ang_acc_b_in_l + o.dx.segment<3>(15), "angular acceleration correction");
  unsigned idx = 18;
  if (before.gps_states.count(5)) {
    sym::eqm(ekf.m_state.gps_states[5].pos_a_in_b, before.gps_states.at(5).pos_a_in_b + o.dx.segment<3>(idx), "antenna correction");
    idx += 3;
  }
  if (before.cam_states.count(6)) {
    sym::eqm(ekf.m_state.cam_states[6].pos_c_in_b, before.cam_states.at(6).pos_c_in_b + o.dx.segment<3>(idx), "camera correction");
  }
}
// dense covariance, few observed states
static void dense(bool root, int which, int m, const std::vector<int> & cols)
{
  EKF::Parameters p = params();
  p.use_root_covariance = root;
  EKF ekf(p);
  BodyState b; b.pos_b_in_l = Vector3d(1, 2, 3); b.vel_b_in_l = Vector3d(0.5, 1, -1);
  ekf.Initialize(0, b);
  setup(ekf, which);
  int n = (int)ekf.GetStateSize();
  MatrixXd P, H = MatrixXd::Zero(m, n), R = MatrixXd::Zero(m, m);
  if (root) {
    MatrixXd r = MatrixXd::Zero(n, n);
    for (int i = 0; i < n; i++) {
      r(i, i) = sym::real("d" + std::to_string(i), 0.25, 2);
      // couple every state to the observed ones
      for (int c : cols) {if (c < i) {r(c, i) = sym::real("o" + std::to_string(c) + "_" + std::to_string(i), -1, 1);}}
    }
    ekf.m_cov = r; P = r.transpose() * r;
  } else {
    P = sym::symmat("p", n, -0.0625, 0.0625);
    for (int i = 0; i < n; i++) {P(i, i) = sym::real("d" + std::to_string(i), 1, 4);}
    ekf.m_cov = P;
  }
  for (int i = 0; i < m; i++) {
    for (int c : cols) {H(i, c) = sym::real("h" + std::to_string(i) + "_" + std::to_string(c), -2, 2);}
    R(i, i) = sym::real("n" + std::to_string(i), 0.5, 4);
  }
  if (!root && m == 2) {R(0, 1) = R(1, 0) = sym::real("n01", -0.25, 0.25);}
  VectorXd res = sym::vecn("z", m);
  State before = ekf.m_state;
  Oracle o = oracle(P, H, res, R);
  Updater::KalmanUpdate(ekf, H, res, R);
  compare(ekf, before, o);
}
// all states observed, sparse covariance
static void wide(bool root, int a, int b_)
{
  EKF::Parameters p = params();
  p.use_root_covariance = root;
  EKF ekf(p);
  ekf.Initialize(0, BodyState());
  setup(ekf, 1);
  int n = (int)ekf.GetStateSize();
  MatrixXd r = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; i++) {r(i, i) = sym::real("d" + std::to_string(i), 0.5, 2);}
  double off = sym::real("off", -0.25, 0.25);
  MatrixXd P;
  if (root) {r(a, b_) = off; P = r.transpose() * r;} else {r(a, b_) = off; r(b_, a) = off; P = r;}
  ekf.m_cov = r;
  MatrixXd H = sym::mat("h", 1, n), R = MatrixXd::Zero(1, 1);
  R(0, 0) = sym::real("n", 0.5, 4);
  VectorXd res = sym::vecn("z", 1);
  State before = ekf.m_state;
  Oracle o = oracle(P, H, res, R);
  Updater::KalmanUpdate(ekf, H, res, R);
  compare(ekf, before, o);
}
// square-root form with correlated measured values
static void correlated(double n0, double n1, double n01, bool fixed)
{
  EKF::Parameters p = params(); p.use_root_covariance = true;
  EKF ekf(p); ekf.Initialize(0, BodyState());
  MatrixXd r = MatrixXd::Identity(18, 18), H = MatrixXd::Zero(2, 18), R(2, 2);
  r(0, 0) = fixed ? 0.5 : sym::real("d0", 0.25, 2); r(0, 5) = fixed ? 0.25 : sym::real("o", -1, 1); r(0, 7) = 0.5; ekf.m_cov = r;
  H(0, 0) = 1; H(0, 5) = 0.5; H(1, 5) = 2;
  R << n0, n01, n01, n1;
  VectorXd res = sym::vecn("z", 2);
  State before = ekf.m_state;
  Oracle o = oracle(r.transpose() * r, H, res, R);
  Updater::KalmanUpdate(ekf, H, res, R);
  compare(ekf, before, o);
}
SCENARIO(root_correlated) {correlated(2, 1, sym::real("n01", -0.5, 0.5), true);}
SCENARIO(root_correlated_fixed)
{
  const double v[5][3] = {{4, 1.25, 1}, {1.25, 4, -1}, {0.25, 1, 0}, {0, 4, 0}, {4, 1, 2}};   // the last two are singular
  int k = sym::choice("noise", 5);
  correlated(v[k][0], v[k][1], v[k][2], false);
}
SCENARIO(full_scalar_pos_att) {dense(false, 1, 1, {1, 10});}
SCENARIO(full_scalar_vel_gps) {dense(false, 1, 1, {4, 19});}
SCENARIO(full_pair_rate_cam) {dense(false, 2, 2, {13, 20});}
SCENARIO(full_wide) {wide(false, 2, 11);}
SCENARIO(root_scalar_pos_att) {dense(true, 1, 1, {1, 10});}
SCENARIO(root_scalar_vel_gps) {dense(true, 1, 1, {4, 19});}
SCENARIO(root_pair_pos_vel) {dense(true, 0, 2, {0, 5});}
SCENARIO(root_wide) {wide(true, 2, 11);}
