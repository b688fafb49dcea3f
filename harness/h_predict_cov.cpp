// Uncertainty propagation in prediction: full and square-root covariance forms.
#include "hroot.hpp"
using namespace hc;

// process noise of every registered part, in state order
struct Setup { VectorXd q; int n; };
static Setup registerAll(EKF & ekf, int which, const VectorXd & body_q)
{
  std::vector<double> q(body_q.data(), body_q.data() + 18);
  auto rep = [&](double v, int k) {for (int i = 0; i < k; i++) {q.push_back(v);}};
  if (which & 1) {
    ImuState s; s.SetIsExtrinsic(true); s.SetIsIntrinsic(true);
    s.pos_stability = sym::real("imu.ps", 0.25, 4); s.ang_stability = sym::real("imu.as", 0.25, 4);
    s.acc_bias_stability = sym::real("imu.abs", 0.25, 4); s.omg_bias_stability = sym::real("imu.obs", 0.25, 4);
    ekf.RegisterIMU(3, s, MatrixXd::Identity(12, 12));
    rep(s.pos_stability, 3); rep(s.ang_stability, 3); rep(s.acc_bias_stability, 3); rep(s.omg_bias_stability, 3);
  }
  if (which & 2) {
    ImuState s; s.SetIsIntrinsic(true);
    s.acc_bias_stability = sym::real("imu2.abs", 0.25, 4); s.omg_bias_stability = sym::real("imu2.obs", 0.25, 4);
    ekf.RegisterIMU(4, s, MatrixXd::Identity(6, 6));
    rep(s.acc_bias_stability, 3); rep(s.omg_bias_stability, 3);
  }
  if (which & 4) {
    GpsState s; s.SetIsExtrinsic(true); s.pos_stability = sym::real("gps.ps", 0.25, 4);
    ekf.RegisterGPS(5, s, Matrix3d::Identity());
    rep(s.pos_stability, 3);
  }
  if (which & 8) {
    CamState s; s.SetIsExtrinsic(true);
    s.pos_stability = sym::real("cam.ps", 0.25, 4); s.ang_stability = sym::real("cam.as", 0.25, 4);
    ekf.RegisterCamera(6, s, MatrixXd::Identity(6, 6));
    rep(s.pos_stability, 3); rep(s.ang_stability, 3);
  }
  if (which & 16) {
    FidState s; s.SetIsExtrinsic(true); s.id = 7; s.pos_f_in_l.setZero(); s.ang_f_to_l.setIdentity();
    s.pos_stability = sym::real("fid.ps", 0.25, 4); s.ang_stability = sym::real("fid.as", 0.25, 4);
    ekf.RegisterFiducial(s, MatrixXd::Identity(6, 6));
    rep(s.pos_stability, 3); rep(s.ang_stability, 3);
  }
  if (which & 32) {
    ekf.AugmentStateIfNeeded(6, 1);
    rep(0.0, 6);
  }
  Setup r; r.n = (int)q.size(); r.q = Eigen::Map<VectorXd>(q.data(), r.n);
  return r;
}
static void run(bool root, int which)
{
  EKF::Parameters p = params();
  p.use_root_covariance = root;
  VectorXd bq = sym::vecn("q", 18, 0.25, 4);
  p.process_noise = bq;
  EKF ekf(p);
  BodyState b; b.ang_vel_b_in_l = Vector3d(0.25, 0.5, -0.25);
  double t0 = sym::real("t0", -4, 4), dt = sym::real("dt", 0.0, 2);
  ekf.Initialize(t0, b);
  Setup s = registerAll(ekf, which, bq);
  ekf.InitializeGravity();
  sym::check((int)ekf.m_cov.rows() == s.n && (int)ekf.m_cov.cols() == s.n, "covariance size");
  if ((int)ekf.m_cov.rows() != s.n) {return;}
  MatrixXd p0, P;
  if (root) {
    p0 = sym::uppermat("r", s.n, -1, 1);
    P = p0.transpose() * p0;
  } else {
    p0 = sym::symmat("p", s.n);
    P = p0;
  }
  ekf.m_cov = p0;
  ekf.PredictModel(t0 + dt);
  sym::check((int)ekf.m_cov.rows() == s.n && (int)ekf.m_cov.cols() == s.n, "covariance size kept");
  if ((int)ekf.m_cov.rows() != s.n) {return;}
  MatrixXd got = covOf(ekf), Q = MatrixXd::Zero(s.n, s.n);
  for (int i = 0; i < s.n; i++) {Q(i, i) = s.q[i] * dt;}
  // x_pos' = x_pos + dt x_vel, everything else unchanged
  MatrixXd A = root ? P : MatrixXd(P + Q), B = A;
  for (int i = 0; i < 3; i++) {for (int j = 0; j < s.n; j++) {B(i, j) = A(i, j) + dt * A(i + 3, j);}}
  MatrixXd C = B;
  for (int i = 0; i < s.n; i++) {for (int j = 0; j < 3; j++) {C(i, j) = B(i, j) + dt * B(i, j + 3);}}
  if (root) {C += Q;}
  for (int i = 0; i < s.n; i++) {
    for (int j = 0; j < s.n; j++) {
      std::string l = i < 18 && j < 18 ? "body block" : i >= 18 && j >= 18 ? "sensor block" : "cross block";
      sym::eq(got(i, j), C(i, j), l);
    }
  }
}
SCENARIO(full_body_imu_gps) {run(false, 1 + 4);}
SCENARIO(full_all) {run(false, sym::thorough() ? 63 : 2 + 8 + 16 + 32);}
SCENARIO(root_body) {run(true, 4);}
SCENARIO(root_cam_fid) {run(true, sym::thorough() ? 1 + 8 + 16 + 32 : 8 + 16);}
SCENARIO(root_imu) {run(true, 2);}
