// First-estimate Jacobians: what holds on to the first estimates of a calibration, and what follows the current ones.
#include "hmsckf.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
using namespace hc;
static std::vector<MatrixXd> seenF, seenX; static std::vector<VectorXd> seenR;
void ApplyLeftNullspace(const MatrixXd & F, MatrixXd & X, VectorXd & r)      // decided by P13; here it only remembers
{
  seenF.push_back(F); seenX.push_back(X); seenR.push_back(r);
  X = MatrixXd::Zero(F.rows() - 3, X.cols()); r = VectorXd::Zero(F.rows() - 3);
}
static const Quaterniond QS[4] = {Quaterniond(0.5, 0.5, -0.5, 0.5), Quaterniond(0.5, -0.5, 0.5, 0.5), Quaterniond(0.5, 0.5, 0.5, -0.5), Quaterniond(0.5, -0.5, -0.5, -0.5)};
// the body moves on
static void moveOn(EKF & e, int k) {e.m_state.body_state = body("b" + std::to_string(k), false); e.m_state.body_state.ang_b_to_l = QS[k % 4];}
SCENARIO(gps)
{
  EKF::Parameters p = params(); p.use_first_estimate_jacobian = sym::flag("first_estimates"); p.use_root_covariance = sym::flag("root"); bool cal = sym::flag("calibrated"); VectorXd one = VectorXd::Ones(12);
  EKF ekf(p); World w(ekf); ekf.Initialize(0, BodyState()); w.apply(GPS_E, 2, one); w.apply(cal ? GPS_E : GPS_0, 5, one);
  GpsUpdater u(5, cal, "", 0.0, logger());
  Vector3d first, now;
  int n = 2 + sym::choice("readings", 2);
  for (int k = 0; k < n; k++) {
    ekf.m_state.gps_states[5].pos_a_in_b = now = sym::vec3("antenna" + std::to_string(k)); moveOn(ekf, k); if (k == 0) {first = now;}
    BodyState & b = ekf.m_state.body_state;
    sym::eqm(u.PredictMeasurement(ekf), b.pos_b_in_l + sym::rot(b.ang_b_to_l) * now, "gps: predicted from the current estimates");
    MatrixXd J = u.GetMeasurementJacobian(ekf);
    State s = ekf.m_state; s.gps_states[5].pos_a_in_b = p.use_first_estimate_jacobian ? first : now;
    auto blocks = bodyBlocks();
    if (cal) {blocks.push_back(pos((int)s.gps_states[5].index, [](State & x) -> Vector3d & {return x.gps_states[5].pos_a_in_b;}));}
    checkJacobian(J, s, (int)ekf.GetStateSize(), blocks, [](State & x) {return VectorXd(x.body_state.pos_b_in_l + sym::rot(x.body_state.ang_b_to_l) * x.gps_states[5].pos_a_in_b);}, "gps: jacobian");
  }
}
static FidState & fid(State & s) {return s.fid_states[5];}
static Vector3d place(State & s)
{
  Matrix3d Rb = sym::rot(s.body_state.ang_b_to_l), Rc = sym::rot(cam(s).ang_c_to_b);
  return Rc.transpose() * (Rb.transpose() * (fid(s).pos_f_in_l - s.body_state.pos_b_in_l) - cam(s).pos_c_in_b);
}
static Quaterniond turn(State & s) {return sym::qmul(qinv(cam(s).ang_c_to_b), sym::qmul(qinv(s.body_state.ang_b_to_l), fid(s).ang_f_to_l));}
SCENARIO(board)
{
  EKF::Parameters p = params(); p.use_first_estimate_jacobian = sym::flag("first_estimates"); p.use_root_covariance = sym::flag("root"); bool cal = sym::flag("calibrated"); VectorXd one = VectorXd::Ones(12);
  EKF ekf(p); World w(ekf); ekf.Initialize(0, BodyState()); w.apply(CAM_E, 2, one); w.apply(cal ? CAM_E : CAM_0, 3, one); w.apply(cal ? FID_E : FID_0, 5, one);
  FiducialUpdater u(5, 3, cal, cal, "", 0.0, logger());
  State first;
  for (int k = 0; k < 2; k++) {
    moveOn(ekf, k); State & s = ekf.m_state; std::string n = std::to_string(k);
    cam(s).pos_c_in_b = sym::vec3("camera" + n); fid(s).pos_f_in_l = sym::vec3("board" + n); cam(s).ang_c_to_b = QS[k + 1]; fid(s).ang_f_to_l = QS[(k + 3) % 4];
    VectorXd z = u.PredictMeasurement(ekf);
    sym::check(z.size() == 6, "size"); if (z.size() != 6) {return;}
    sym::eqm(z.head(3), place(s), "board: predicted from the current estimates");
    Vector3d v = z.tail(3); checkRotated(turn(s), Quaterniond(1, 0, 0, 0), v, true, "board: predicted from the current estimates");
    MatrixXd J = u.GetMeasurementJacobian(ekf);
    if (k == 0) {first = s;}
    State at = s;
    if (p.use_first_estimate_jacobian) {
      cam(at).pos_c_in_b = cam(first).pos_c_in_b; cam(at).ang_c_to_b = cam(first).ang_c_to_b; fid(at).pos_f_in_l = fid(first).pos_f_in_l; fid(at).ang_f_to_l = fid(first).ang_f_to_l;
    }
    auto blocks = bodyBlocks();
    if (cal) {
      int i = cam(at).index, j = fid(at).index;
      blocks.push_back(pos(i, [](State & x) -> Vector3d & {return cam(x).pos_c_in_b;})); blocks.push_back(att(i + 3, [](State & x) -> Quaterniond & {return cam(x).ang_c_to_b;}));
      blocks.push_back(pos(j, [](State & x) -> Vector3d & {return fid(x).pos_f_in_l;})); blocks.push_back(att(j + 3, [](State & x) -> Quaterniond & {return fid(x).ang_f_to_l;}));
    }
    Quaterniond here = turn(at);
    checkJacobian(J, at, (int)ekf.GetStateSize(), blocks, [&](State & x) {
      VectorXd h(6); h.head(3) = place(x); Quaterniond d = sym::qmul(turn(x), qinv(here)); h[3] = 2 * d.x(); h[4] = 2 * d.y(); h[5] = 2 * d.z();
      return h;
    }, "board: jacobian");
  }
}
SCENARIO(features)
{
  bool cal = sym::flag("calibrated");
  Scene c = scene(EVERY, cal, 3, sym::flag("other"), sym::flag("root"), true); EKF & e = *c.f; bool fej = sym::flag("first_estimates"); e.m_use_first_estimate_jacobian = fej;
  Intrinsics & k = cam(e.m_state).intrinsics; k.f_x = 0.5; k.f_y = 0.25; k.pixel_size = 0.125; k.width = 4; k.height = 2; k.k_1 = -0.25; k.k_2 = 0.125; k.p_1 = 0.0625; k.p_2 = -0.03125;
  MsckfUpdater u(3, cal, "", 0.0, 0.0, logger()); u.m_use_true_triangulation = true; u.m_min_feat_dist = -1e9; u.m_max_feat_dist = 1e9;
  std::vector<Vector2d> px; for (int i = 0; i < c.n; i++) {px.push_back(Vector2d(2.25 - 0.125 * i, 0.75 + 0.0625 * i * i));}
  Vector3d arm; Quaterniond mount;
  for (int j = 0; j < 2; j++) {
    if (j) {cam(e.m_state).pos_c_in_b += Vector3d(0.125, 0.25, -0.0625); cam(e.m_state).ang_c_to_b = sym::qmul(QC[0], Quaterniond(0, 0, 0, 1));}   // upside down
    else {arm = cam(e.m_state).pos_c_in_b; mount = cam(e.m_state).ang_c_to_b;}
    Vector3d p; Quaterniond q; pose(c, e.m_state, 0, p, q); std::string n = std::to_string(j);
    Vector3d x = Vector3d(sym::real("u" + n, -1, 1), sym::real("v" + n, -1, 1), 1) * sym::real("depth" + n, 4, 64);
    Vector3d f = p + sym::rot(q) * (sym::rot(cam(e.m_state).ang_c_to_b) * x + cam(e.m_state).pos_c_in_b);
    State before = e.m_state, at = before;
    if (fej) {cam(at).pos_c_in_b = arm; cam(at).ang_c_to_b = mount;}
    for (int i = 0; i < c.n; i++) {sym::assume_le(0.5, inCamera(c, before, i, f)[2]); sym::assume_le(0.5, inCamera(c, at, i, f)[2]);}
    FeatureTrack t = trackOf(c, px); t.true_feature_position = f;
    seenF.clear(); seenX.clear(); seenR.clear();
    u.UpdateEKF(e, c.now, FeatureTracks{t}, 1.0);
    if (seenF.empty()) {return;}
    MatrixXd F = seenF[0], X = seenX[0]; VectorXd r = seenR[0];
    if (F.rows() != 2 * c.n || X.rows() != 2 * c.n || r.size() != 2 * c.n) {return;}      // P19
    for (int i = 0; i < c.n; i++) {
      sym::eqm(r.segment(2 * i, 2), px[i] - seen(c, before, i, f), "features: residual from the current estimates", sym::native() ? 1e-5 : 1e-7);
      for (int a = 0; a < 3; a++) {
        VectorXd d = sym::derivative([&](double h) {Vector3d g = f; g[a] = g[a] + h; State s = at; return VectorXd(seen(c, s, i, g));});
        sym::eqm(F.block(2 * i, a, 2, 1), d, "features: feature jacobian", sym::native() ? 1e-4 : 1e-7);
      }
    }
    checkJacobian(X, at, (int)e.GetStateSize(), blocksOf(c), [&](State & s) {
      VectorXd h(2 * c.n); for (int i = 0; i < c.n; i++) {h.segment(2 * i, 2) = seen(c, s, i, f);}
      return h;
    }, "features: state jacobian", 1e-7);
  }
}
