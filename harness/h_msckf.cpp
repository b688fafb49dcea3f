// Camera features: projection, distortion, and the rows a sighting contributes.
#include "hmsckf.hpp"
using namespace hc;
// Elimination of the feature is decided by P13; here it is replaced by one that remembers what it was given.
static std::vector<MatrixXd> seenF, seenX; static std::vector<VectorXd> seenR;
void ApplyLeftNullspace(const MatrixXd & F, MatrixXd & X, VectorXd & r)
{
  seenF.push_back(F); seenX.push_back(X); seenR.push_back(r);
  X = MatrixXd::Zero(F.rows() - 3, X.cols()); r = VectorXd::Zero(F.rows() - 3);
}
SCENARIO(projection)
{
  Vector3d p = sym::vec3("p"); p[2] = sym::real("depth", 0.125, 100);
  sym::eqm(MsckfUpdater::Project(p) * p[2], p.head(2), "projected point");
  MatrixXd J(2, 3); MsckfUpdater::ProjectionJacobian(p, J);
  sym::check(J.rows() == 2 && J.cols() == 3, "size");
  for (int k = 0; k < 3; k++) {
    VectorXd d = sym::derivative([&](double e) {Vector3d q = p; q[k] = q[k] + e; return VectorXd(Vector2d(q[0] / q[2], q[1] / q[2]));});
    sym::eqm(J.col(k), d, "derivative of the projection", sym::native() ? 1e-3 : 1e-9);
  }
}
static Intrinsics anyLens()
{
  Intrinsics c; c.k_1 = sym::real("k1", -1, 1); c.k_2 = sym::real("k2", -1, 1); c.p_1 = sym::real("p1", -1, 1); c.p_2 = sym::real("p2", -1, 1);
  return c;
}
SCENARIO(distortion)
{
  Vector2d v(sym::real("x", -2, 2), sym::real("y", -2, 2)); Intrinsics c = anyLens();
  sym::eqm(MsckfUpdater::Distort(v, c), lens(v, c), "distorted point");
  MatrixXd J(2, 2); MsckfUpdater::DistortionJacobian(v, c, J);
  sym::check(J.rows() == 2 && J.cols() == 2, "size");
  for (int k = 0; k < 2; k++) {
    VectorXd d = sym::derivative([&](double e) {Vector2d q = v; q[k] = q[k] + e; return VectorXd(lens(q, c));});
    sym::eqm(J.col(k), d, "derivative of the distortion", sym::native() ? 1e-3 : 1e-9);
  }
}
// every row a sighting contributes, wherever the feature is
SCENARIO(rows)
{
  Mode mode = (Mode)sym::choice("clones", 3); bool cal = sym::flag("calibrated");
  Scene c = scene(mode, cal, mode == EVERY ? 3 : mode == SOME ? 4 : 2, sym::flag("other"), false, true); EKF & e = *c.f;
  Intrinsics & k = cam(e.m_state).intrinsics; 
  k.f_x = 0.5; k.f_y = 0.25; k.pixel_size = 0.125; k.width = 4; k.height = 2;
  const double lenses[3][4] = {{0, 0, 0, 0}, {-0.25, 0.125, 0.0625, -0.03125}, {0.5, 0, -0.125, 0.25}};
  const double * l = lenses[sym::choice("lens", 3)]; k.k_1 = l[0]; k.k_2 = l[1]; k.p_1 = l[2]; k.p_2 = l[3];
  
  Vector3d p; Quaterniond q; pose(c, e.m_state, 0, p, q);
  Vector3d x = Vector3d(sym::real("u", -1, 1), sym::real("v", -1, 1), 1) * sym::real("depth", 4, 64);
  Vector3d f = p + sym::rot(q) * (sym::rot(cam(e.m_state).ang_c_to_b) * x + cam(e.m_state).pos_c_in_b);
  for (int i = 0; i < c.n; i++) {sym::assume_le(0.5, inCamera(c, e.m_state, i, f)[2]);}
  std::vector<Vector2d> px; for (int i = 0; i < c.n; i++) {px.push_back(Vector2d(2.25 - 0.125 * i, 0.75 + 0.0625 * i * i));}
  FeatureTrack t = trackOf(c, px); t.true_feature_position = f;
  MsckfUpdater u(3, cal, "", 0.0, 0.0, logger()); u.m_use_true_triangulation = true; u.m_min_feat_dist = -1e9; u.m_max_feat_dist = 1e9;
  State before = e.m_state;
  seenF.clear(); seenX.clear(); seenR.clear();
  u.UpdateEKF(e, c.now, FeatureTracks{t}, 1.0);
  if (seenF.empty()) {return;}      // eliminated by other means: see P20
  sym::check(seenF.size() == 1, "one elimination per feature"); if (seenF.size() != 1) {return;}
  MatrixXd F = seenF[0], X = seenX[0]; VectorXd r = seenR[0];
  sym::check(F.rows() == 2 * c.n && F.cols() == 3 && X.rows() == 2 * c.n && r.size() == 2 * c.n, "size"); if (F.rows() != 2 * c.n || X.rows() != 2 * c.n || r.size() != 2 * c.n) {return;}
  for (int i = 0; i < c.n; i++) {
    sym::eqm(r.segment(2 * i, 2), px[i] - seen(c, before, i, f), "residual", sym::native() ? 1e-5 : 1e-7);
    for (int a = 0; a < 3; a++) {
      VectorXd d = sym::derivative([&](double h) {Vector3d g = f; g[a] = g[a] + h; State s = before; return VectorXd(seen(c, s, i, g));});
      sym::eqm(F.block(2 * i, a, 2, 1), d, "feature Jacobian", sym::native() ? 1e-4 : 1e-7);
    }
  }
  checkJacobian(X, before, (int)e.GetStateSize(), blocksOf(c), [&](State & s) {
    VectorXd h(2 * c.n); for (int i = 0; i < c.n; i++) {h.segment(2 * i, 2) = seen(c, s, i, f);}
    return h;
  }, "state Jacobian", 1e-7);
}
