// Feature tracks: where a feature is triangulated, which features are used, and what their tracks do to the filter.
#include "hmsckf.hpp"
using namespace hc;
static Vector2d rounded(const Vector2d & v, double g = 64) {return Vector2d(std::floor(v[0] * g + 0.5) / g, std::floor(v[1] * g + 0.5) / g);}
static void optics(Intrinsics & k, int lens_kind)
{
  k.f_x = 0.5; k.f_y = 0.25; k.pixel_size = 0.0009765625; k.width = 640; k.height = 480;
  const double lenses[3][4] = {{0, 0, 0, 0}, {-0.25, 0.125, 0.0625, -0.03125}, {0.125, 0, -0.03125, 0.0625}};
  const double * l = lenses[lens_kind]; k.k_1 = l[0]; k.k_2 = l[1]; k.p_1 = l[2]; k.p_2 = l[3];
}
// point that is mapped to v by the lens
static Vector2d straight(const Vector2d & v, const Intrinsics & k)
{
  Vector2d x = v;
  for (int i = 0; i < 200; i++) {x += 0.5 * (v - lens(x, k));}
  return x;
}
// Seen without error, a feature is found where it is, at any scale and anywhere in the world;
// it is used if it is neither too close to the first camera nor more than 100 m away from it.
SCENARIO(triangulation)
{
  Mode mode = sym::flag("between_clones") ? SOME : EVERY; int n = 2 + sym::choice("sightings", mode == SOME ? 3 : 2);
  Scene c = scene(mode, sym::flag("calibrated"), n, sym::flag("other"), false, false); EKF & e = *c.f;
  Intrinsics & k = cam(e.m_state).intrinsics; optics(k, sym::choice("lens", 3));
  const Vector3d points[3] = {Vector3d(0.5, -0.25, 4), Vector3d(-1.5, 1, 6), Vector3d(0, 0, 2.5)};
  Vector3d first = points[sym::choice("point", 3)];           // seen from the first camera, at scale 1
  double scale = sym::real("scale", 0.0625, 64);
  // everything is scaled but where the world begins
  std::vector<AugState> & a = e.m_state.aug_states[key(c)];
  Vector3d arm(0.25, -0.5, 0.125);
  auto small = [&](const Vector3d & p) {return Vector3d(p - c.shift);};
  std::vector<Vector3d> unit; for (auto & x : a) {unit.push_back(small(x.pos_b_in_l));}
  Vector3d body = small(e.m_state.body_state.pos_b_in_l);
  
  auto place = [&](double s, const Vector3d & o) {
    for (size_t i = 0; i < a.size(); i++) {a[i].pos_b_in_l = o + s * unit[i];}
    e.m_state.body_state.pos_b_in_l = o + s * body; cam(e.m_state).pos_c_in_b = s * arm;
    return Vector3d(o + s * (unit[0] + sym::rot(c.turned[0]) * (sym::rot(cam(e.m_state).ang_c_to_b) * first + arm)));
  };
  Vector3d f = place(1, Vector3d(0, 0, 0));
  std::vector<Vector2d> px;
  for (int i = 0; i < n; i++) {
    Vector3d x = inCamera(c, e.m_state, i, f);
    if (x[2] < 0.5) {return;}                                     // not in front of it
    px.push_back(seen(c, e.m_state, i, f));
  }
  f = place(scale, c.shift);
  double closest = sym::real("closest", 0.25, 8);
  double depth = first[2] * scale;
  // pixels are single precision: a margin around the limits
  double m1 = depth - closest, m2 = depth - 100; int near = sym::choice("near", 2), far = sym::choice("far", 2);
  sym::assume_le(0.0009765625, near ? -m1 / closest : m1 / closest); sym::assume_le(0.0009765625, far ? m2 : -m2);
  if (near && far) {return;}
  MsckfUpdater v(3, e.m_state.cam_states[3].GetIsExtrinsic(), "", 0.0, closest, logger());
  FeatureTrack t = trackOf(c, px);
  v.m_intrinsics = k; v.m_pos_c_in_b = cam(e.m_state).pos_c_in_b; v.m_ang_c_to_b = cam(e.m_state).ang_c_to_b;
  Vector3d found(0, 0, 0);
  bool used = v.TriangulateFeature(c.now, e, t, found);
  sym::check(used == (!near && !far), "used if neither too close nor too far away");
  if (used) {sym::eqm((found - f) / scale, Vector3d(0, 0, 0), "where the feature is", 1e-3);}
}
// rows of a track in a filter at the world's origin: residual and Jacobian, free of the feature
struct Rows { MatrixXd H; VectorXd r; bool used; };
static Rows rowsOf(const Scene & c, const FeatureTrack & t, const std::vector<int> & at, double closest)
{
  EKF & e = *c.f; Intrinsics & k = cam(e.m_state).intrinsics; int n = (int)at.size(), d = (int)e.GetStateSize();
  // least squares over the distances from the rays
  Matrix3d A = Matrix3d::Zero(); Vector3d b = Vector3d::Zero();
  for (int i = 0; i < n; i++) {
    Vector3d p; Quaterniond q; pose(c, e.m_state, at[i], p, q);
    Matrix3d R = sym::rot(q) * sym::rot(cam(e.m_state).ang_c_to_b); Vector3d o = p + sym::rot(q) * cam(e.m_state).pos_c_in_b;
    Vector2d z(((double)t.track[i].key_point.pt.x - k.width / 2) * k.pixel_size / k.f_x, ((double)t.track[i].key_point.pt.y - k.height / 2) * k.pixel_size / k.f_y);
    z = straight(z, k);
    Vector3d ray = R * Vector3d(z[0], z[1], 1); ray /= ray.norm();
    Matrix3d P = Matrix3d::Identity() - ray * ray.transpose(); A += P; b += P * o;
  }
  Vector3d f = A.inverse() * b; Rows out; out.used = false;
  double depth = inCamera(c, e.m_state, at[0], f)[2];
  if (depth < closest || depth > 100) {return out;}
  out.used = true;
  MatrixXd F(2 * n, 3), X = MatrixXd::Zero(2 * n, d); VectorXd r(2 * n);
  auto all = [&](State & s, const Vector3d & g) {VectorXd h(2 * n); for (int i = 0; i < n; i++) {h.segment(2 * i, 2) = seen(c, s, at[i], g);} return h;};
  VectorXd h = all(e.m_state, f);
  for (int i = 0; i < n; i++) {r.segment(2 * i, 2) = Vector2d((double)t.track[i].key_point.pt.x, (double)t.track[i].key_point.pt.y) - h.segment(2 * i, 2);}
  for (int a = 0; a < 3; a++) {F.col(a) = sym::derivative([&](double x) {Vector3d g = f; g[a] = g[a] + x; return all(e.m_state, g);});}
  for (auto & bl : blocksOf(c)) {
    for (int a = 0; a < bl.size; a++) {X.col(bl.index + a) = sym::derivative([&](double x) {State s = e.m_state; bl.move(s, a, x); return all(s, f);});}
  }
  MatrixXd N = complement(F);
  out.H = N.transpose() * X; out.r = N.transpose() * r;
  return out;
}
struct What { Vector3d point; int first, last; };                 // where a feature is, seen from the first camera, and the frames it is seen in
static const std::vector<What> SETS[] = {
  {{Vector3d(0.5, -0.25, 4), 0, 2}},                              // one feature
  {{Vector3d(0.5, -0.25, 4), 0, 2}, {Vector3d(-1.5, 1, 6), 0, 2}}, // two
  {{Vector3d(0.5, -0.25, 4), 0, 1}, {Vector3d(-1.5, 1, 6), 1, 2}}, // seen in different frames
  {{Vector3d(0.25, -0.125, 1.5), 0, 2}, {Vector3d(-1.5, 1, 6), 0, 2}}, // one too close
  {{Vector3d(-1.5, 1, 6), 0, 2}, {Vector3d(4, 8, 160), 0, 2}},     // one too far away
  {{Vector3d(0.25, -0.125, 1.5), 0, 2}},                          // none that is used
  {}};                                                            // none
static void evaluate(Mode mode, bool cal, bool other, bool root, int lens_kind, int set, double px_error, int n, bool few = false)
{
  Scene s = scene(mode, cal, n, other, root, false), s0 = scene(mode, cal, n, other, root, true);
  Scene sb = scene(mode, cal, n, other, root, true);
  EKF & a = *s.f, & zero = *s0.f, & b = *sb.f;
  if (mode == EVERY) {           // the body has moved on since
    a.m_state.body_state.pos_b_in_l = sym::vec3("body", -64, 64); a.m_state.body_state.vel_b_in_l = sym::vec3("velocity", -8, 8);
    a.m_current_time = b.m_current_time = s.now - 0.25;
  }
  if (few) {                     // only the clones are uncertain
    int d = (int)a.GetStateSize(); MatrixXd P = MatrixXd::Zero(d, d); int i = d - 18; P.block(i, i, 18, 18) = MatrixXd::Identity(18, 18) * 0.25;
    a.m_cov = P; b.m_cov = P; a.m_current_time = b.m_current_time = s.now;
  }
  for (EKF * e : {&a, &zero}) {optics(cam(e->m_state).intrinsics, lens_kind);}
  b.m_state = a.m_state;
  FeatureTracks tracks; MatrixXd H(0, a.GetStateSize()); VectorXd r(0);
  const double closest = 2;
  int salt = 0;
  for (auto & w : SETS[set]) {
    Vector3d p; Quaterniond q; pose(s0, zero.m_state, w.first, p, q);
    Vector3d f = p + sym::rot(q) * (sym::rot(cam(zero.m_state).ang_c_to_b) * w.point + cam(zero.m_state).pos_c_in_b);
    FeatureTrack t; std::vector<int> at; t.true_feature_position = Vector3d(0, 0, 0);
    for (int i = w.first; i <= w.last; i++) {
      Vector2d z = rounded(seen(s0, zero.m_state, i, f) + Vector2d(((7 * salt + 3) % 5 - 2) * 0.25, ((11 * salt + 1) % 7 - 3) * 0.125)); salt++;
      FeaturePoint x; x.frame_id = 60 + i; x.frame_time = s.time[i]; x.key_point.pt.x = (float)z[0]; x.key_point.pt.y = (float)z[1]; x.key_point.class_id = 5;
      t.track.push_back(x); at.push_back(i);
    }
    tracks.push_back(t);
    Rows rows = rowsOf(s0, t, at, closest);
    if (!rows.used) {continue;}
    MatrixXd H2(H.rows() + rows.H.rows(), H.cols()); H2 << H, rows.H; VectorXd r2(r.size() + rows.r.size()); r2 << r, rows.r; H = H2; r = r2;
  }
  MsckfUpdater u(3, cal, "", 0.0, closest, logger());
  u.UpdateEKF(a, s.now, tracks, px_error);
  b.PredictModel(s.now);
  // a single equation is not used; errors below half a pixel are not believed
  double sd = px_error < 0.5 ? 0.5 : px_error;
  if (H.rows() > 1) {Updater::KalmanUpdate(b, H, r, MatrixXd::Identity(H.rows(), H.rows()) * (sd * sd));}
  sameFilters(a, b, "update", !few);
  auto & x = a.m_state.aug_states[key(s)]; auto & y = b.m_state.aug_states[key(s)];
  sym::check(x.size() == y.size(), "clones"); if (x.size() != y.size()) {return;}
  for (size_t i = 0; i < x.size(); i++) {sym::eqm(x[i].pos_b_in_l, y[i].pos_b_in_l, "update: clone position"); if (!few) sym::eqrot(x[i].ang_b_to_l, y[i].ang_b_to_l, "update: clone attitude");}
}
SCENARIO(update)
{
  Mode mode = (Mode)sym::choice("clones", 2);
  bool cal = sym::flag("calibrated"), root = sym::flag("root"); int set = sym::choice("features", 7);
  evaluate(mode, cal, sym::flag("other"), root, sym::choice("lens", 2), set, 1, mode == SOME ? 4 : 3);
}
SCENARIO(noise)
{
  const double sd[4] = {0.25, 0.5, 0.75, 4};
  evaluate(EVERY, true, false, sym::flag("root"), 0, 1, sd[sym::choice("pixel_error", 4)], 3);
}
SCENARIO(any_noise)
{
  if (!sym::thorough()) {return;}
  evaluate(EVERY, false, false, false, 0, 0, sym::real("pixel_error", 0.5, 4), 3, true);
}
