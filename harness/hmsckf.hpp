#pragma once
// Cameras that track features: scenes, what a camera sees of a point, and the blocks of the state its measurements depend on.
#include "hmeas.hpp"
#include "ekf/update/msckf_updater.hpp"
namespace hc {
using Eigen::Vector2d;
// orthonormal basis of the vectors orthogonal to the columns of F
inline MatrixXd complement(const MatrixXd & F)
{
  int m = (int)F.rows(), n = (int)F.cols();
  MatrixXd B(m, m); int k = 0;
  for (int c = 0; c < n + m && k < m; c++) {
    VectorXd v = c < n ? VectorXd(F.col(c)) : VectorXd(VectorXd::Unit(m, c - n));
    double before = v.norm();
    for (int r = 0; r < 2; r++) {for (int i = 0; i < k; i++) {v -= B.col(i) * B.col(i).dot(v);}}
    if (v.norm() > 1e-6 * before) {B.col(k++) = v / v.norm();}
  }
  return B.rightCols(m - n);
}
// Brown-Conrady, as the cameras are calibrated (and simulated) with
inline Vector2d lens(const Vector2d & v, const Intrinsics & c)
{
  double x = v[0], y = v[1], r2 = x * x + y * y, g = 1 + c.k_1 * r2 + c.k_2 * (r2 * r2);
  return Vector2d(x * g + 2 * c.p_1 * x * y + c.p_2 * (r2 + 2 * x * x), y * g + c.p_1 * (r2 + 2 * y * y) + 2 * c.p_2 * x * y);
}
inline CamState & cam(State & s) {return s.cam_states[3];}
static const Quaterniond QC[3] = {Quaterniond(0.5, -0.5, 0.5, -0.5), Quaterniond(0.5, 0.5, -0.5, 0.5), Quaterniond(1, 0, 0, 0)};
// a filter in which camera 3 saw frames 60, 61, ..; `mode`: cloned at every frame, at some of them, or never
enum Mode {EVERY, SOME, NEVER};
struct Scene
{
  EKF::Parameters p; EKF * f; Mode mode; bool cal; int n; Vector3d shift; double now;
  std::vector<Vector3d> at; std::vector<Quaterniond> turned; std::vector<double> time;
};
inline unsigned key(const Scene & s) {return s.mode == EVERY ? 3 : 0;}
inline Scene scene(Mode mode, bool cal, int n, bool other, bool root, bool still)
{
  Scene s; s.mode = mode; s.cal = cal; s.n = n; s.p = params(); s.p.use_root_covariance = root;
  s.p.augmenting_type = mode == EVERY ? AugmentationType::ALL : AugmentationType::TIME;
  s.f = new EKF(s.p); EKF & e = *s.f; VectorXd one = VectorXd::Ones(12); World w(e);
  e.Initialize(0, BodyState());
  if (other) {w.apply(GPS_E, 2, one); w.apply(IMU_EI, 4, one); w.apply(CAM_E, 2, one);}
  w.apply(cal ? CAM_E : CAM_0, 3, one);
  if (other) {w.apply(CAM_E, 7, one);}
  s.shift = still ? Vector3d(0, 0, 0) : sym::vec3("origin", -64, 64);
  const Quaterniond near[4] = {Quaterniond(0.5, 0.5, -0.5, 0.5), Quaterniond(-0.5, 0.5, 0.5, 0.5), Quaterniond(0.5, 0.5, -0.5, 0.5), Quaterniond(-0.5, 0.5, 0.5, 0.5)};   // upside down at every other frame
  const Vector3d go[4] = {Vector3d(0, 0, 0), Vector3d(0.5, -0.25, 1), Vector3d(-1, 0.75, 0.5), Vector3d(0.25, -1, -0.5)};
  for (int k = 0; k < n; k++) {
    s.time.push_back(0.5 + 0.5 * k); s.at.push_back(s.shift + go[k]);
    Quaterniond q = mode == EVERY ? near[k] : near[0]; s.turned.push_back(q);
  }
  s.now = 0.5 + 0.5 * n;
  e.m_state.body_state.vel_b_in_l = Vector3d(0, 0, 0); e.m_state.body_state.acc_b_in_l = g_gravity;
  int clones = mode == EVERY ? n : mode == SOME ? (n + 1) / 2 : 0;     // SOME: frames 0, 2, ..; the rest lies between clones or after the last
  for (int k = 0; k < clones; k++) {
    int i = mode == EVERY ? k : 2 * k;
    AugState a; a.frame_id = 60 + i; a.time = s.time[i]; a.pos_b_in_l = s.at[i]; a.ang_b_to_l = s.turned[i];
    e.m_state.aug_states[key(s)].push_back(a);
  }
  e.RefreshIndices(); e.m_state_size = e.m_state.GetStateSize();
  e.m_state.body_state.pos_b_in_l = s.shift + Vector3d(1, 0.5, -0.5); e.m_state.body_state.ang_b_to_l = mode == EVERY ? Quaterniond(0.5, -0.5, 0.5, 0.5) : s.turned[0];
  e.m_frame_received_since_last_aug = false; e.m_current_time = s.now;
  int d = (int)e.GetStateSize(); e.m_cov = MatrixXd::Identity(d, d) * 0.25;
  for (int i = 0; i + 7 < d; i += 2) {e.m_cov(i, i + 7) = 0.0625; if (!root) {e.m_cov(i + 7, i) = 0.0625;}}
  cam(e.m_state).pos_c_in_b = Vector3d(0.25, -0.5, 0.125); cam(e.m_state).ang_c_to_b = QC[0];
  return s;
}
// pose of the body at sighting i: its clone, or in between two clones (the body where there is no later one)
inline void pose(const Scene & c, State & s, int i, Vector3d & p, Quaterniond & q)
{
  std::vector<AugState> & a = s.aug_states[key(c)];
  if (c.mode == EVERY) {p = a[i].pos_b_in_l; q = a[i].ang_b_to_l; return;}
  if (a.empty()) {p = s.body_state.pos_b_in_l; q = s.body_state.ang_b_to_l; return;}
  int k = i / 2;
  p = a[k].pos_b_in_l; q = a[k].ang_b_to_l;
  if (i % 2) {
    bool last = k + 1 == (int)a.size();
    Vector3d p1 = last ? s.body_state.pos_b_in_l : a[k + 1].pos_b_in_l; Quaterniond q1 = last ? s.body_state.ang_b_to_l : a[k + 1].ang_b_to_l;
    double t0 = c.time[2 * k], t1 = last ? c.now : c.time[2 * k + 2], f = (c.time[i] - t0) / (t1 - t0);
    // (attitudes of neighbours agree but for what they are perturbed by)
    Quaterniond d = sym::qmul(qinv(q), q1);
    p = p + f * (p1 - p); q = sym::qmul(q, Quaterniond(1, f * d.x(), f * d.y(), f * d.z()));
  }
}
inline Vector3d inCamera(const Scene & c, State & s, int i, const Vector3d & f)
{
  Vector3d p; Quaterniond q; pose(c, s, i, p, q);
  return sym::rot(cam(s).ang_c_to_b).transpose() * (sym::rot(q).transpose() * (f - p) - cam(s).pos_c_in_b);
}
inline Vector2d pixel(const Intrinsics & c, const Vector2d & v) {return Vector2d(c.f_x / c.pixel_size * v[0] + c.width / 2, c.f_y / c.pixel_size * v[1] + c.height / 2);}
inline Vector2d seen(const Scene & c, State & s, int i, const Vector3d & f)
{
  Vector3d x = inCamera(c, s, i, f); Intrinsics & k = cam(s).intrinsics;
  return pixel(k, lens(Vector2d(x[0] / x[2], x[1] / x[2]), k));
}
inline std::vector<Block> blocksOf(const Scene & c)
{
  EKF & e = *c.f; unsigned k = key(c);
  auto b = bodyBlocks();
  if (c.cal) {
    int i = cam(e.m_state).index;
    b.push_back(pos(i, [](State & s) -> Vector3d & {return cam(s).pos_c_in_b;})); b.push_back(att(i + 3, [](State & s) -> Quaterniond & {return cam(s).ang_c_to_b;}));
  }
  for (size_t j = 0; j < e.m_state.aug_states[k].size(); j++) {
    int i = e.m_state.aug_states[k][j].index;
    b.push_back(pos(i, [k, j](State & s) -> Vector3d & {return s.aug_states[k][j].pos_b_in_l;})); b.push_back(att(i + 3, [k, j](State & s) -> Quaterniond & {return s.aug_states[k][j].ang_b_to_l;}));
  }
  return b;
}
inline FeatureTrack trackOf(const Scene & c, const std::vector<Vector2d> & px)
{
  FeatureTrack t; t.true_feature_position = Vector3d(0, 0, 0);
  for (int i = 0; i < c.n; i++) {FeaturePoint f; f.frame_id = 60 + i; f.frame_time = c.time[i]; f.key_point.pt.x = (float)px[i][0]; f.key_point.pt.y = (float)px[i][1]; f.key_point.class_id = 5; t.track.push_back(f);}
  return t;
}
}  // namespace hc
