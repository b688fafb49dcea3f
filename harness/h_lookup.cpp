// The pose attributed to a camera frame: its own clone, or an interpolation between clones.
#include "hcommon.hpp"
using namespace hc;
static const Quaterniond Q[4] = {Quaterniond(1, 0, 0, 0), Quaterniond(0.5, 0.5, 0.5, 0.5), Quaterniond(0.5, -0.5, 0.5, 0.5), Quaterniond(-0.5, 0.5, 0.5, -0.5)};   // exact products, one on the far side
// shortest-arc spherical interpolation, textbook form
static Quaterniond between(const Quaterniond & a, const Quaterniond & b_, double s)
{
  Quaterniond b = b_;
  double d = a.w() * b.w() + a.x() * b.x() + a.y() * b.y() + a.z() * b.z();
  if (d < 0) {d = -d; b = Quaterniond(-b.w(), -b.x(), -b.y(), -b.z());}
  if (d > 1 - 1e-12) {return a;}
  double th = std::acos(d), u = std::sin((1 - s) * th) / std::sin(th), v = std::sin(s * th) / std::sin(th);
  return Quaterniond(u * a.w() + v * b.w(), u * a.x() + v * b.x(), u * a.y() + v * b.y(), u * a.z() + v * b.z());
}
static void interpolated(AugmentationType type, int clones)
{
  EKF::Parameters p = params(); p.augmenting_type = type;
  EKF ekf(p);
  ekf.Initialize(0, BodyState());
  unsigned key = 0, ask = 4;
  if (type == AugmentationType::PRIMARY) {
    CamState c; c.rate = 10;
    ekf.RegisterCamera(6, c, MatrixXd::Identity(6, 6)); ekf.RegisterCamera(4, c, MatrixXd::Identity(6, 6));
    key = 6;
  }
  std::vector<AugState> list;
  double t = 0;
  for (int k = 0; k < clones; k++) {
    AugState a; std::string n = std::to_string(k);
    t = t + sym::real("dt" + n, 0.125, 1);
    a.time = t; a.frame_id = 50 + k; a.index = 18 + 6 * k;
    a.pos_b_in_l = sym::vec3("p" + n); a.ang_b_to_l = Q[k];
    list.push_back(a);
  }
  ekf.m_state.aug_states[key] = list;
  ekf.m_state.body_state.pos_b_in_l = sym::vec3("body"); ekf.m_state.body_state.ang_b_to_l = Q[3];
  double now = clones ? (sym::flag("clone at current time") ? t : t + sym::real("dt", 0.125, 1)) : 1.0;
  // (before gravity is known a prediction only moves the time; no frame is pending, so the list stays)
  ekf.m_frame_received_since_last_aug = false;
  ekf.m_current_time = now;
  int where = sym::choice("when", 2 * clones + 1);     // before, at or between clones, at the current time
  double q;
  if (clones == 0) {q = sym::real("q", 0, 1);}
  else if (where == 0) {q = list[0].time - sym::real("early", 0.0625, 1);}
  else if (where % 2) {q = list[where / 2].time;}
  else {
    double lo = list[where / 2 - 1].time, hi = where / 2 < clones ? list[where / 2].time : now;
    q = lo + sym::real("fraction", 0, 1) * (hi - lo);
  }
  AugState got = ekf.GetAugState(ask, 99, q);
  int i = -1;
  for (int k = 0; k < clones; k++) {if (list[k].time <= q) {i = k;}}
  sym::eq(got.time, q, "time of the pose");
  if (clones == 0) {
    sym::eqm(got.pos_b_in_l, ekf.m_state.body_state.pos_b_in_l, "no clones: current position");
    sym::eqrot(got.ang_b_to_l, Q[3], "no clones: current attitude");
    return;
  }
  Vector3d want; Quaterniond wq;
  if (i < 0) {want = list[0].pos_b_in_l; wq = list[0].ang_b_to_l; i = 0;
    sym::check((int)got.index == 18, "clone used before the first");
  } else {
    double t1 = i + 1 < clones ? list[i + 1].time : now;
    Vector3d p1 = i + 1 < clones ? list[i + 1].pos_b_in_l : ekf.m_state.body_state.pos_b_in_l;
    Quaterniond q1 = i + 1 < clones ? list[i + 1].ang_b_to_l : ekf.m_state.body_state.ang_b_to_l;
    double s = 0;
    if (t1 - list[i].time > 0) {s = (q - list[i].time) / (t1 - list[i].time);}
    want = list[i].pos_b_in_l + s * (p1 - list[i].pos_b_in_l);
    wq = between(list[i].ang_b_to_l, q1, s);
    // at a clone the preceding interval gives the same pose with the other end
    bool own = (int)got.index == 18 + 6 * i, prev = i > 0 && (int)got.index == 18 + 6 * (i - 1);
    sym::check(own || prev, "clone used");
    if (own) {sym::eq(got.alpha, s, "fraction");} else if (prev) {sym::eq(got.alpha, 1.0, "fraction"); sym::eq(s, 0.0, "only at the clone itself");}
  }
  sym::eqm(got.pos_b_in_l, want, "position");
  sym::eqrot(got.ang_b_to_l, wq, "attitude");
}
SCENARIO(by_time) {interpolated(AugmentationType::TIME, 1 + sym::choice("clones", 3));}
SCENARIO(by_error) {interpolated(AugmentationType::ERROR, 1 + sym::choice("clones", 3));}
SCENARIO(other_camera) {interpolated(AugmentationType::PRIMARY, 1 + sym::choice("clones", 3));}
SCENARIO(no_clones) {interpolated(sym::flag("primary") ? AugmentationType::PRIMARY : AugmentationType::TIME, 0);}
// frames that were cloned themselves
SCENARIO(by_frame)
{
  EKF::Parameters p = params(); p.augmenting_type = sym::flag("primary") ? AugmentationType::PRIMARY : AugmentationType::ALL;
  EKF ekf(p);
  ekf.Initialize(0, BodyState());
  CamState c; c.rate = 10;
  ekf.RegisterCamera(3, c, MatrixXd::Identity(6, 6)); ekf.RegisterCamera(2, c, MatrixXd::Identity(6, 6));
  std::map<unsigned, std::vector<AugState>> all;
  for (int k = 0; k < 4; k++) {
    unsigned cam = p.augmenting_type == AugmentationType::PRIMARY || k % 2 ? 3 : 2;
    ekf.PredictModel(1 + k);
    ekf.m_state.body_state.pos_b_in_l = sym::vec3("p" + std::to_string(k));
    ekf.m_state.body_state.ang_b_to_l = k == sym::choice("turned", 4) ? sym::quat("q") : Q[k];
    AugState a; a.frame_id = 40 + k / 2; a.time = 1 + k; a.pos_b_in_l = ekf.m_state.body_state.pos_b_in_l; a.ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
    if (p.augmenting_type == AugmentationType::PRIMARY) {a.frame_id = 40 + k;}
    all[cam].push_back(a);
    ekf.AugmentStateIfNeeded(cam, a.frame_id);
  }
  for (auto & x : all) {
    for (size_t k = 0; k < x.second.size(); k++) {
      AugState & a = x.second[k];
      AugState got = ekf.GetAugState(x.first, a.frame_id, sym::real("ask", 0, 6));
      sym::eqm(got.pos_b_in_l, a.pos_b_in_l, "position of the cloned frame");
      sym::eqrot(got.ang_b_to_l, a.ang_b_to_l, "attitude of the cloned frame");
      sym::eq(got.time, a.time, "time of the cloned frame");
      sym::check(got.index == ekf.m_state.aug_states[x.first][k].index, "index of the cloned frame");
    }
  }
}
