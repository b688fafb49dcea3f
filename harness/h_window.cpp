// Sliding window of clones: eviction by count, pruning by age, and when clones are taken at all.
#include "hlayout.hpp"
using namespace hc;
struct Clone { uint64_t cam; unsigned frame; double time; Vector3d pos; Quaterniond ang; };
// after any operation: kept clones are exactly `want`, in order, and the covariance is the old one restricted/extended
static void checkWindow(EKF & ekf, const std::map<uint64_t, std::vector<Clone>> & want, const std::string & l)
{
  int n = 0;
  for (auto & x : want) {
    auto & have = ekf.m_state.aug_states[x.first];
    sym::check(have.size() == x.second.size(), l + ": number of clones");
    if (have.size() != x.second.size()) {return;}
    for (size_t k = 0; k < have.size(); k++) {
      sym::eqm(have[k].pos_b_in_l, x.second[k].pos, l + ": clone position");
      sym::eqrot(have[k].ang_b_to_l, x.second[k].ang, l + ": clone attitude");
      sym::eq(have[k].time, x.second[k].time, l + ": clone time");
      sym::check(have[k].frame_id == x.second[k].frame, l + ": clone frame");
    }
    n += (int)have.size();
  }
  sym::check((int)ekf.GetAugStateSize() == 6 * n, l + ": size of the window");
}
static Quaterniond fixedQuat(int k) {double n = std::sqrt(1.25 + 0.0625 * k * k); return Quaterniond(1 / n, 0.5 / n, 0.25 * k / n, 0);}
// eviction by count: `frames` frames, window of `len`, symbolic camera for each frame
static void evict(bool root, unsigned len, int frames, int cams, const std::vector<int> & sensors)
{
  EKF::Parameters p = params(); p.use_root_covariance = root;
  EKF ekf(p); World w(ekf); w.vec = false; w.sparse = true;
  ekf.Initialize(0, BodyState());
  ekf.SetMaxTrackLength(len);
  VectorXd one = VectorXd::Ones(12);
  for (size_t k = 0; k < sensors.size(); k++) {w.apply(sensors[k], 20 + k, one);}
  std::map<uint64_t, std::vector<Clone>> want;
  for (int k = 0; k < frames; k++) {
    uint64_t cam = 3;
    if (cams > 1) {cam = sym::flag("cam" + std::to_string(k)) ? 5 : 2;}
    ekf.PredictModel(1.0 + k);
    ekf.m_state.body_state.pos_b_in_l = sym::vec3("p" + std::to_string(k));
    ekf.m_state.body_state.ang_b_to_l = fixedQuat(k);
    bool last = k + 1 == frames;
    MatrixXd c0;
    std::map<int, std::vector<int>> from;
    if (last) {c0 = w.scramble("c"); from = w.where();}
    auto & list = want[cam];
    list.push_back({cam, (unsigned)(100 + w.parts.size()), 1.0 + k, ekf.m_state.body_state.pos_b_in_l, ekf.m_state.body_state.ang_b_to_l});
    unsigned frame = list.back().frame;
    // reference model of the layout: the oldest clone of this camera disappears when the window is full
    int dropped = -1;
    if (list.size() > len) {
      list.erase(list.begin());
      for (size_t a = 0; a < w.parts.size(); a++) {if (w.parts[a].cls == 5 && w.parts[a].id == cam && w.parts[a].n == 0) {dropped = (int)a;}}
    }
    ekf.AugmentStateIfNeeded((unsigned)cam, frame);
    std::map<int, std::vector<int>> src;     // new part number -> rows in the old covariance
    std::vector<Part> parts;
    for (size_t a = 0; a < w.parts.size(); a++) {
      if ((int)a == dropped) {continue;}
      Part q = w.parts[a];
      if (dropped >= 0 && q.cls == 5 && q.id == cam) {q.n--;}
      if (last) {src[(int)parts.size()] = from[(int)a];}
      parts.push_back(q);
    }
    parts.push_back({5, cam, (long)list.size() - 1, 6});
    w.parts = parts;
    if (!w.checkTiling("window")) {return;}
    checkWindow(ekf, want, "window");
    if (last) {checkMoved(w, c0, src, (int)parts.size() - 1, one, dropped >= 0 ? "evicted" : "grown");}
  }
}
SCENARIO(evict_one) {evict(sym::flag("root"), 1, 3, 1, {});}
SCENARIO(evict_two) {evict(false, 2, 4, 1, {CAM_E});}
SCENARIO(evict_root) {evict(true, 2, 3, 1, {GPS_E});}
SCENARIO(evict_cameras) {evict(false, 2, 5, 2, {});}
SCENARIO(evict_cameras_root) {evict(true, 1, 3, 2, {});}
SCENARIO(deep) {if (sym::thorough()) {evict(sym::flag("root"), 2, 6, 2, {CAM_E});}}

// clones taken by time or by prediction error, at predictions
static void periodic(bool root, bool byTime, int steps)
{
  EKF::Parameters p = params(); p.use_root_covariance = root;
  p.augmenting_type = byTime ? AugmentationType::TIME : AugmentationType::ERROR;
  p.augmenting_delta_time = sym::real("delta", 0.25, 2);
  p.augmenting_pos_error = sym::real("pos_error", 0.25, 2); p.augmenting_ang_error = 0.5;
  EKF ekf(p);
  ekf.Initialize(0, BodyState());
  const unsigned len = 4;
  ekf.SetMaxTrackLength(len);
  CamState c; c.rate = 2;
  ekf.RegisterCamera(1, c, MatrixXd::Identity(6, 6));
  const double shortest = len / 2.0, longest = (len + 1) / 2.0, period = 0.5;
  double t = 0;
  bool frame = false, fresh = true;   // before the first clone it is open whether a frame is required
  std::vector<Clone> have;
  for (int k = 0; k < steps; k++) {
    std::string n = std::to_string(k);
    if (sym::flag("frame" + n)) {ekf.AugmentStateIfNeeded(1, 100 + k); frame = true;}
    t = t + sym::real("dt" + n, 0.125, 3);
    ekf.m_state.body_state.pos_b_in_l = Vector3d(sym::real("x" + n, -3, 3), 0, 0);
    ekf.m_state.body_state.vel_b_in_l = Vector3d(0.5, 0, 0);
    ekf.m_state.body_state.ang_b_to_l = Quaterniond(1, 0, 0, 0);
    Vector3d pos = ekf.m_state.body_state.pos_b_in_l;
    int sz = (int)ekf.GetStateSize();
    MatrixXd c0 = MatrixXd::Zero(sz, sz);
    for (int i = 0; i < sz; i++) {c0(i, i) = 1 + i; if (i > 0) {c0(i - 1, i) = 0.25; if (!root) {c0(i, i - 1) = 0.25;}}}
    ekf.m_cov = c0;
    if (root) {c0 = c0.transpose() * c0;}
    ekf.PredictModel(t);
    // what may and must happen
    bool needed = have.empty(), forbidden = !frame;
    if (!have.empty()) {
      double age = t - have.back().time;
      if (byTime) {needed = age > p.augmenting_delta_time; if (!needed) {forbidden = true;}}
      else {
        double err = std::abs(pos[0] - 0.5 * age - have.back().pos[0]);
        bool big = age > period && err > p.augmenting_pos_error;
        needed = age > longest || big;
        if (age < shortest && !big) {forbidden = true;}
      }
    }
    auto & now = ekf.m_state.aug_states[0];
    bool taken = !now.empty() && (have.empty() || now.back().time != have.back().time);
    if (fresh && !frame) {} else if (forbidden) {sym::check(!taken, "no clone without a frame or a reason");}
    else if (needed) {sym::check(taken, "clone when needed");}
    if (taken) {
      frame = false; fresh = false;
      sym::eqm(now.back().pos_b_in_l, pos, "new clone position");
      sym::eq(now.back().time, t, "new clone time");
    }
    // old clones: a suffix of the previous window
    size_t kept = now.size() - (taken ? 1 : 0);
    sym::check(kept <= have.size(), "kept clones existed");
    if (kept > have.size()) {return;}
    size_t drop = have.size() - kept;
    for (size_t i = 0; i < kept; i++) {
      sym::eq(now[i].time, have[drop + i].time, "kept clone time");
      sym::eqm(now[i].pos_b_in_l, have[drop + i].pos, "kept clone position");
    }
    for (size_t i = 0; i + 1 < have.size(); i++) {
      double age = t - have[i + 1].time;    // age of the successor
      if (i < drop) {sym::le(shortest, age, "dropped only when its successor left the window");}
      else {sym::le(age, longest, "kept only while its successor is in the window");}
    }
    if (!have.empty()) {sym::check(drop < have.size(), "the newest clone is not dropped");}
    // covariance of what remains
    int m = (int)ekf.GetStateSize();
    sym::check(m == 18 + 6 * (int)now.size() && (int)ekf.m_cov.rows() == m && (int)ekf.m_cov.cols() == m, "sizes");
    if ((int)ekf.m_cov.rows() != m) {return;}
    std::vector<int> src;
    for (int i = 0; i < 18; i++) {src.push_back(i);}
    for (size_t i = 0; i < kept; i++) {for (int q = 0; q < 6; q++) {src.push_back(18 + 6 * (int)(drop + i) + q);}}
    if (taken) {for (int q = 0; q < 6; q++) {src.push_back(q < 3 ? q : 6 + q);}}
    MatrixXd c1 = covOf(ekf);
    bool in = true;
    for (int s : src) {in = in && s < sz;}
    if (!in) {return;}
    for (int i = 0; i < m; i++) {for (int j = 0; j < m; j++) {sym::eq(c1(i, j), c0(src[i], src[j]), "covariance after cloning and pruning");}}
    have.clear();
    for (auto & a : now) {have.push_back({0, a.frame_id, a.time, a.pos_b_in_l, a.ang_b_to_l});}
  }
}
SCENARIO(by_time) {periodic(false, true, 4);}
SCENARIO(by_time_root) {periodic(true, true, 3);}
SCENARIO(by_error) {periodic(false, false, 3);}
SCENARIO(by_time_deep) {if (sym::thorough()) {periodic(sym::flag("root"), true, 5);}}
SCENARIO(by_error_deep) {if (sym::thorough()) {periodic(sym::flag("root"), false, 4);}}
