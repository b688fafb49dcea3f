// Cloning the body pose when a camera frame is recorded.
#include "hlayout.hpp"
using namespace hc;
struct Clone { uint64_t cam; unsigned frame; double time; Vector3d pos; Quaterniond ang; };
static void moveBody(EKF & ekf, int k)
{
  std::string n = "body" + std::to_string(k);
  ekf.m_state.body_state.pos_b_in_l = sym::vec3(n + ".p");
  ekf.m_state.body_state.vel_b_in_l = sym::vec3(n + ".v");
  ekf.m_state.body_state.ang_b_to_l = sym::quat(n + ".q");
}
static void same(const AugState & a, const Clone & c, const std::string & l)
{
  sym::eqm(a.pos_b_in_l, c.pos, l + " position");
  sym::eqrot(a.ang_b_to_l, c.ang, l + " attitude");
  sym::eq(a.time, c.time, l + " time");
  sym::check(a.frame_id == c.frame, l + " frame");
}
static void checkClones(EKF & ekf, const std::vector<Clone> & all, const std::string & l)
{
  std::map<uint64_t, int> seen;
  for (auto & c : all) {
    int n = seen[c.cam]++;
    std::string w = &c == &all.back() ? l + ": new clone" : l + ": earlier clone";
    sym::check((int)ekf.m_state.aug_states[c.cam].size() > n, w + " present");
    if ((int)ekf.m_state.aug_states[c.cam].size() <= n) {return;}
    same(ekf.m_state.aug_states[c.cam][n], c, w);
  }
  for (auto & s : seen) {sym::check((int)ekf.m_state.aug_states[s.first].size() == s.second, l + ": number of clones");}
}
static void history(bool root, const std::vector<int> & before, int clones)
{
  EKF::Parameters p = params(); p.use_root_covariance = root;
  EKF ekf(p); World w(ekf); w.vec = false;
  ekf.Initialize(0, BodyState());
  VectorXd one = VectorXd::Ones(12);
  for (size_t k = 0; k < before.size(); k++) {w.apply(before[k], 10 + k, one);}
  std::vector<Clone> all;
  double t = 0;
  for (int k = 0; k < clones; k++) {
    uint64_t cam = (uint64_t)__sym_integer(("cam" + std::to_string(k)).c_str(), 0, 9);
    if (k + 1 == clones) {t = sym::real("t", 5, 6);} else {t = 1 + k;}
    ekf.PredictModel(t);
    moveBody(ekf, k);
    unsigned frame = (unsigned)(100 + w.parts.size());
    all.push_back({cam, frame, t, ekf.m_state.body_state.pos_b_in_l, ekf.m_state.body_state.ang_b_to_l});
    BodyState b = ekf.m_state.body_state;
    if (k + 1 < clones) {w.apply(AUG, cam, one); continue;}
    MatrixXd c0 = w.scramble("c");
    auto from = w.where();
    int added = w.apply(AUG, cam, one);
    if (!w.checkTiling("cloned")) {return;}
    checkMoved(w, c0, from, added, one, "cloned");
    checkClones(ekf, all, "cloned");
    sym::eqm(ekf.m_state.body_state.pos_b_in_l, b.pos_b_in_l, "body untouched");
    sym::eqm(ekf.m_state.body_state.vel_b_in_l, b.vel_b_in_l, "body untouched");
    sym::eqrot(ekf.m_state.body_state.ang_b_to_l, b.ang_b_to_l, "body untouched");
    sym::eq(ekf.GetCurrentTime(), t, "time untouched");
  }
}
SCENARIO(first_clone) {history(sym::flag("root"), {}, 1);}
SCENARIO(two_clones) {history(sym::flag("root"), {}, 2);}
SCENARIO(three_clones) {history(false, {}, 3);}
SCENARIO(clone_with_sensors) {
  static const std::vector<std::vector<int>> s = {{IMU_EI}, {GPS_E, CAM_E}, {CAM_E, FID_E}, {IMU_I, CAM_0, FID_E}};
  int i = sym::choice("sensors", 4);
  history(sym::flag("root"), s[i], 2);
}
SCENARIO(three_clones_root) {if (sym::thorough()) {history(true, {FID_E}, 3);}}
// which frames are cloned
SCENARIO(modes)
{
  int mode = sym::choice("mode", 3);
  EKF::Parameters p = params();
  p.augmenting_type = mode == 0 ? AugmentationType::NONE : mode == 1 ? AugmentationType::PRIMARY : AugmentationType::ALL;
  EKF ekf(p);
  ekf.Initialize(0, BodyState());
  uint64_t a = (uint64_t)__sym_integer("first", 1, 9), b = (uint64_t)__sym_integer("second", 1, 9), f = (uint64_t)__sym_integer("frame of", 1, 9);
  CamState c; c.rate = 10;
  ekf.RegisterCamera(a, c, MatrixXd::Identity(6, 6));
  ekf.RegisterCamera(b, c, MatrixXd::Identity(6, 6));
  moveBody(ekf, 0);
  MatrixXd c0 = sym::symmat("c", 18, -1, 1);
  ekf.m_cov = c0;
  Clone want{f, 7, 0.0, ekf.m_state.body_state.pos_b_in_l, ekf.m_state.body_state.ang_b_to_l};
  ekf.AugmentStateIfNeeded((unsigned)f, 7);
  bool expect = mode == 2 || (mode == 1 && f == a);
  int total = 0;
  for (auto & x : ekf.m_state.aug_states) {total += (int)x.second.size();}
  sym::check(total == (expect ? 1 : 0), "number of clones");
  sym::check((int)ekf.GetStateSize() == (expect ? 24 : 18) && (int)ekf.m_cov.rows() == (expect ? 24 : 18), "state size");
  if (expect && ekf.m_state.aug_states[f].size() == 1) {same(ekf.m_state.aug_states[f][0], want, "clone");}
  if (!expect && ekf.m_cov.rows() == 18) {sym::eqm(ekf.m_cov, c0, "covariance untouched");}
}
