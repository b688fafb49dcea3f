// Correction vectors and the vector form of the state, for any mix of sensors and clones.
#include "hlayout.hpp"
using namespace hc;

struct Rot { const char * name; Quaterniond * q; int idx; bool est; };
struct Vec { const char * name; Vector3d * v; int idx; bool est; };
struct View { std::vector<Rot> rots; std::vector<Vec> vecs; };
static View view(State & s)
{
  View w;
  BodyState & b = s.body_state; int i = (int)b.index;
  w.vecs = {{"body position", &b.pos_b_in_l, i, true}, {"body velocity", &b.vel_b_in_l, i + 3, true},
    {"body acceleration", &b.acc_b_in_l, i + 6, true}, {"body angular rate", &b.ang_vel_b_in_l, i + 12, true},
    {"body angular acceleration", &b.ang_acc_b_in_l, i + 15, true}};
  w.rots = {{"body attitude", &b.ang_b_to_l, i + 9, true}};
  for (auto & x : s.imu_states) {
    ImuState & m = x.second; int e = (int)m.index_extrinsic, n = (int)m.index_intrinsic;
    w.vecs.push_back({"imu position", &m.pos_i_in_b, e, m.GetIsExtrinsic()});
    w.rots.push_back({"imu attitude", &m.ang_i_to_b, e + 3, m.GetIsExtrinsic()});
    w.vecs.push_back({"imu accelerometer bias", &m.acc_bias, n, m.GetIsIntrinsic()});
    w.vecs.push_back({"imu gyroscope bias", &m.omg_bias, n + 3, m.GetIsIntrinsic()});
  }
  for (auto & x : s.gps_states) {w.vecs.push_back({"antenna position", &x.second.pos_a_in_b, (int)x.second.index, x.second.GetIsExtrinsic()});}
  for (auto & x : s.cam_states) {
    w.vecs.push_back({"camera position", &x.second.pos_c_in_b, (int)x.second.index, x.second.GetIsExtrinsic()});
    w.rots.push_back({"camera attitude", &x.second.ang_c_to_b, (int)x.second.index + 3, x.second.GetIsExtrinsic()});
  }
  for (auto & x : s.fid_states) {
    w.vecs.push_back({"board position", &x.second.pos_f_in_l, (int)x.second.index, x.second.GetIsExtrinsic()});
    w.rots.push_back({"board attitude", &x.second.ang_f_to_l, (int)x.second.index + 3, x.second.GetIsExtrinsic()});
  }
  for (auto & x : s.aug_states) {
    for (auto & a : x.second) {
      w.vecs.push_back({"clone position", &a.pos_b_in_l, (int)a.index, true});
      w.rots.push_back({"clone attitude", &a.ang_b_to_l, (int)a.index + 3, true});
    }
  }
  return w;
}
static const int CONF[][5] = {
  {IMU_EI, GPS_E, CAM_E, FID_E, AUG}, {IMU_I, IMU_E, CAM_E, CAM_E, AUG}, {IMU_0, GPS_E, GPS_E, CAM_0, FID_E},
  {CAM_E, CAM_0, AUG, AUG, FID_E}, {IMU_E, IMU_I, GPS_0, FID_0, FID_E}, {FID_E, FID_E, CAM_0, AUG, GPS_E}};
static const unsigned IDS[] = {4, 2, 3, 1, 2}, IDS0[] = {0, 1, 2, 0, 5};
static void fill(EKF & ekf, World & w, int conf)
{
  VectorXd one = VectorXd::Ones(12);
  const unsigned * ids = sym::flag("identifiers from 0") ? IDS0 : IDS;
  for (int k = 0; k < 5; k++) {w.apply(CONF[conf][k], ids[k], one);}
}
// values for every field; the chosen rotation is symbolic
static void values(View & v, int chosen)
{
  for (size_t k = 0; k < v.vecs.size(); k++) {*v.vecs[k].v = sym::vec3("v" + std::to_string(k));}
  for (size_t k = 0; k < v.rots.size(); k++) {
    if ((int)k == chosen) {*v.rots[k].q = sym::quat("q");}
    else {double n = std::sqrt(1.0 + 0.25 + 0.0625 * k * k); *v.rots[k].q = Quaterniond(1 / n, 0.5 / n, 0.25 * k / n, 0);}
  }
}
SCENARIO(correction)
{
  EKF ekf(params()); World w(ekf);
  ekf.Initialize(0, BodyState());
  int conf = sym::choice("configuration", 6);
  fill(ekf, w, conf);
  if (!w.checkTiling("layout")) {return;}
  View v = view(ekf.m_state);
  int chosen = sym::choice("rotation", (int)v.rots.size());
  values(v, chosen);
  State old = ekf.m_state; View o = view(old);
  int n = (int)ekf.GetStateSize();
  VectorXd d = sym::vecn("d", n);
  for (size_t k = 0; k < v.rots.size(); k++) {
    if ((int)k != chosen && v.rots[k].est) {d.segment<3>(v.rots[k].idx) = Vector3d(0.25, -0.5, 0.125 * (k + 1));}
  }
  ekf.m_state += d;
  for (size_t k = 0; k < v.vecs.size(); k++) {
    Vector3d want = *o.vecs[k].v;
    if (v.vecs[k].est) {want += d.segment<3>(v.vecs[k].idx);}
    sym::eqm(*v.vecs[k].v, want, std::string("correction of ") + v.vecs[k].name);
  }
  for (size_t k = 0; k < v.rots.size(); k++) {
    std::string l = std::string("correction of ") + v.rots[k].name;
    if (v.rots[k].est) {checkRotated(*v.rots[k].q, *o.rots[k].q, d.segment<3>(v.rots[k].idx), false, l);}
    else {sym::eqrot(*v.rots[k].q, *o.rots[k].q, l);}
  }
}
// attitudes are the fixed distinct ones of values(): that the rotation vector of any attitude is right is P16's concern
SCENARIO(vector_form)
{
  EKF ekf(params()); World w(ekf);
  ekf.Initialize(0, BodyState());
  int conf = sym::choice("configuration", 6);
  fill(ekf, w, conf);
  View v = view(ekf.m_state);
  values(v, -1);
  VectorXd x = ekf.m_state.ToVector();
  sym::check((int)x.size() == w.total(), "vector length");
  if ((int)x.size() != w.total()) {return;}
  for (auto & f : v.vecs) {if (f.est) {sym::eqm(x.segment<3>(f.idx), *f.v, std::string("vector form of ") + f.name);}}
  for (size_t k = 0; k < v.rots.size(); k++) {
    if (v.rots[k].est) {checkRotated(*v.rots[k].q, Quaterniond(1, 0, 0, 0), x.segment<3>(v.rots[k].idx), true, std::string("vector form of ") + v.rots[k].name);}
  }
  // writing the vector form back changes nothing
  State old = ekf.m_state; View o = view(old);
  ekf.m_state.SetState(x);
  for (size_t k = 0; k < v.vecs.size(); k++) {sym::eqm(*v.vecs[k].v, *o.vecs[k].v, std::string("round trip of ") + v.vecs[k].name);}
  for (size_t k = 0; k < v.rots.size(); k++) {sym::eqrot(*v.rots[k].q, *o.rots[k].q, std::string("round trip of ") + v.rots[k].name);}
}
SCENARIO(set_from_vector)
{
  EKF ekf(params()); World w(ekf);
  ekf.Initialize(0, BodyState());
  int conf = sym::choice("configuration", 6);
  fill(ekf, w, conf);
  View v = view(ekf.m_state);
  int chosen = sym::choice("rotation", (int)v.rots.size());
  values(v, -1);
  State old = ekf.m_state; View o = view(old);
  VectorXd x = sym::vecn("x", w.total());
  for (size_t k = 0; k < v.rots.size(); k++) {
    if ((int)k != chosen && v.rots[k].est) {x.segment<3>(v.rots[k].idx) = Vector3d(0.25, -0.5, 0.125 * (k + 1));}
  }
  ekf.m_state.SetState(x);
  for (size_t k = 0; k < v.vecs.size(); k++) {
    sym::eqm(*v.vecs[k].v, v.vecs[k].est ? Vector3d(x.segment<3>(v.vecs[k].idx)) : *o.vecs[k].v, std::string("setting ") + v.vecs[k].name);
  }
  for (size_t k = 0; k < v.rots.size(); k++) {
    std::string l = std::string("setting ") + v.rots[k].name;
    if (v.rots[k].est) {checkRotated(*v.rots[k].q, Quaterniond(1, 0, 0, 0), x.segment<3>(v.rots[k].idx), true, l);}
    else {sym::eqrot(*v.rots[k].q, *o.rots[k].q, l);}
  }
}
// one state added to another: vectors add, attitudes compose with the added one on the left
SCENARIO(state_sum)
{
  EKF ekf(params()); World w(ekf);
  ekf.Initialize(0, BodyState());
  int conf = sym::choice("configuration", 6);
  fill(ekf, w, conf);
  State a = ekf.m_state, b = ekf.m_state;
  View va = view(a), vb = view(b);
  int chosen = sym::choice("rotation", (int)va.rots.size());
  values(va, chosen);
  for (size_t k = 0; k < vb.vecs.size(); k++) {*vb.vecs[k].v = sym::vec3("u" + std::to_string(k));}
  for (size_t k = 0; k < vb.rots.size(); k++) {
    if ((int)k == chosen) {*vb.rots[k].q = sym::quat("r");} else {double n = std::sqrt(1.0 + 0.25 + 0.0625 * k * k); *vb.rots[k].q = Quaterniond(0.5 / n, 0, 0.25 * k / n, 1 / n);}
  }
  State old = a; View o = view(old);
  a += b;
  for (size_t k = 0; k < va.vecs.size(); k++) {sym::eqm(*va.vecs[k].v, *o.vecs[k].v + *vb.vecs[k].v, std::string("sum of ") + va.vecs[k].name);}
  for (size_t k = 0; k < va.rots.size(); k++) {sym::eqrot(*va.rots[k].q, sym::qmul(*vb.rots[k].q, *o.rots[k].q), std::string("composition of ") + va.rots[k].name);}
}
// corrections of a single class of states
SCENARIO(class_corrections)
{
  int which = sym::choice("class", 4);
  VectorXd d = sym::vecn("d", 24);
  bool e1 = sym::flag("first extrinsic"), i1 = sym::flag("first intrinsic");
  auto fixrot = [&](int i) {d.segment<3>(i) = Vector3d(0.25, -0.5, 0.125);};
  if (which == 0) {
    ImuState s; s.SetIsExtrinsic(e1); s.SetIsIntrinsic(i1);
    s.pos_i_in_b = sym::vec3("p"); s.acc_bias = sym::vec3("a"); s.omg_bias = sym::vec3("o"); s.ang_i_to_b = sym::quat("q");
    ImuState o = s; s += d;
    int k = 0;
    if (e1) {sym::eqm(s.pos_i_in_b, o.pos_i_in_b + d.segment<3>(0), "imu"); checkRotated(s.ang_i_to_b, o.ang_i_to_b, d.segment<3>(3), false, "imu"); k = 6;}
    else {sym::eqm(s.pos_i_in_b, o.pos_i_in_b, "imu"); sym::eqrot(s.ang_i_to_b, o.ang_i_to_b, "imu");}
    Vector3d da = i1 ? Vector3d(d.segment<3>(k)) : Vector3d(0, 0, 0), dg = i1 ? Vector3d(d.segment<3>(k + 3)) : Vector3d(0, 0, 0);
    sym::eqm(s.acc_bias, o.acc_bias + da, "imu"); sym::eqm(s.omg_bias, o.omg_bias + dg, "imu");
  } else if (which == 1) {
    std::map<unsigned int, ImuState> m;
    for (int k = 0; k < 2; k++) {
      ImuState & s = m[k + 3]; s.SetIsExtrinsic(k == 0 ? e1 : true); s.SetIsIntrinsic(k == 0 ? i1 : true);
      std::string n = std::to_string(k);
      s.pos_i_in_b = sym::vec3("p" + n); s.acc_bias = sym::vec3("a" + n); s.omg_bias = sym::vec3("o" + n); s.ang_i_to_b = Quaterniond(0.6, 0, 0.8, 0);
    }
    auto o = m; int idx = 0;
    for (auto & x : m) {if (x.second.GetIsExtrinsic()) {fixrot(idx + 3); idx += 6;} if (x.second.GetIsIntrinsic()) {idx += 6;}}
    m += d; idx = 0;
    for (auto & x : m) {
      ImuState & s = x.second; ImuState & b = o[x.first];
      if (s.GetIsExtrinsic()) {sym::eqm(s.pos_i_in_b, b.pos_i_in_b + d.segment<3>(idx), "imu map"); checkRotated(s.ang_i_to_b, b.ang_i_to_b, d.segment<3>(idx + 3), false, "imu map"); idx += 6;}
      else {sym::eqm(s.pos_i_in_b, b.pos_i_in_b, "imu map");}
      if (s.GetIsIntrinsic()) {sym::eqm(s.acc_bias, b.acc_bias + d.segment<3>(idx), "imu map"); sym::eqm(s.omg_bias, b.omg_bias + d.segment<3>(idx + 3), "imu map"); idx += 6;}
      else {sym::eqm(s.acc_bias, b.acc_bias, "imu map"); sym::eqm(s.omg_bias, b.omg_bias, "imu map");}
    }
  } else if (which == 2) {
    std::map<unsigned int, CamState> m;
    for (int k = 0; k < 2; k++) {
      CamState & s = m[k + 3]; s.SetIsExtrinsic(k == 0 ? e1 : true);
      s.pos_c_in_b = sym::vec3("p" + std::to_string(k)); s.ang_c_to_b = Quaterniond(0.6, 0, 0.8, 0);
    }
    auto o = m; int idx = 0;
    for (auto & x : m) {if (x.second.GetIsExtrinsic()) {fixrot(idx + 3); idx += 6;}}
    m += d; idx = 0;
    for (auto & x : m) {
      CamState & s = x.second; CamState & b = o[x.first];
      if (s.GetIsExtrinsic()) {sym::eqm(s.pos_c_in_b, b.pos_c_in_b + d.segment<3>(idx), "camera map"); checkRotated(s.ang_c_to_b, b.ang_c_to_b, d.segment<3>(idx + 3), false, "camera map"); idx += 6;}
      else {sym::eqm(s.pos_c_in_b, b.pos_c_in_b, "camera map"); sym::eqrot(s.ang_c_to_b, b.ang_c_to_b, "camera map");}
    }
  } else {
    std::vector<AugState> m(2);
    for (int k = 0; k < 2; k++) {m[k].pos_b_in_l = sym::vec3("p" + std::to_string(k)); m[k].ang_b_to_l = Quaterniond(0.6, 0, 0.8, 0); fixrot(6 * k + 3);}
    auto o = m;
    m += d;
    for (int k = 0; k < 2; k++) {
      sym::eqm(m[k].pos_b_in_l, o[k].pos_b_in_l + d.segment<3>(6 * k), "clone list");
      checkRotated(m[k].ang_b_to_l, o[k].ang_b_to_l, d.segment<3>(6 * k + 3), false, "clone list");
    }
  }
}
