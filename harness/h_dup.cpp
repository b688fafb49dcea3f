// Registering an identifier again.
#include "hlayout.hpp"
using namespace hc;
static const int FULL[] = {IMU_E, IMU_I, IMU_EI, GPS_E, CAM_E, FID_E, IMU_0, GPS_0, CAM_0, FID_0};
// values and settings of every registered sensor
struct Snap { std::map<unsigned, ImuState> imu; std::map<unsigned, GpsState> gps; std::map<unsigned, CamState> cam; std::map<unsigned, FidState> fid; };
static void fillValues(State & s)
{
  for (auto & x : s.imu_states) {x.second.pos_i_in_b = sym::vec3("ip"); x.second.acc_bias = sym::vec3("ia"); x.second.omg_bias = sym::vec3("io"); x.second.ang_i_to_b = sym::quat("iq");
    x.second.pos_stability = sym::real("is0", 0, 1); x.second.ang_stability = sym::real("is1", 0, 1); x.second.acc_bias_stability = sym::real("is2", 0, 1); x.second.omg_bias_stability = sym::real("is3", 0, 1);}
  for (auto & x : s.gps_states) {x.second.pos_a_in_b = sym::vec3("gp"); x.second.pos_stability = sym::real("gs", 0, 1);}
  for (auto & x : s.cam_states) {x.second.pos_c_in_b = sym::vec3("cp"); x.second.ang_c_to_b = sym::quat("cq"); x.second.pos_stability = sym::real("cs0", 0, 1); x.second.ang_stability = sym::real("cs1", 0, 1);}
  for (auto & x : s.fid_states) {x.second.pos_f_in_l = sym::vec3("fp"); x.second.ang_f_to_l = sym::quat("fq"); x.second.pos_stability = sym::real("fs0", 0, 1); x.second.ang_stability = sym::real("fs1", 0, 1);}
}
static void compare(State & a, State & b)
{
  sym::check(a.imu_states.size() == b.imu_states.size() && a.gps_states.size() == b.gps_states.size() && a.cam_states.size() == b.cam_states.size() && a.fid_states.size() == b.fid_states.size(), "number of sensors");
  for (auto & x : b.imu_states) {
    sym::check(a.imu_states.count(x.first) == 1, "sensor kept"); ImuState & s = a.imu_states[x.first]; ImuState & o = x.second;
    sym::eqm(s.pos_i_in_b, o.pos_i_in_b, "imu position"); sym::eqm(s.acc_bias, o.acc_bias, "imu bias"); sym::eqm(s.omg_bias, o.omg_bias, "imu bias"); sym::eqrot(s.ang_i_to_b, o.ang_i_to_b, "imu attitude");
    sym::eq(s.pos_stability, o.pos_stability, "imu stability"); sym::eq(s.ang_stability, o.ang_stability, "imu stability"); sym::eq(s.acc_bias_stability, o.acc_bias_stability, "imu stability"); sym::eq(s.omg_bias_stability, o.omg_bias_stability, "imu stability");
    sym::check(s.GetIsExtrinsic() == o.GetIsExtrinsic() && s.GetIsIntrinsic() == o.GetIsIntrinsic() && s.index == o.index, "imu calibration flags");
  }
  for (auto & x : b.gps_states) {
    sym::check(a.gps_states.count(x.first) == 1, "sensor kept"); GpsState & s = a.gps_states[x.first]; GpsState & o = x.second;
    sym::eqm(s.pos_a_in_b, o.pos_a_in_b, "antenna position"); sym::eq(s.pos_stability, o.pos_stability, "antenna stability");
    sym::check(s.GetIsExtrinsic() == o.GetIsExtrinsic() && s.index == o.index, "antenna calibration flags");
  }
  for (auto & x : b.cam_states) {
    sym::check(a.cam_states.count(x.first) == 1, "sensor kept"); CamState & s = a.cam_states[x.first]; CamState & o = x.second;
    sym::eqm(s.pos_c_in_b, o.pos_c_in_b, "camera position"); sym::eqrot(s.ang_c_to_b, o.ang_c_to_b, "camera attitude"); sym::eq(s.rate, o.rate, "camera rate");
    sym::eq(s.pos_stability, o.pos_stability, "camera stability"); sym::eq(s.ang_stability, o.ang_stability, "camera stability");
    sym::check(s.GetIsExtrinsic() == o.GetIsExtrinsic() && s.index == o.index, "camera calibration flags");
  }
  for (auto & x : b.fid_states) {
    sym::check(a.fid_states.count(x.first) == 1, "sensor kept"); FidState & s = a.fid_states[x.first]; FidState & o = x.second;
    sym::eqm(s.pos_f_in_l, o.pos_f_in_l, "board position"); sym::eqrot(s.ang_f_to_l, o.ang_f_to_l, "board attitude");
    sym::eq(s.pos_stability, o.pos_stability, "board stability"); sym::eq(s.ang_stability, o.ang_stability, "board stability");
    sym::check(s.GetIsExtrinsic() == o.GetIsExtrinsic() && s.index == o.index, "board calibration flags");
  }
}
static int classOf(int k) {return k == GPS_E || k == GPS_0 ? 2 : k == CAM_E || k == CAM_0 ? 3 : k == FID_E || k == FID_0 ? 4 : 1;}
SCENARIO(again)
{
  bool root = sym::flag("root");
  int first = FULL[sym::choice("first", 10)];
  EKF::Parameters p = params(); p.use_root_covariance = root;
  EKF ekf(p); World w(ekf); w.vec = false;
  ekf.Initialize(0, BodyState());
  VectorXd one = VectorXd::Ones(12);
  uint64_t id = (uint64_t)__sym_integer("id", 0, 9);
  w.apply(GPS_E, 3, one); w.apply(CAM_E, 4, one); w.apply(FID_E, 2, one);
  w.apply(first, id, one);
  fillValues(ekf.m_state);
  // the second registration is of the same class but otherwise arbitrary
  int second = FULL[sym::choice("second", 10)];
  if (classOf(second) != classOf(first)) {return;}
  MatrixXd c0 = w.scramble("c");
  State before = ekf.m_state;
  auto from = w.where();
  VectorXd prior = sym::vecn("prior", 12, 0.25, 4);
  int added = w.apply(second, id, prior);
  sym::check(added == -1, "identifier was in use");
  if (!w.checkTiling("again")) {return;}
  checkMoved(w, c0, from, added, prior, "again");
  compare(ekf.m_state, before);
}
// a rejected camera has no influence on which clones are kept later
SCENARIO(rejected_camera_rate)
{
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::TIME; p.augmenting_delta_time = 0.25;
  int order = sym::choice("twice", 2);
  EKF one(p), two(p);
  for (EKF * e : {&one, &two}) {
    e->Initialize(0, BodyState());
    e->SetMaxTrackLength(3);
    CamState c; c.rate = 4;
    e->RegisterCamera(1, c, MatrixXd::Identity(6, 6));
    if (e == &two) {CamState d; d.rate = order ? 0.1 : 100; e->RegisterCamera(1, d, MatrixXd::Identity(6, 6));}
  }
  double t[4] = {sym::real("t0", 0.5, 1), sym::real("t1", 1.5, 2.5), sym::real("t2", 3, 4), sym::real("t3", 4, 6)};
  for (int k = 0; k < 4; k++) {
    for (EKF * e : {&one, &two}) {e->AugmentStateIfNeeded(1, k); e->PredictModel(t[k]);}
    sym::check(one.GetStateSize() == two.GetStateSize(), "same clones kept");
    if (one.GetStateSize() != two.GetStateSize()) {return;}
  }
}
