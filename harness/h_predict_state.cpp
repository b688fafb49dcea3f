// Prediction of the navigation state over an arbitrary time step.
#include "hcommon.hpp"
using namespace hc;
static void predict(int mode)
{
  EKF::Parameters p = params();
  p.use_root_covariance = false;
  p.augmenting_type = AugmentationType::NONE;
  EKF ekf(p);
  double t0 = sym::real("t0", -10, 10), t1 = sym::real("t1", -10, 10);
  BodyState b = body("b");
  bool gravity = mode & 1, zero = mode & 2;
  ekf.Initialize(t0, b);
  if (gravity) {ekf.InitializeGravity();}
  ekf.SetZeroAcceleration(zero);
  MatrixXd cov0 = ekf.m_cov;
  ekf.PredictModel(t1);
  const BodyState & s = ekf.m_state.body_state;
  // never touched by prediction
  sym::eqm(s.acc_b_in_l, b.acc_b_in_l, "acceleration kept");
  sym::eqm(s.ang_vel_b_in_l, b.ang_vel_b_in_l, "angular rate kept");
  sym::eqm(s.ang_acc_b_in_l, b.ang_acc_b_in_l, "angular acceleration kept");
  if (t1 < t0) {
    sym::reach("past");
    sym::eq(ekf.GetCurrentTime(), t0, "past: time kept");
    sym::eqm(s.pos_b_in_l, b.pos_b_in_l, "past: position kept");
    sym::eqm(s.vel_b_in_l, b.vel_b_in_l, "past: velocity kept");
    sym::eqm(sym::rot(s.ang_b_to_l), sym::rot(b.ang_b_to_l), "past: attitude kept");
    sym::eqm(ekf.m_cov, cov0, "past: covariance kept");
    return;
  }
  sym::eq(ekf.GetCurrentTime(), t1, "time advanced");
  double dt = t1 - t0;
  if (!gravity) {
    sym::reach("no gravity");
    sym::eqm(s.pos_b_in_l, b.pos_b_in_l, "no gravity: position kept");
    sym::eqm(s.vel_b_in_l, b.vel_b_in_l, "no gravity: velocity kept");
    sym::eqm(sym::rot(s.ang_b_to_l), sym::rot(b.ang_b_to_l), "no gravity: attitude kept");
    sym::eqm(ekf.m_cov, cov0, "no gravity: covariance kept");
    return;
  }
  sym::reach("moving");
  Vector3d a = zero ? Vector3d(0, 0, 0) : Vector3d(b.acc_b_in_l - Vector3d(0, 0, 9.80665));
  Vector3d v1 = b.vel_b_in_l + dt * a;
  sym::eqm(s.vel_b_in_l, v1, "velocity");
  sym::eqm(s.pos_b_in_l, b.pos_b_in_l + dt * v1, "position");
  checkRotated(s.ang_b_to_l, b.ang_b_to_l, Vector3d(dt * b.ang_vel_b_in_l), true, "attitude");
}
SCENARIO(predict_idle) {predict(0);}
SCENARIO(predict_gravity_accel) {predict(1);}
SCENARIO(predict_idle_zero) {predict(2);}
SCENARIO(predict_gravity_zero) {predict(3);}
