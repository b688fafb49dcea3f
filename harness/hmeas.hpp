#pragma once
// Measurement models: numerical-free derivatives of a predicted measurement with respect to every state.
#include "hlayout.hpp"
#include <functional>
namespace hc {
// any attitude
inline Quaterniond attitude(const std::string & n) {return sym::quat(n);}
// local parameters of one state block of the filter
struct Block
{
  int index, size;                      // rows of the state
  std::function<void (State &, int, double)> move;      // perturb component k by e as a correction does (attitudes: on the right, P07)
};
inline Block pos(int index, std::function<Vector3d & (State &)> f)
{
  return {index, 3, [f](State & s, int k, double e) {f(s)[k] = f(s)[k] + e;}};
}
inline Block att(int index, std::function<Quaterniond & (State &)> f)
{
  return {index, 3, [f](State & s, int k, double e) {f(s) = sym::perturb(f(s), k, e);}};
}
inline std::vector<Block> bodyBlocks()
{
  auto q = [](State & s) -> Quaterniond & {return s.body_state.ang_b_to_l;};
  return {
    pos(0, [](State & s) -> Vector3d & {return s.body_state.pos_b_in_l;}), pos(3, [](State & s) -> Vector3d & {return s.body_state.vel_b_in_l;}),
    pos(6, [](State & s) -> Vector3d & {return s.body_state.acc_b_in_l;}), att(9, q),
    pos(12, [](State & s) -> Vector3d & {return s.body_state.ang_vel_b_in_l;}), pos(15, [](State & s) -> Vector3d & {return s.body_state.ang_acc_b_in_l;})};
}
// every column of a measurement Jacobian against the derivative of `h`
inline void checkJacobian(
  const MatrixXd & J, State & s, int stateSize, const std::vector<Block> & blocks, std::function<VectorXd(State &)> h, const std::string & l,
  double tol = 1e-9)
{
  sym::check((int)J.cols() == stateSize, l + ": columns");
  if ((int)J.cols() != stateSize) {return;}
  if (sym::native()) {tol = 1e-4;}
  std::vector<int> seen(stateSize, 0);
  for (auto & b : blocks) {
    MatrixXd D(J.rows(), b.size);
    for (int k = 0; k < b.size; k++) {
      D.col(k) = sym::derivative([&](double e) {State t = s; b.move(t, k, e); return h(t);});
    }
    for (int k = 0; k < b.size; k++) {seen[b.index + k] = 1;}
    for (int i = 0; i < J.rows(); i++) {
      for (int k = 0; k < b.size; k++) {
        sym::eq(J(i, b.index + k), D(i, k), l + ": rows " + std::to_string(i / 3 * 3) + " block at " + (b.index < 18 ? "body " + std::to_string(b.index) : "sensor"), tol);
      }
    }
  }
  for (int c = 0; c < stateSize; c++) {
    if (!seen[c]) {for (int i = 0; i < J.rows(); i++) {sym::eq(J(i, c), 0.0, l + ": unrelated states", tol);}}
  }
}
// sum of blocks differs only in how it is summed
inline Quaterniond qinv(const Quaterniond & q) {return Quaterniond(q.w(), -q.x(), -q.y(), -q.z());}
// two filters end in the same state with the same covariance
inline void sameFilters(EKF & a, EKF & b, const std::string & l, bool attitudes = true)
{
  sym::eq(a.GetCurrentTime(), b.GetCurrentTime(), l + ": time");
  sym::check(a.m_cov.rows() == b.m_cov.rows() && a.GetStateSize() == b.GetStateSize(), l + ": sizes");
  if (a.m_cov.rows() != b.m_cov.rows()) {return;}
  sym::eqm(covOf(a), covOf(b), l + ": covariance");
  BodyState & x = a.m_state.body_state; BodyState & y = b.m_state.body_state;
  sym::eqm(x.pos_b_in_l, y.pos_b_in_l, l + ": position"); sym::eqm(x.vel_b_in_l, y.vel_b_in_l, l + ": velocity"); sym::eqm(x.acc_b_in_l, y.acc_b_in_l, l + ": acceleration");
  if (attitudes) sym::eqrot(x.ang_b_to_l, y.ang_b_to_l, l + ": attitude"); sym::eqm(x.ang_vel_b_in_l, y.ang_vel_b_in_l, l + ": angular rate"); sym::eqm(x.ang_acc_b_in_l, y.ang_acc_b_in_l, l + ": angular acceleration");
  for (auto & g : a.m_state.gps_states) {sym::eqm(g.second.pos_a_in_b, b.m_state.gps_states[g.first].pos_a_in_b, l + ": antenna");}
  for (auto & g : a.m_state.cam_states) {
    sym::eqm(g.second.pos_c_in_b, b.m_state.cam_states[g.first].pos_c_in_b, l + ": camera");
    if (attitudes) sym::eqrot(g.second.ang_c_to_b, b.m_state.cam_states[g.first].ang_c_to_b, l + ": camera");
  }
  for (auto & g : a.m_state.fid_states) {
    sym::eqm(g.second.pos_f_in_l, b.m_state.fid_states[g.first].pos_f_in_l, l + ": board");
    if (attitudes) sym::eqrot(g.second.ang_f_to_l, b.m_state.fid_states[g.first].ang_f_to_l, l + ": board");
  }
  for (auto & g : a.m_state.imu_states) {
    ImuState & o = b.m_state.imu_states[g.first];
    sym::eqm(g.second.pos_i_in_b, o.pos_i_in_b, l + ": imu"); if (attitudes) sym::eqrot(g.second.ang_i_to_b, o.ang_i_to_b, l + ": imu");
    sym::eqm(g.second.acc_bias, o.acc_bias, l + ": imu"); sym::eqm(g.second.omg_bias, o.omg_bias, l + ": imu");
  }
}
}  // namespace hc
