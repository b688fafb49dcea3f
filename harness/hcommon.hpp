#pragma once
#include "symx.hpp"
#include <memory>
#include "ekf/constants.hpp"
#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "ekf/update/updater.hpp"
#include "infrastructure/debug_logger.hpp"
#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"

namespace hc {
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::Vector3d; using Eigen::Matrix3d; using Eigen::Quaterniond;

inline std::shared_ptr<DebugLogger> logger() { return std::make_shared<DebugLogger>(LogLevel::FATAL, ""); }
inline EKF::Parameters params()
{
  EKF::Parameters p;
  p.debug_logger = logger();
  return p;
}
inline BodyState body(const std::string & n, bool attitude = true)
{
  BodyState b;
  b.pos_b_in_l = sym::vec3(n + ".pos");
  b.vel_b_in_l = sym::vec3(n + ".vel");
  b.acc_b_in_l = sym::vec3(n + ".acc", -12, 12);
  if (attitude) {b.ang_b_to_l = sym::quat(n + ".ang");}
  b.ang_vel_b_in_l = sym::vec3(n + ".omg");
  b.ang_acc_b_in_l = sym::vec3(n + ".alp");
  return b;
}
// textbook exponential map from a rotation vector (angle > 1e-6 on this path)
inline Quaterniond expq(const Vector3d & v)
{
  double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  double s = std::sin(n / 2) / n;
  return Quaterniond(std::cos(n / 2), s * v[0], s * v[1], s * v[2]);
}
// q1 must be exp(v) * q0 (left) or q0 * exp(v) (right) as rotations
inline void checkRotated(const Quaterniond & q1, const Quaterniond & q0, const Vector3d & v, bool left, const std::string & l)
{
  double n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
  if (n2 > 1e-12) {
    Quaterniond e = expq(v);
    sym::eqrot(q1, left ? sym::qmul(e, q0) : sym::qmul(q0, e), l);
  } else {
    // negligible rotation: the relative rotation is the identity within 1e-6 per quaternion component
    Quaterniond inv(q0.w(), -q0.x(), -q0.y(), -q0.z());
    Quaterniond r = left ? sym::qmul(q1, inv) : sym::qmul(inv, q1);
    sym::le(r.x(), 1e-6, l + ":small"); sym::le(-1e-6, r.x(), l + ":small");
    sym::le(r.y(), 1e-6, l + ":small"); sym::le(-1e-6, r.y(), l + ":small");
    sym::le(r.z(), 1e-6, l + ":small"); sym::le(-1e-6, r.z(), l + ":small");
  }
}
}  // namespace hc
