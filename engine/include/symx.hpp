#pragma once
// C++ convenience layer over sym.h
#include "sym.h"
#include <eigen3/Eigen/Eigen>
#include <cmath>
#include <string>
#include <vector>

#define SCENARIO(NAME) \
  static void NAME(); \
  namespace { struct Reg_##NAME { Reg_##NAME() { __sym_register(#NAME, &NAME); } } reg_##NAME; } \
  static void NAME()

namespace sym {
inline bool native() { return __sym_native() != 0; }
inline bool thorough() { return __sym_thorough() != 0; }
inline double real(const std::string & n, double lo, double hi) { return __sym_real(n.c_str(), lo, hi); }
inline int choice(const std::string & n, int k) { return __sym_choice(n.c_str(), k); }
inline bool flag(const std::string & n) { return choice(n, 2) == 1; }
inline void assume_lt(double a, double b) { __sym_assume_lt(a, b); }
inline void assume_le(double a, double b) { __sym_assume_le(a, b); }
inline void reach(const std::string & l) { __sym_reach(l.c_str()); }
inline void eq(double a, double b, const std::string & l, double tol = 1e-9) { __sym_check_eq(a, b, tol, l.c_str()); }
inline void le(double a, double b, const std::string & l, double tol = 1e-9) { __sym_check_le(a, b, tol, l.c_str()); }
inline void check(bool c, const std::string & l) { __sym_check(c ? 1 : 0, l.c_str()); }

template<typename A, typename B>
void eqm(const A & a_, const B & b_, const std::string & l, double tol = 1e-9)
{
  Eigen::MatrixXd a = a_, b = b_;
  check(a.rows() == b.rows() && a.cols() == b.cols(), l + ":size");
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return;}
  for (int j = 0; j < a.cols(); j++) {
    for (int i = 0; i < a.rows(); i++) {
      eq(a(i, j), b(i, j), l, tol);
    }
  }
}
inline Eigen::Vector3d vec3(const std::string & n, double lo = -2, double hi = 2)
{
  Eigen::Vector3d v;
  v[0] = real(n + ".x", lo, hi); v[1] = real(n + ".y", lo, hi); v[2] = real(n + ".z", lo, hi);
  return v;
}
inline Eigen::VectorXd vecn(const std::string & n, int k, double lo = -2, double hi = 2)
{
  Eigen::VectorXd v(k);
  for (int i = 0; i < k; i++) {v[i] = real(n + std::to_string(i), lo, hi);}
  return v;
}
inline Eigen::MatrixXd mat(const std::string & n, int r, int c, double lo = -2, double hi = 2)
{
  Eigen::MatrixXd m(r, c);
  for (int i = 0; i < r; i++) {
    for (int j = 0; j < c; j++) {
      m(i, j) = real(n + std::to_string(i) + "_" + std::to_string(j), lo, hi);
    }
  }
  return m;
}
inline Eigen::MatrixXd symmat(const std::string & n, int r, double lo = -2, double hi = 2)
{
  Eigen::MatrixXd m(r, r);
  for (int i = 0; i < r; i++) {
    for (int j = i; j < r; j++) {
      m(i, j) = real(n + std::to_string(i) + "_" + std::to_string(j), lo, hi);
      m(j, i) = m(i, j);
    }
  }
  return m;
}
inline Eigen::MatrixXd uppermat(const std::string & n, int r, double lo = -2, double hi = 2)
{
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(r, r);
  for (int i = 0; i < r; i++) {
    for (int j = i; j < r; j++) {
      m(i, j) = real(n + std::to_string(i) + "_" + std::to_string(j), i == j ? 0.125 : lo, hi);
    }
  }
  return m;
}
// a unit quaternion ranging over the whole sphere
inline Eigen::Quaterniond quat(const std::string & n)
{
  double q[4];
  __sym_unit4(n.c_str(), q);
  return Eigen::Quaterniond(q[0], q[1], q[2], q[3]);
}
// independent statements of the textbook definitions used by the oracles
inline Eigen::Matrix3d rot(const Eigen::Quaterniond & q)
{
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d r;
  r << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
    2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
    2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
  return r;
}
inline Eigen::Quaterniond qmul(const Eigen::Quaterniond & a, const Eigen::Quaterniond & b)
{
  return Eigen::Quaterniond(
    a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(),
    a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
    a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(),
    a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
inline Eigen::Matrix3d skew(const Eigen::Vector3d & v)
{
  Eigen::Matrix3d m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
// equality of attitudes as rotations (quaternion sign is immaterial)
inline void eqrot(const Eigen::Quaterniond & a, const Eigen::Quaterniond & b, const std::string & l, double tol = 1e-9)
{
  eqm(rot(a), rot(b), l, tol);
}
// attitude followed by an infinitesimal body-frame rotation of e about axis k
inline Eigen::Quaterniond perturb(const Eigen::Quaterniond & q, int k, double e)
{
  if (native()) {
    double s = std::sin(e / 2);
    return qmul(q, Eigen::Quaterniond(std::cos(e / 2), k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0));
  }
  double h = 0.5 * e;
  return qmul(q, Eigen::Quaterniond(1.0, k == 0 ? h : 0, k == 1 ? h : 0, k == 2 ? h : 0));
}
// attitude preceded by an infinitesimal rotation of e about axis k of the outer frame
inline Eigen::Quaterniond perturbOuter(const Eigen::Quaterniond & q, int k, double e)
{
  return qmul(perturb(Eigen::Quaterniond(1, 0, 0, 0), k, e), q);
}
// directional derivative at 0 of a vector-valued function of one real
template<typename F>
Eigen::VectorXd derivative(F f)
{
  if (native()) {
    const double h = 1e-5;
    Eigen::VectorXd a = f(h), b = f(-h);
    return (a - b) / (2 * h);
  }
  double e = __sym_eps();
  Eigen::VectorXd v = f(e);
  Eigen::VectorXd d(v.size());
  for (int i = 0; i < v.size(); i++) {d[i] = __sym_diff_eps(v[i]);}
  return d;
}
}  // namespace sym
