// Conversions between attitudes and rotation vectors, and the derivative of that chart.
#include "hcommon.hpp"
using namespace hc;
static Quaterniond any(double least)
{
  Quaterniond q = sym::quat("q");
  sym::assume_le(least, q.x() * q.x() + q.y() * q.y() + q.z() * q.z());
  return q;
}
SCENARIO(exponential)
{
  double r = sym::thorough() ? 12 : 4;
  Vector3d v = sym::vec3("v", -r, r);
  Quaterniond q = RotVecToQuat(v);
  sym::eq(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1.0, "exponential: unit length");
  checkRotated(q, Quaterniond(1, 0, 0, 0), v, true, "exponential");
}
SCENARIO(exponential_identity)
{
  Quaterniond q = RotVecToQuat(Vector3d(0, 0, 0));
  sym::eqrot(q, Quaterniond(1, 0, 0, 0), "no rotation");
  Vector3d v = QuatToRotVec(Quaterniond(sym::flag("negated") ? -1.0 : 1.0, 0, 0, 0));
  sym::eqm(v, Vector3d(0, 0, 0), "no rotation");
}
SCENARIO(logarithm)
{
  Quaterniond q = any(1e-16);
  Vector3d v = QuatToRotVec(q);
  sym::eqrot(RotVecToQuat(v), q, "logarithm: rotation");
  sym::le(v.norm(), M_PI, "logarithm: angle at most half a turn", 1e-3);
  // at exactly half a turn both directions describe the rotation
  if (std::abs(q.w()) > 1e-9) sym::eqm(QuatToRotVec(Quaterniond(-q.w(), -q.x(), -q.y(), -q.z())), v, "logarithm: sign of the quaternion");
}
SCENARIO(chart)
{
  Quaterniond q = any(1e-16);
  bool outer = sym::flag("outer");
  MatrixXd J = QuaternionJacobian(q), D(3, 3);
  sym::check(J.rows() == 3 && J.cols() == 3, "chart: size");
  if (outer) {J.transposeInPlace();}
  for (int k = 0; k < 3; k++) {
    D.col(k) = sym::derivative([&](double e) {return VectorXd(QuatToRotVec(outer ? sym::perturbOuter(q, k, e) : sym::perturb(q, k, e)));});
  }
  MatrixXd I = J * D;
  sym::eqm(I, MatrixXd::Identity(3, 3), outer ? "chart: left derivative" : "chart: right derivative", sym::native() ? 1e-4 : 1e-9);
}
SCENARIO(chart_identity)
{
  sym::eqm(QuaternionJacobian(Quaterniond(1, 0, 0, 0)), MatrixXd::Identity(3, 3), "chart: identity");
}
SCENARIO(euler)
{
  Vector3d e = sym::vec3("e", -4, 4);
  auto R = [](int k, double a) {
    double c = std::cos(a), s = std::sin(a);
    Matrix3d m = Matrix3d::Identity(); int i = (k + 1) % 3, j = (k + 2) % 3;
    m(i, i) = c; m(j, j) = c; m(i, j) = -s; m(j, i) = s;
    return m;
  };
  sym::eqm(sym::rot(EigVecToQuat(e)), MatrixXd(R(2, e[2]) * R(1, e[1]) * R(0, e[0])), "euler angles: yaw, pitch, roll");
}
SCENARIO(parameters)
{
  std::vector<double> v;
  int n = sym::choice("n", 6);
  for (int k = 0; k < n; k++) {v.push_back(sym::real("v" + std::to_string(k), -2, 2));}
  if (n == 4) {
    double s = v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3];
    sym::assume_le(0.01, s);
    Quaterniond q = StdToEigQuat(v);
    double l = std::sqrt(s);
    sym::eqrot(q, Quaterniond(v[0] / l, v[1] / l, v[2] / l, v[3] / l), "parameters: quaternion");
  } else {
    sym::eqrot(StdToEigQuat(v), Quaterniond(1, 0, 0, 0), "parameters: no quaternion");
  }
  VectorXd w = StdToEigVec(v); sym::check((int)w.size() == n, "parameters: vector");
  for (int i = 0; i < n && i < (int)w.size(); i++) {sym::eq(w[i], v[i], "parameters: vector");}
}
SCENARIO(cross)
{
  Vector3d a = sym::vec3("a"), b = sym::vec3("b");
  sym::eqm(SkewSymmetric(a) * b, Vector3d(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]), "cross product");
}
