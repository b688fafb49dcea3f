#include "symx.hpp"
#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"
SCENARIO(rotvec) {
  Eigen::Vector3d v = sym::vec3("v", -2, 2);
  Eigen::Quaterniond q = RotVecToQuat(v);
  sym::eq(q.w()*q.w()+q.x()*q.x()+q.y()*q.y()+q.z()*q.z(), 1.0, "unit");
}
SCENARIO(badcmp) {
  double a = sym::real("a",-1,1), b = sym::real("b",-1,1);
  double m = a > b ? a : b;
  sym::le(a, m, "max");
  sym::le(m, a, "wrong");
  sym::eq((a+b)*(a-b), a*a-b*b, "id");
}
SCENARIO(matmul) {
  Eigen::MatrixXd A = sym::mat("A",3,3), B = sym::mat("B",3,3);
  Eigen::MatrixXd C = (A*B).transpose(), D = B.transpose()*A.transpose();
  sym::eqm(C, D, "tr");
}
