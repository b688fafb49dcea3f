#pragma once
// Square-root covariance support.
//
// In the symbolic build the orthogonal-triangular reduction QR_r is replaced by its
// contract: it returns an upper triangular R with R'R = A'A + B'B (here the Cholesky
// factor of that Gram matrix, exactly).  The real implementation is checked against
// that contract by h_qr.cpp, and every counterexample is replayed against the real one.
#include "hcommon.hpp"
namespace hc {
struct Reduction { MatrixXd gram, factor; };
inline std::vector<Reduction> & reductions() {static std::vector<Reduction> r; return r;}
inline bool sameMat(const MatrixXd & a, const MatrixXd & b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return false;}
  for (int i = 0; i < a.rows(); i++) {
    for (int j = 0; j < a.cols(); j++) {
      if (__sym_peek(a(i, j)) != __sym_peek(b(i, j))) {return false;}
    }
  }
  return true;
}
// the covariance a filter in square-root form represents
inline MatrixXd gramOf(const MatrixXd & r)
{
  for (auto & x : reductions()) {
    if (sameMat(x.factor, r)) {return x.gram;}
  }
  return r.transpose() * r;
}
inline MatrixXd covOf(const EKF & ekf) {return ekf.GetUseRootCovariance() ? gramOf(ekf.m_cov) : ekf.m_cov;}
inline void checkUpper(const MatrixXd & r, const std::string & l)
{
  for (int j = 0; j < r.cols(); j++) {
    for (int i = j + 1; i < r.rows(); i++) {sym::eq(r(i, j), 0.0, l);}
  }
}
}  // namespace hc

#ifdef SYM_BUILD
Eigen::MatrixXd QR_r(const Eigen::MatrixXd & left, const Eigen::MatrixXd & right)
{
  const int n = (int)left.cols();
  sym::check(left.cols() == right.cols(), "reduction of matrices with equal column counts");
  Eigen::MatrixXd g = Eigen::MatrixXd::Zero(n, n), r = Eigen::MatrixXd::Zero(n, n);
  auto add = [&](double & acc, double x, double y) {
      if (!__sym_is_symbolic(x) && __sym_peek(x) == 0) {return;}
      if (!__sym_is_symbolic(y) && __sym_peek(y) == 0) {return;}
      acc = acc + x * y;
    };
  for (int i = 0; i < n; i++) {
    for (int j = i; j < n; j++) {
      double s = 0;
      for (int k = 0; k < left.rows(); k++) {add(s, left(k, i), left(k, j));}
      for (int k = 0; k < right.rows(); k++) {add(s, right(k, i), right(k, j));}
      g(i, j) = s; g(j, i) = s;
    }
  }
  for (int i = 0; i < n; i++) {
    double d = g(i, i);
    for (int k = 0; k < i; k++) {d = d - r(k, i) * r(k, i);}
    if (__sym_peek(d) < 1e-14) {continue;}          // dependent column: zero row
    double p = std::sqrt(d);
    r(i, i) = p;
    for (int j = i + 1; j < n; j++) {
      double s = g(i, j);
      for (int k = 0; k < i; k++) {
        if (!__sym_is_symbolic(r(k, i)) && __sym_peek(r(k, i)) == 0) {continue;}
        s = s - r(k, i) * r(k, j);
      }
      if (!__sym_is_symbolic(s) && __sym_peek(s) == 0) {continue;}
      r(i, j) = s / p;
    }
  }
  hc::reductions().push_back({g, r});
  return r;
}
#endif
