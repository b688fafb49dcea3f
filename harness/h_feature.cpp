// Removing a feature from its measurements, and compressing stacked measurements.
#include "hcommon.hpp"
using namespace hc;
// stay away from Jacobians whose triangularisation meets a column that is all but reduced already
static void generic(MatrixXd F)
{
  int m = (int)F.rows(), n = (int)F.cols();
  for (int k = 0; k < n && k < m - 1; k++) {
    double tail = 0; for (int i = k + 1; i < m; i++) {tail = tail + F(i, k) * F(i, k);}
    sym::assume_le(1e-6, tail);
    if (k + 1 == n) {break;}
    double b = std::sqrt(F(k, k) * F(k, k) + tail); if (F(k, k) >= 0) {b = -b;}
    VectorXd v = VectorXd::Zero(m); v[k] = F(k, k) - b; for (int i = k + 1; i < m; i++) {v[i] = F(i, k);}
    double vv = v.dot(v);
    for (int j = k + 1; j < n; j++) {double d = 0; for (int i = k; i < m; i++) {d = d + v[i] * F(i, j);} for (int i = k; i < m; i++) {F(i, j) = F(i, j) - v[i] * (2 * d / vv);}}
  }
}
// what the projection is: fed with the identity it returns the projection itself
static void project(const MatrixXd & Hf, const std::string & l, double tol = 1e-9)
{
  int m = (int)Hf.rows(), n = (int)Hf.cols();
  MatrixXd N = MatrixXd::Identity(m, m); VectorXd r = sym::vecn("r", m, -1, 1), q = r;
  if (n > 1) {generic(Hf);}
  ApplyLeftNullspace(Hf, N, q);
  sym::check((int)N.rows() == m - n && (int)N.cols() == m && (int)q.size() == m - n, l + ": size");
  if ((int)N.rows() != m - n || (int)N.cols() != m || (int)q.size() != m - n) {return;}
  sym::eqm(N * Hf, MatrixXd::Zero(m - n, n), l + ": feature removed", tol);
  sym::eqm(N * N.transpose(), MatrixXd::Identity(m - n, m - n), l + ": noise stays white", tol);
  sym::eqm(q, N * r, l + ": residual projected alike", tol);
  MatrixXd H(m, 2); for (int i = 0; i < m; i++) {H(i, 0) = sym::real("h" + std::to_string(i), -1, 1); H(i, 1) = 0.25 * (i + 1);}
  MatrixXd H2 = H; VectorXd q2 = r;
  ApplyLeftNullspace(Hf, H2, q2);
  sym::eqm(H2, N * H, l + ": Jacobian projected alike", tol);
}
SCENARIO(nullspace_column) {project(sym::mat("f", 2 + sym::choice("rows", 2), 1), "one unknown");}
SCENARIO(nullspace_two) {
  MatrixXd F(3, 2); F << 1, 0.5, -0.75, 1, 0.25, -1;
  int k = sym::choice("entry", 6); F(k / 2, k % 2) = sym::real("f", -2, 2);
  project(F, "two unknowns");
}
// two and three sightings of a point: one entry of the Jacobian varies
SCENARIO(nullspace_point)
{
  int m = 4 + 2 * sym::choice("sightings", 2);
  MatrixXd F(6, 3);
  F << 1, 0, -1, 0, 1, -0.5, 1, 0.25, -2, 0, 1, -3, 1, 0.5, -4, 0.125, 1, -5;
  MatrixXd G = F.topRows(m);
  G(sym::choice("entry", m), 2) = sym::real("f", -2, 2);
  project(G, "point", 1e-8);
}
static void compress(const MatrixXd & J0, const VectorXd & r0, const std::string & l, double tol = 1e-7)
{
  MatrixXd J = J0; VectorXd r = r0;
  CompressMeasurements(J, r);
  sym::check(J.rows() == r.size() && J.cols() == J0.cols(), l + ": size");
  if (J.rows() != r.size() || J.cols() != J0.cols()) {return;}
  sym::check(J.rows() <= std::max((long)J0.cols(), (long)0) || J0.rows() < J0.cols(), l + ": no more rows than states");
  sym::eqm(J.transpose() * J, J0.transpose() * J0, l + ": information kept", tol);
  sym::eqm(J.transpose() * r, J0.transpose() * r0, l + ": information vector kept", tol);
}
SCENARIO(compress_column) {int m = 1 + sym::choice("rows", 3); compress(sym::mat("j", m, 1, -1, 1), sym::vecn("r", m, -1, 1), "one state");}
SCENARIO(compress_two) {MatrixXd J = sym::mat("j", 2, 2, -1, 1); 
  // exactly zero, or not negligible
  for (int i = 0; i < 2; i++) {int z = sym::choice("sign" + std::to_string(i), 3) - 1; if (z == 0) {J(i, 0) = 0;} else {sym::assume_le(1e-3, z * J(i, 0));}}
  if (!sym::thorough()) {J(0, 1) = sym::flag("zero") ? 0 : 0.5;}
  compress(J, sym::vecn("r", 2, -1, 1), "two states");}
SCENARIO(compress_tall)
{
  MatrixXd J(3, 2); J << 1, 0.5, -0.75, 1, 0.5, -0.25;
  int k = sym::choice("entry", 6); J(k / 2, k % 2) = sym::real("j", -1, 1);
  if (sym::thorough()) {int o = (k + 1) % 6; J(o / 2, o % 2) = sym::real("i", -1, 1);}
  compress(J, sym::vecn("r", 3, -1, 1), "more measurements than states");
}
SCENARIO(compress_fat) {compress(sym::mat("j", 2, 3, -1, 1), sym::vecn("r", 2, -1, 1), "fewer measurements than states");}
// measurements that touch only some of the states: any pattern of empty entries
SCENARIO(compress_sparse)
{
  int n = 3, m = sym::thorough() ? 4 : 3;
  MatrixXd J = MatrixXd::Zero(m, n); int pat = sym::choice("pattern", 1 << n), row = sym::choice("row", m);
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < n; j++) {J(i, j) = ((i + 2) * (j + 3) % 5 - 2) * 0.25;}
  }
  for (int j = 0; j < n; j++) {if (pat >> j & 1) {J.col(j).setZero();}}
  int z = sym::choice("empty_row", m + 1); if (z < m) {J.row(z).setZero();}
  for (int j = 0; j < n; j++) {if (!(pat >> j & 1) && row != z) {J(row, j) = sym::real("j", -1, 1); break;}}
  compress(J, sym::vecn("r", m, -1, 1), "sparse measurements");
}
// as many states as a filter has; the entries of the last state vary
SCENARIO(compress_many)
{
  int n = 12, m = 12;
  MatrixXd J(m, n);
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < n; j++) {J(i, j) = ((i * 7 + j * 5 + i * j * 3 + 1) % 11 - 5) * 0.25;}
  }
  J(sym::choice("row", sym::thorough() ? m : 4), n - 1) = sym::real("j", -1, 1);
  compress(J, sym::vecn("r", m, -1, 1), "many states");
}
