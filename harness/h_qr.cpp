// The orthogonal-triangular reduction that the square-root form relies on.
#include "hcommon.hpp"
using namespace hc;
static void contract(const MatrixXd & A, const MatrixXd & B)
{
  MatrixXd R = QR_r(A, B);
  sym::check(R.rows() == A.cols() && R.cols() == A.cols(), "square result");
  if (R.rows() != A.cols() || R.cols() != A.cols()) {return;}
  for (int j = 0; j < R.cols(); j++) {
    for (int i = j + 1; i < R.rows(); i++) {sym::eq(R(i, j), 0.0, "upper triangular");}
  }
  sym::eqm(R.transpose() * R, A.transpose() * A + B.transpose() * B, "preserves the sum of squares");
}
SCENARIO(one_column) {contract(sym::mat("A", 2, 1), sym::mat("B", 1, 1));}
SCENARIO(two_triangular) {contract(sym::uppermat("A", 2), sym::uppermat("B", 2));}
SCENARIO(two_general) {contract(sym::mat("A", 2, 2), sym::uppermat("B", 2));}
SCENARIO(two_below) {contract(sym::uppermat("A", 2), sym::mat("B", 2, 2));}
SCENARIO(tall) {contract(sym::mat("A", 1, 1), sym::mat("B", 3, 1)); contract(sym::mat("C", 3, 1), sym::mat("D", 1, 1));}
SCENARIO(row_over_triangular) {contract(sym::mat("A", 1, 2), sym::uppermat("B", 2));}
SCENARIO(noise_is_diagonal)
{
  MatrixXd B = MatrixXd::Zero(3, 3);
  for (int i = 0; i < 3; i++) {B(i, i) = sym::real("b", 0.125, 2);}
  contract(sym::uppermat("A", 3), B);
}
// the shape of a measurement update: noise and carried covariance in one column, prior below
SCENARIO(measurement)
{
  if (!sym::thorough()) {return;}
  MatrixXd A = MatrixXd::Zero(1, 3), B = MatrixXd::Zero(2, 3);
  A(0, 0) = sym::real("r", 0.125, 2);
  B(0, 0) = sym::real("g0", 0.125, 2); B(1, 0) = sym::real("g1", -2, 2);
  B(0, 1) = 1.5; B(0, 2) = sym::real("p01", -2, 2); B(1, 2) = 0.75;
  contract(A, B);
}
