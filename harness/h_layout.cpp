// Sensor registration: state layout and covariance bookkeeping over registration histories.
#include "hlayout.hpp"
using namespace hc;
static const int FULL[] = {IMU_E, IMU_I, IMU_EI, GPS_E, CAM_E, FID_E};
static int anyKind(const std::string & n) {return FULL[sym::choice(n, 6)];}
// the step under test, from an arbitrary covariance
static void last(World & w, int kind, uint64_t id)
{
  VectorXd prior = sym::vecn("prior", 12, 0.25, 4);
  if (!w.checkTiling("before")) {return;}
  MatrixXd before = w.scramble("c");
  auto from = w.where();
  int added = w.apply(kind, id, prior);
  if (!w.checkTiling("after")) {return;}
  checkMoved(w, before, from, added, prior, added < 0 ? "repeated" : "registered");
}
static void run(bool root, int k1, int k2, int k3)
{
  EKF::Parameters p = params(); p.use_root_covariance = root;
  EKF ekf(p); World w(ekf);
  ekf.Initialize(0, BodyState());
  VectorXd one = VectorXd::Ones(12);
  if (k1 >= 0) {w.apply(k1, (uint64_t)__sym_integer("id1", 0, 9), one);}
  if (k2 >= 0) {w.apply(k2, (uint64_t)__sym_integer("id2", 0, 9), one);}
  last(w, k3, (uint64_t)__sym_integer("id3", 0, 9));
}
// every pair of calibrated sensors, any identifiers
SCENARIO(two_sensors) {int a = anyKind("k1"), b = anyKind("k2"); run(false, -1, a, b);}
// sensors registered while clones exist
SCENARIO(with_clone) {int b = anyKind("k2"); run(false, CAM_E, AUG, b);}
SCENARIO(with_clone_fid) {int b = anyKind("k2"); run(false, FID_E, AUG, b);}
// three of a kind in any identifier order, and mixtures around them
SCENARIO(three) {static const int s[][3] = {{IMU_EI, IMU_I, IMU_E}, {GPS_E, GPS_E, GPS_E}, {CAM_E, CAM_E, CAM_E}, {FID_E, FID_E, FID_E}, {FID_E, CAM_E, GPS_E}};
  int i = sym::choice("mix", 5); run(false, s[i][0], s[i][1], s[i][2]);}
// sensors which are not calibrated occupy no state
SCENARIO(uncalibrated) {static const int z[] = {IMU_0, GPS_0, CAM_0, FID_0};
  int a = z[sym::choice("z", 4)], b = anyKind("k"); if (sym::flag("order")) {run(false, -1, a, b);} else {run(false, -1, b, a);}}
SCENARIO(root_sensors) {int a = anyKind("k1"), b = anyKind("k2"); run(true, -1, a, b);}
SCENARIO(root_with_clone) {int b = anyKind("k2"); run(true, -1, AUG, b);}
SCENARIO(deep) {if (!sym::thorough()) {return;} int a = anyKind("k1"), b = anyKind("k2"), c = anyKind("k3"); run(sym::flag("root"), a, b, c);}
