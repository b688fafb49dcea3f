// The GPS reference: alignment of the local frame with the earth.
#include "hmeas.hpp"
#include "ekf/update/gps_updater.hpp"
#include "utility/gps_helper.hpp"
using namespace hc;
static std::vector<Vector3d> pattern(bool line = false)
{
  if (line) {return {Vector3d(0, 0, 1), Vector3d(16, 8, 0), Vector3d(24, 12, 2), Vector3d(-8, -4, -1)};}
  return {Vector3d(0, 0, 1), Vector3d(16, 2, 0), Vector3d(20, -12, 2), Vector3d(-8, 4, -1)};
}
static Matrix3d turn(double c, double s) {Matrix3d R; R << c, -s, 0, s, c, 0, 0, 0, 1; return R;}
// headings with exact sine and cosine
static const double CS[6][2] = {{1, 0}, {0.6, 0.8}, {0.6, -0.8}, {-0.8, 0.6}, {-0.6, -0.8}, {0, -1}};

static const Vector3d ANT(0.5, -1, 0.25);
static const Quaterniond ATT[4] = {Quaterniond(0.5, 0.5, -0.5, 0.5), Quaterniond(0.5, -0.5, 0.5, 0.5), Quaterniond(1, 0, 0, 0), Quaterniond(0.5, 0.5, 0.5, -0.5)};
static const Vector3d PLACE[3] = {Vector3d(30.5, -96.25, 80), Vector3d(-33.75, 151.0, 20), Vector3d(58.0, 4.5, 300)};
// earth-centred position of the argument of the last conversion to geodetic coordinates
static Vector3d placed; static bool caught;
#ifdef SYM_BUILD
// the conversion from earth-centred to geodetic coordinates is not encodable (P28): it is replaced by one of the
// concrete witness of its argument, and what it was asked to convert is looked at instead
Vector3d ecef_to_lla(const Vector3d & e)
{
  placed = e; caught = true;
  double x = __sym_peek(e[0]), y = __sym_peek(e[1]), z = __sym_peek(e[2]), f = 3.35281066474748071998e-3, a = 6378137.0, e2 = f * (2 - f);
  double w = std::sqrt(x * x + y * y), lat = std::atan2(z, w * (1 - e2)), alt = 0;
  for (int i = 0; i < 12; i++) {
    double s = std::sin(lat), n = a / std::sqrt(1 - e2 * s * s);
    alt = std::abs(lat) < 0.7 ? w / std::cos(lat) - n : z / s - n * (1 - e2);
    lat = std::atan2(z, w * (1 - e2 * n / (n + alt)));
  }
  return Vector3d(lat * 180 / M_PI, std::atan2(y, x) * 180 / M_PI, alt);
}
#endif
// geodetic readings of a pattern around a place, and the same positions east-north-up of their mean
struct Readings {std::vector<Vector3d> lla, enu; Vector3d ref;};
static Readings readings(int place, std::vector<Vector3d> pts)
{
  Readings r; Vector3d mean(0, 0, 0);
  for (auto & p : pts) {
    r.lla.push_back(enu_to_lla(p, PLACE[place]));
    mean += lla_to_ecef(r.lla.back());
  }
  r.ref = ecef_to_lla(Vector3d(mean / (double)pts.size()));
  for (auto & l : r.lla) {r.enu.push_back(lla_to_enu(l, r.ref));}
  return r;
}
static void start(EKF & e)
{
  VectorXd one = VectorXd::Ones(12); World w(e);
  e.Initialize(0, BodyState()); w.apply(GPS_E, 5, one);
  e.m_state.gps_states[5].pos_a_in_b = ANT;
  e.m_is_gravity_initialized = true;
}
// the body is where its antenna is at `at`
static void put(EKF & e, const Vector3d & at, int k)
{
  BodyState b; b.index = e.m_state.body_state.index; b.ang_b_to_l = ATT[k % 4]; b.pos_b_in_l = at - sym::rot(ATT[k % 4]) * ANT;
  e.m_state.body_state = b;
  e.m_state.gps_states[5].pos_a_in_b = ANT;
}
SCENARIO(placement)
{
  int h = sym::choice("heading", 6), place = sym::choice("place", sym::thorough() ? 3 : 2);
  EKF::Parameters p = params(); p.gps_init_type = GpsInitType::BASELINE_DIST; p.gps_init_baseline_dist = 8;
  EKF e(p); start(e);
  Readings r = readings(place, pattern());
  Matrix3d R = turn(CS[h][0], CS[h][1]); Vector3d t = sym::vec3("t", -100, 100);
  GpsUpdater u(5, true, "", 0.0, logger());
  for (int k = 0; k < 4; k++) {
    put(e, R * r.enu[k] + t, k); e.m_cov.setZero();
    sym::check(!e.IsLlaInitialized(), "no reference before the fourth reading");
    u.UpdateEKF(e, 0.5 * k, r.lla[k], Matrix3d::Identity());
  }
  sym::check(e.IsLlaInitialized(), "reference after a long enough baseline");
  if (!e.IsLlaInitialized()) {return;}
  if (sym::native()) {placed = lla_to_ecef(e.GetReferenceLLA());}
  sym::eqm(R * ecef_to_enu(placed, r.ref) + t, Vector3d(0, 0, 0), "reference at the local origin", 1e-3);
  double a = e.GetReferenceAngle();
  sym::eq(std::cos(a), CS[h][0], "heading", 1e-6); sym::eq(std::sin(a), CS[h][1], "heading", 1e-6);
  if (sym::native()) {for (int k = 0; k < 4; k++) {sym::eqm(enu_to_local(lla_to_enu(r.lla[k], e.GetReferenceLLA()), a), R * r.enu[k] + t, "readings agree with the antenna", 0.02);}}
}
SCENARIO(alignment)
{
  int h = sym::choice("heading", 6);
  Matrix3d R = turn(CS[h][0], CS[h][1]); Vector3d t = sym::vec3("t", -1e3, 1e3), s(300, -400, 20);
  std::vector<Vector3d> src, tgt;
  for (auto & p : pattern(sym::flag("straight"))) {src.push_back(p + s); tgt.push_back(R * p + t);}
  Eigen::Affine3d T; double ps, as;
  sym::check(kabsch_2d(tgt, src, T, ps, as), "aligned");
  sym::eqm(T.linear(), R, "rotation", 1e-9);
  sym::eqm(T.translation(), t - R * s, "translation", 1e-6);
  sym::eq(ps, 0, "position error", 1e-6);
  sym::eq(std::cos(affine_angle(T)), CS[h][0], "angle", 1e-6); sym::eq(std::sin(affine_angle(T)), CS[h][1], "angle", 1e-6);
}

static std::vector<Vector3d> noisy(int k)
{
  if (k == 0) {return {Vector3d(0.25, 0, 1), Vector3d(16, 1.5, 0), Vector3d(20, -12, 2.25), Vector3d(-8, 4.5, -1)};}
  if (k == 1) {return {Vector3d(0, 1, 1), Vector3d(15, 2, 0), Vector3d(20, -14, 2), Vector3d(-9, 4, -1)};}
  return {Vector3d(1, 0, 1), Vector3d(15, 1.5, 0), Vector3d(19, -11.5, 2), Vector3d(-7.5, 4, -1.5)};
}
// the best fit to readings with errors, wherever the frames have their origins
SCENARIO(best_fit)
{
  int h = sym::choice("heading", 6);
  Matrix3d R = turn(CS[h][0], CS[h][1]); Vector3d t = sym::vec3("t", -1e3, 1e3), s(300, -400, 20);
  std::vector<Vector3d> src, tgt, src0, tgt0; auto a = pattern(), b = noisy(sym::choice("errors", 3));
  Vector3d ms(0, 0, 0), mt(0, 0, 0);
  for (int i = 0; i < 4; i++) {
    src0.push_back(a[i]); tgt0.push_back(R * b[i]); src.push_back(a[i] + s); tgt.push_back(R * b[i] + t);
    ms += src0[i] / 4; mt += tgt0[i] / 4;
  }
  Eigen::Affine3d T, T0; double ps, as, ps0, as0;
  sym::check(kabsch_2d(tgt, src, T, ps, as) && kabsch_2d(tgt0, src0, T0, ps0, as0), "aligned");
  // proper rotation about the vertical that leaves no torque, and is a minimum
  double c = T.linear()(0, 0), sn = T.linear()(1, 0), torque = 0, dot = 0;
  sym::eqm(T.linear(), turn(c, sn), "turned about the vertical", 1e-9); sym::eq(c * c + sn * sn, 1, "turned about the vertical", 1e-9);
  for (int i = 0; i < 4; i++) {
    Vector3d x = T.linear() * (src0[i] - ms), y = tgt0[i] - mt;
    torque = torque + x[0] * y[1] - x[1] * y[0]; dot = dot + x[0] * y[0] + x[1] * y[1];
  }
  sym::eq(torque, 0, "least squares", 1e-6); sym::le(1, dot, "least squares");
  sym::eqm(T.translation(), (mt + t) - T.linear() * (ms + s), "centroids coincide", 1e-6);
  sym::eq(ps, ps0, "position error independent of the origins", 1e-6);
  sym::eq(as, as0, "heading error independent of the origins", 1e-6);
}
// standard errors of an alignment, from its residuals
static void errors(const std::vector<Vector3d> & src, const std::vector<Vector3d> & tgt, double & ps, double & as)
{
  Eigen::Affine3d T; double x, y; kabsch_2d(tgt, src, T, x, y);
  Vector3d me(0, 0, 0), mt(0, 0, 0); std::vector<Vector3d> e; int n = (int)src.size(), m = 0; double q = 0, w = 0;
  for (int i = 0; i < n; i++) {e.push_back(tgt[i] - T * src[i]); me += e[i] / n; mt += tgt[i] / n;}
  for (int i = 0; i < n; i++) {
    q += (e[i] - me).squaredNorm(); double d = (tgt[i] - mt).norm();
    if (d > e[i].norm()) {w += e[i].squaredNorm() / (d * d); m++;}
  }
  ps = std::sqrt(q) / n; as = std::sqrt(w) / m;
}
SCENARIO(accept_by_error)
{
  EKF::Parameters p = params(); p.gps_init_type = GpsInitType::ERROR_THRESHOLD;
  bool which = sym::flag("by_heading");
  Readings r = readings(0, noisy(sym::choice("errors", 3))); auto a = pattern();
  double ps, as; errors(r.enu, a, ps, as);
  double tp = which ? 10 : sym::real("pos", 0.001, 2), slope = sym::real("slope", 0.001, 2), ta = which ? std::atan(slope) : 1.25;
  p.gps_init_pos_thresh = tp; p.gps_init_ang_thresh = ta;
  bool yes = sym::flag("accept");
  if (which) {if (yes) {sym::assume_le(as + 1e-3, slope);} else {sym::assume_le(slope, as - 1e-3);}}
  else {if (yes) {sym::assume_le(ps + 1e-3, tp);} else {sym::assume_le(tp, ps - 1e-3);}}
  EKF e(p); start(e); GpsUpdater u(5, true, "", 0.0, logger());
  for (int k = 0; k < 4; k++) {
    put(e, a[k], k);
    sym::check(!e.IsLlaInitialized(), "no reference before the fourth reading");
    u.UpdateEKF(e, 0.5 * k, r.lla[k], Matrix3d::Identity());
  }
  sym::check(e.IsLlaInitialized() == yes, "reference accepted by its errors");
}
SCENARIO(accept_by_baseline)
{
  EKF::Parameters p = params(); p.gps_init_type = GpsInitType::BASELINE_DIST;
  Readings r = readings(sym::choice("place", 2), noisy(sym::choice("errors", 3)));
  double d = 0; for (auto & x : r.enu) {for (auto & y : r.enu) {d = std::max(d, std::sqrt((x[0] - y[0]) * (x[0] - y[0]) + (x[1] - y[1]) * (x[1] - y[1])));}}
  double base = sym::real("baseline", 1, 200); p.gps_init_baseline_dist = base;
  bool yes = sym::flag("accept");
  if (yes) {sym::assume_le(base, d - 3);} else {sym::assume_le(d + 3, base);}
  EKF e(p); start(e); GpsUpdater u(5, true, "", 0.0, logger());
  for (int k = 0; k < 4; k++) {
    put(e, r.enu[k], k);
    sym::check(!e.IsLlaInitialized(), "no reference before the fourth reading");
    u.UpdateEKF(e, 0.5 * k, r.lla[k], Matrix3d::Identity());
  }
  sym::check(e.IsLlaInitialized() == yes, "reference accepted by its baseline");
}
// a reference given beforehand, or accepted, stays
SCENARIO(constant)
{
  EKF::Parameters p = params(); p.gps_init_type = GpsInitType::CONSTANT;
  p.pos_e_in_g = Vector3d(sym::real("lat", 20, 21), sym::real("lon", 30, 31), sym::real("alt", -50, 50)); p.ang_l_to_e = sym::real("ang", -3, 3);
  EKF e(p); start(e); GpsUpdater u(5, true, "", 0.0, logger());
  for (int k = 0; k < 2; k++) {
    sym::check(e.IsLlaInitialized(), "reference from the start");
    sym::eqm(e.GetReferenceLLA(), p.pos_e_in_g, "reference as given"); sym::eq(e.GetReferenceAngle(), p.ang_l_to_e, "heading as given");
    if (k == 0) {put(e, Vector3d(0, 0, 0), 0); u.UpdateEKF(e, 0.5, Vector3d(20.5, 30.5, 10), Matrix3d::Identity());}
  }
}
// the readings remembered while waiting correct the filter together, each with the antenna position of its time
SCENARIO(catch_up)
{
  EKF::Parameters p = params(); p.gps_init_type = GpsInitType::BASELINE_DIST; p.gps_init_baseline_dist = 1e6; p.use_root_covariance = sym::flag("root");
  EKF a(p), b(p); int n = 4 + 4 * sym::choice("readings", 2);
  GpsUpdater u(5, true, "", 0.0, logger());
  std::vector<Vector3d> pts = pattern(), more = noisy(1); if (n > 4) {pts.insert(pts.end(), more.begin(), more.end());}
  Vector3d ref = PLACE[0]; double ang = 0.5;
  start(a); start(b);
  std::vector<Vector3d> at;
  Vector3d x = sym::vec3("x", -1, 1);
  for (int k = 0; k < n; k++) {
    Vector3d q = (k % 2 ? pts[k] : Vector3d(pts[k] + Vector3d(0.25, -0.5, 0.125))) + x; at.push_back(q);
    put(a, q, k); u.UpdateEKF(a, 0.5 * k, enu_to_lla(pts[k], ref), Matrix3d::Identity());
  }
  for (EKF * e : {&a, &b}) {
    put(*e, at[n - 1], n - 1);
    e->m_cov = MatrixXd::Identity(21, 21) * 0.5; e->m_cov(0, 3) = 0.125; if (!p.use_root_covariance) {e->m_cov(3, 0) = 0.125;}
    e->m_cov.block(9, 9, 3, 3).setZero();
    e->SetGpsReference(ref, ang);
  }
  b.m_state = a.m_state; b.m_cov = a.m_cov; b.m_current_time = a.m_current_time;
  u.MultiUpdateEKF(a);
  MatrixXd J = MatrixXd::Zero(3 * n, 21); VectorXd r(3 * n);
  GpsUpdater v(5, true, "", 0.0, logger());
  for (int k = 0; k < n; k++) {
    Vector3d enu = lla_to_enu(enu_to_lla(pts[k], ref), ref);
    J.block(3 * k, 0, 3, 21) = v.GetMeasurementJacobian(b);
    r.segment<3>(3 * k) = Vector3d(std::cos(ang) * enu[0] - std::sin(ang) * enu[1], std::sin(ang) * enu[0] + std::cos(ang) * enu[1], enu[2]) - at[k];
  }
  Updater::KalmanUpdate(b, J, r, MatrixXd::Identity(3 * n, 3 * n));
  sameFilters(a, b, "catching up", false);
}
