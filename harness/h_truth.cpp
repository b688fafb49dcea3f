// Truth trajectories: velocities, accelerations and rates are the derivatives of the pose.
#include "hcommon.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "utility/sim/sim_rng.hpp"
using namespace hc;
Vector3d SimRNG::VecNormRand(const Vector3d & mean, const Vector3d &) {return mean;}                 // waypoints as given
extern "C" double modf(double x, double * whole) {*whole = std::trunc(x); return x - *whole;}
// the derivative of f at t; by differences when replayed natively
template<typename F> static auto rate(F f, double t)
{
  if (sym::native()) {const double h = 1e-5; auto a = f(t - h), b = f(t + h); decltype(a) d = (b - a) / (2 * h); return d;}
  auto d = f(t + __sym_eps()); for (int i = 0; i < d.size(); i++) {d.data()[i] = __sym_diff_eps(d.data()[i]);} return d;
}
// the derivatives of the pose at time t, by the symbolic derivative of the pose itself
static void derivatives(TruthEngine & e, double t, const std::string & l, bool turning)
{
  double tol = sym::native() ? 1e-4 : 1e-7;
  auto p = [&](double s) -> Vector3d {return e.GetBodyPosition(s);}; auto v = [&](double s) -> Vector3d {return e.GetBodyVelocity(s);};
  auto r = [&](double s) -> Eigen::Vector4d {return e.GetBodyAngularPosition(s).coeffs();}; auto w = [&](double s) -> Vector3d {return e.GetBodyAngularRate(s);};
  sym::eqm(rate(p, t), v(t), l + ": velocity", tol); sym::eqm(rate(v, t), e.GetBodyAcceleration(t), l + ": acceleration", tol);
  if (!turning) {return;}
  // angular rate in the body frame: twice the vector of conj(q) dq/dt
  Quaterniond k = sym::qmul(Quaterniond(r(t)).conjugate(), Quaterniond(rate(r, t))); Vector3d x = w(t), y = 2 * k.vec();
  sym::eqm(y, x, l + ": angular rate", tol);
  sym::eqm(rate(w, t), e.GetBodyAngularAcceleration(t), l + ": angular acceleration", tol);
}
static void still(TruthEngine & e, double t, const Vector3d & p, const Quaterniond & q, const std::string & l)
{
  sym::eqm(e.GetBodyPosition(t), p, l + ": waits at its first position"); sym::eqrot(e.GetBodyAngularPosition(t), q, l + ": waits in its first attitude");
  sym::eqm(e.GetBodyVelocity(t), Vector3d(0, 0, 0), l + ": at rest"); sym::eqm(e.GetBodyAcceleration(t), Vector3d(0, 0, 0), l + ": at rest");
  sym::eqm(e.GetBodyAngularRate(t), Vector3d(0, 0, 0), l + ": at rest"); sym::eqm(e.GetBodyAngularAcceleration(t), Vector3d(0, 0, 0), l + ": at rest");
}
static TruthEngineCyclic cyclic(double start, int turning, const Vector3d & offset = sym::vec3("po"))
{
  Vector3d af(0, 0, 0); for (int i = 0; i < 3; i++) {if (turning >> i & 1) {af[i] = sym::real("af" + std::to_string(i), 0.125, 2);}}
  return TruthEngineCyclic(sym::vec3("pf", 0.125, 2), af, offset, sym::vec3("ao", -1, 1), sym::real("pa", -2, 2), 2 * sym::real("aa", -0.5, 0.5), start, 64, logger());
}
SCENARIO(cyclic_moving)
{
  double start = sym::real("start", 0, 2), t = start + sym::real("t", 0.0625, 8);
  auto e = cyclic(start, 0); derivatives(e, t, "cyclic", false);
}
SCENARIO(cyclic_turning)
{
  double start = sym::real("start", 0, 2), t = start + sym::real("t", 0.0625, 8);
  auto e = cyclic(start, sym::choice("axes", 8)); derivatives(e, t, "cyclic", true);
}
SCENARIO(cyclic_waiting)
{
  double start = sym::real("start", 1, 2), t = sym::real("t", 0, 0.9375);
  Vector3d o = sym::vec3("po"); auto e = cyclic(start, 7, o); still(e, t, e.GetBodyPosition(start), e.GetBodyAngularPosition(start), "cyclic"); sym::eqm(e.GetBodyPosition(t), o, "cyclic: offset");
}
// splines through given poses, along fixed shapes; time free
static const std::vector<std::vector<double>> PATHS = {
  {1, 2, 3, 2, 2.5, 2, 4, 1, 2, 3, -1, 1}, {0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 1, 1, 0, 1, 1}, {-1, 0, 2, 0, 0, 2, 3, 0, 2}};
static std::vector<double> turns(int k, int n)
{
  std::vector<double> a; for (int i = 0; i < n; i++) {for (int j = 0; j < 3; j++) {a.push_back(k == 3 ? 0.125 * (i + 1) * (j + 1) - 0.25 * ((i + j) % 3) : k == j ? 0.25 + 0.5 * i - 0.125 * i * i : 0);}}
  return a;
}
SCENARIO(spline)
{
  int axis = sym::choice("axis", 4), path = axis == 3 ? 2 : sym::choice("path", (int)PATHS.size()); auto p = PATHS[path]; int n = (int)p.size() / 3; auto a = turns(axis, n);
  double start = axis < 3 && sym::flag("waits") ? 1.5 : 0, end = 8, t = start + sym::real("t", 0, end - start);
  TruthEngineSpline e(p, a, {0, 0, 0}, {0, 0, 0}, start, end, logger());
  derivatives(e, t, axis == 3 ? "spline about several axes" : "spline", true);
}
SCENARIO(spline_poses)
{
  int path = sym::choice("path", (int)PATHS.size()), axis = sym::choice("axis", 4); auto p = PATHS[path]; int n = (int)p.size() / 3; auto a = turns(axis, n);
  double start = sym::flag("waits") ? 1.5 : 0, end = 8;
  TruthEngineSpline e(p, a, {0, 0, 0}, {0, 0, 0}, start, end, logger());
  for (int what = 0; what < 2; what++) {
    auto & v = what ? a : p; std::vector<double> at(1, 0.0);
    for (int i = 1; i < n; i++) {double s = 0; for (int j = 0; j < 3; j++) {s += std::pow(v[3 * i + j] - v[3 * i - 3 + j], 2);} at.push_back(at.back() + std::sqrt(s));}
    for (int i = 0; i < n; i++) {
      double t = start + (end - start) * at[i] / at[n - 1]; if (i == n - 1) {t = end;}
      if (what) {sym::eqrot(e.GetBodyAngularPosition(t), EigVecToQuat(Vector3d(v[3 * i], v[3 * i + 1], v[3 * i + 2])), "spline: attitudes", 1e-6);} else {sym::eqm(e.GetBodyPosition(t), Vector3d(v[3 * i], v[3 * i + 1], v[3 * i + 2]), "spline: positions", 1e-6);}
    }
  }
  if (start > 0) {still(e, sym::real("t", 0, 1.4375), Vector3d(p[0], p[1], p[2]), EigVecToQuat(Vector3d(a[0], a[1], a[2])), "spline");}
  sym::eqm(e.GetBodyVelocity(start), Vector3d(0, 0, 0), "spline: starts at rest"); sym::eqm(e.GetBodyAngularRate(start), Vector3d(0, 0, 0), "spline: starts at rest");
}
// recorded poses, joined by straight lines; any poses, at fixed times
SCENARIO(recorded)
{
  int n = 3, axis = sym::choice("axis", 4); std::vector<double> times = {0, 0.5, 1.5}, p, a; for (int i = 0; i < 3 * n; i++) {p.push_back(sym::real("p" + std::to_string(i), -4, 4)); a.push_back(axis == 3 || i % 3 == axis ? sym::real("a" + std::to_string(i), -1, 1) : 0);}
  TruthEngineSmoother e(times, p, a, {0, 0, 0}, {0, 0, 0}, 0, 1.5, 8, logger());
  double t = axis == 3 ? sym::real("t", 0, 1.375) : 0.0625 * sym::choice("at", 23); int k = t < 0.5 ? 0 : 1; double f = (t - times[k]) / (times[k + 1] - times[k]);
  Vector3d q, w; for (int j = 0; j < 3; j++) {q[j] = p[3 * k + j] * (1 - f) + p[3 * k + 3 + j] * f; w[j] = a[3 * k + j] * (1 - f) + a[3 * k + 3 + j] * f;}
  sym::eqm(e.GetBodyPosition(t), q, "recorded: position"); if (axis < 3) {sym::eqm(e.GetBodyAngularPosition(t).coeffs(), EigVecToQuat(w).coeffs(), "recorded: attitude");}
  sym::check(e.m_pos.size() == 12 && e.m_vel.size() == 12 && e.m_acc.size() == 12 && e.m_ang.size() == 12 && e.m_ang_vel.size() == 12 && e.m_ang_acc.size() == 12, "recorded: samples");
  for (int i = 0; i < 11; i++) {sym::eqm((e.m_pos[i + 1] - e.m_pos[i]) * 8, e.m_vel[i], "recorded: velocity"); sym::eqm((e.m_ang[i + 1] - e.m_ang[i]) * 8, e.m_ang_vel[i], "recorded: rate");}
  for (int i = 0; i < 10; i++) {sym::eqm((e.m_vel[i + 1] - e.m_vel[i]) * 8, e.m_acc[i], "recorded: acceleration");}
  double late = sym::real("late", 1.375, 1.5); Vector3d z = e.GetBodyPosition(late); sym::eqm(z, e.m_pos[11], "recorded: holds its last sample");
}
