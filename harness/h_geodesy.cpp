// Geodetic, earth-centred, east-north-up and local coordinates.
#include "hcommon.hpp"
#include "utility/gps_helper.hpp"
using namespace hc;
static const double A = 6378137.0, F = 3.35281066474748071998e-3, D2R = M_PI / 180;
static Vector3d place(const std::string & n)
{
  return Vector3d(sym::real(n + ".lat", -89.5, 89.5), sym::real(n + ".lon", -180, 180), sym::real(n + ".alt", -10000, 10000));
}
static Vector3d far(const std::string & n) {return sym::vec3(n, -1e4, 1e4);}
SCENARIO(ellipsoid)
{
  // the foot of the vertical lies on the WGS84 ellipsoid, and the vertical is its normal there
  Vector3d p = place("p");
  Vector3d foot = lla_to_ecef(Vector3d(p[0], p[1], 0)), e = lla_to_ecef(p);
  double sl = std::sin(p[0] * D2R), cl = std::cos(p[0] * D2R);
  Vector3d up(cl * std::cos(p[1] * D2R), cl * std::sin(p[1] * D2R), sl);
  sym::eqm(e, foot + p[2] * up, "height along the vertical", 1e-6);
  double b2 = (1 - F) * (1 - F);
  sym::eq((foot[0] * foot[0] + foot[1] * foot[1] + foot[2] * foot[2] / b2) / (A * A), 1.0, "foot on the ellipsoid", 1e-9);
  Vector3d n(foot[0], foot[1], foot[2] / b2);
  sym::eqm(n.cross(up) / A, Vector3d(0, 0, 0), "vertical normal to the ellipsoid", 1e-9);
  sym::le(0.9 * A, n.dot(up), "vertical points outwards");
}
SCENARIO(frames)
{
  Vector3d ref = place("r"), v = far("v");
  sym::eqm(ecef_to_enu(enu_to_ecef(v, ref), ref), v, "east-north-up there and back", 1e-6);
  Vector3d o = lla_to_ecef(ref), x = enu_to_ecef(v, ref);
  sym::eq((x - o).squaredNorm() / 1e8, v.squaredNorm() / 1e8, "distance", 1e-9);
  sym::eqm(enu_to_ecef(Vector3d(0, 0, 0), ref), o, "origin", 1e-6);
}
SCENARIO(axes)
{
  // at the reference: longitude is east, latitude north, height up
  Vector3d ref = place("r");
  double sl = std::sin(ref[0] * D2R), cl = std::cos(ref[0] * D2R), e2 = F * (2 - F);
  double w = std::sqrt(1 - e2 * sl * sl), N = A / w, M = A * (1 - e2) / (w * w * w);
  double rate[3] = {(M + ref[2]) * D2R, (N + ref[2]) * cl * D2R, 1};
  int row[3] = {1, 0, 2};
  for (int k = 0; k < 3; k++) {
    VectorXd d = sym::derivative([&](double e) {Vector3d p = ref; p[k] = p[k] + e; return VectorXd(lla_to_enu(p, ref));});
    for (int i = 0; i < 3; i++) {
      sym::eq(d[i] / 1e5, i == row[k] ? rate[k] / 1e5 : 0.0, k == 0 ? "latitude is north" : k == 1 ? "longitude is east" : "height is up", sym::native() ? 1e-6 : 1e-9);
    }
  }
  sym::eqm(lla_to_enu(ref, ref), Vector3d(0, 0, 0), "reference is the origin", 1e-6);
}
SCENARIO(heading)
{
  Vector3d v = far("v"); double a = sym::real("a", -7, 7);
  sym::eqm(local_to_enu(enu_to_local(v, a), a), v, "local frame there and back", 1e-6);
  sym::eqm(enu_to_local(local_to_enu(v, a), a), v, "local frame there and back", 1e-6);
  double c = std::cos(a), s = std::sin(a);
  sym::eqm(enu_to_local(v, a), Vector3d(c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]), "turned about the vertical", 1e-6);
}
SCENARIO(metres)
{
  double m = sym::real("m", -1e4, 1e4);
  sym::eq(wgs84_m_to_deg(m), m / (A * D2R), "metres of latitude");
}
