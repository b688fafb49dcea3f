// Simulated pictures of features: which of them are seen, where, and new ones when there are too few.
#include "hmsckf.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "utility/sim/sim_rng.hpp"
#include <opencv2/calib3d.hpp>
using namespace hc;
#ifdef SYM_BUILD
namespace cv {
// the pinhole camera with lens distortion, as documented (its replay uses the real one); attitudes are exact
void projectPoints(InputArray points, InputArray r, InputArray t, InputArray k, InputArray d, OutputArray out, OutputArray, double)
{
  Mat P = points.getMat(), T = t.getMat(), K = k.getMat(), D = d.getMat(), R; Rodrigues(r, R); int n = (int)P.total();
  out.create(n, 1, CV_64FC2); Mat O = out.getMat(); const Point3d * p = P.ptr<Point3d>(); Point2d * o = O.ptr<Point2d>();
  Intrinsics c; c.k_1 = D.at<double>(0); c.k_2 = D.at<double>(1); c.p_1 = D.at<double>(2); c.p_2 = D.at<double>(3);
  for (int i = 0; i < n; i++) {
    double x[3], q[3] = {p[i].x, p[i].y, p[i].z};
    for (int a = 0; a < 3; a++) {x[a] = T.at<double>(a); for (int b = 0; b < 3; b++) {double e = R.at<double>(a, b); for (double f : {0.0, 1.0, -1.0, 0.6, -0.6, 0.8, -0.8}) {if (std::abs(e - f) < 1e-6) {e = f;}} if (e != 0) {x[a] += e * q[b];}}}
    double w = __sym_peek(x[2]) == 0 ? 1 : x[2]; Vector2d v = lens(Vector2d(x[0] / w, x[1] / w), c);
    o[i].x = K.at<double>(0, 0) * v[0] + K.at<double>(0, 2); o[i].y = K.at<double>(1, 1) * v[1] + K.at<double>(1, 2);
  }
}
}
#endif
namespace {
struct Stand : TruthEngine
{
  Vector3d p = sym::vec3("p"); Quaterniond q{0.5, 0.5, -0.5, 0.5}; std::vector<double> times;
  Stand() : TruthEngine(10, logger()) {}
  Vector3d GetBodyPosition(double t) override {return p * (1 + t);}
  Vector3d GetBodyVelocity(double) override {return Vector3d(0, 0, 0);}
  Vector3d GetBodyAcceleration(double) override {return Vector3d(0, 0, 0);}
  Quaterniond GetBodyAngularPosition(double t) override {return t > 1 ? q : Quaterniond(1, 0, 0, 0);}
  Vector3d GetBodyAngularRate(double) override {return Vector3d(0, 0, 0);}
  Vector3d GetBodyAngularAcceleration(double) override {return Vector3d(0, 0, 0);}
};
int draws = 0;
}
double SimRNG::UniRand(double lo, double hi)
{
  int k = draws++ % 3; std::string n = std::to_string(draws - 1); sym::check(lo == 0, "drawn from zero");
  if (k == 2) {return hi * (draws > 3 ? 0.125 : 0.5);}
  const double part[2] = {0.07, 0.93}; return hi * part[sym::choice("at" + n, 2)];
}
static void picture(bool errors, bool few, bool bent)
{
  draws = 0; auto truth = std::make_shared<Stand>(); auto e = std::make_shared<EKF>(params());
  Intrinsics c; c.f_x = 0.008; c.f_y = 0.01; c.pixel_size = 1e-4; c.width = 64; c.height = 40; if (bent) {c.k_1 = 0.125; c.k_2 = -0.0625; c.p_1 = 0.03125; c.p_2 = -0.015625;}   // 80 and 100 pixels
  const unsigned id = 4; if (bent) {truth->p = Vector3d(0.5, -1, 0.25);} Vector3d pc = bent ? Vector3d(0.25, 0.5, -0.125) : Vector3d(sym::vec3("pc")); Quaterniond qc = QC[0]; if (sym::flag("tilted")) {qc = Quaterniond(0.8, 0, 0.6, 0);}
  truth->SetCameraPosition(id, pc); truth->SetCameraAngularPosition(id, qc); truth->SetCameraIntrinsics(id, c); truth->SetCameraPosition(id + 1, Vector3d(9, 9, 9)); truth->SetCameraAngularPosition(id + 1, Quaterniond(0, 1, 0, 0));
  double t = 2; Vector3d pb = truth->p * (1 + t); Quaterniond qb = truth->q; Matrix3d R = (qb * qc).toRotationMatrix(); Vector3d o = pb + qb * pc;
  truth->m_feature_points.clear(); truth->m_feature_points_map.clear();
  const double depth[4] = {2, -2, 0.25, -0.125}; std::vector<Vector3d> at; int old = few ? 1 : 2;
  for (int i = 0; i < old; i++) {
    double z = depth[i == 0 ? sym::choice("depth", 4) : 1 - sym::choice("behind", 2)]; if (i == 1 && bent) {z = 2;}
    std::string n = std::to_string(i); double a = 0.125, b = -0.0625;
    if (i == 0) {bool sideways = !bent || sym::flag("sideways"); if (sideways) {a = sym::real("a" + n, -0.75, 0.75);} if (!bent || !sideways) {b = sym::real("b" + n, -0.5, 0.5);}}
    Vector3d x = o + R * Vector3d(a * z, b * z, z); at.push_back(x); truth->m_feature_points.push_back(cv::Point3d(x[0], x[1], x[2])); truth->m_feature_points_map[(unsigned)i] = truth->m_feature_points.back();
  }
  SimFeatureTracker::Parameters sp; FeatureTracker::Parameters tp; tp.camera_id = id; tp.logger = logger(); tp.ekf = e; tp.min_track_length = 2; tp.max_track_length = 9; sp.tracker_params = tp; sp.no_errors = !errors; sp.feature_count = few ? 2 : 0; SimFeatureTracker k(sp, truth);
  auto seen = k.GetVisibleKeypoints(t);
  auto all = truth->GetFeatures(); sym::check((int)all.size() >= old, "features stay"); if ((int)all.size() < old) {return;}
  for (size_t i = 0; i < all.size(); i++) {
    cv::Point3d f = truth->GetFeature((int)i), g = all[i]; sym::eq(f.x, g.x, "number of a feature"); sym::eq(f.y, g.y, "number of a feature"); sym::eq(f.z, g.z, "number of a feature");
    if ((int)i < old) {sym::eqm(Vector3d(g.x, g.y, g.z), at[i], "features do not move");}
  }
  size_t j = 0, visible = 0; double slack = errors ? 0.5 + 1e-4 : 1e-4;
  for (size_t i = 0; i < all.size(); i++) {
    Vector3d x = R.transpose() * (Vector3d(all[i].x, all[i].y, all[i].z) - o); Vector2d v = lens(Vector2d(x[0] / x[2], x[1] / x[2]), c); double px = 32 + 80 * v[0], py = 20 + 100 * v[1];
    bool there = j < seen.size() && seen[j].class_id == (int)i;
    if (there) {
      visible += (int)i < old;
      sym::le(0, x[2], "only what is in front of the camera is seen", 1e-4); sym::le(0, px, "what is seen is in the picture", 1e-4); sym::le(px, 64, "what is seen is in the picture", 1e-4); sym::le(0, py, "what is seen is in the picture", 1e-4); sym::le(py, 40, "what is seen is in the picture", 1e-4);
      double sx = seen[j].pt.x, sy = seen[j].pt.y; sym::le(sx, px + slack, "where it is seen", 1e-4); sym::le(px - slack, sx, "where it is seen", 1e-4); sym::le(sy, py + slack, "where it is seen", 1e-4); sym::le(py - slack, sy, "where it is seen", 1e-4);
      j++; continue;
    }
    if (x[2] <= 0) {continue;}
    // not seen: it lies outside
    double in = 1e-4; bool inside = px > in && px < 64 - in && py > in && py < 40 - in; sym::check(!inside, "what is in front and in the picture is seen");
    if ((int)i >= old && !bent) {sym::check(false, "new features are seen");}
  }
  sym::check(j == seen.size(), "every feature once, in order");
  if (few) {sym::check((int)all.size() == old + 2 - (int)visible, "as many new features as are missing");} else {sym::check((int)all.size() == old, "no new features");}
}
SCENARIO(exact) {picture(false, false, false);}
SCENARIO(rounded) {picture(true, false, false);}
SCENARIO(distorted) {picture(false, false, true);}
SCENARIO(added) {picture(false, true, false);}
// features on the walls of the room
SCENARIO(walls)
{
  Stand s; double half = s.m_room_size / 2; int n = 0; for (auto & f : s.GetFeatures()) {int on = (std::abs(f.x) == half) + (std::abs(f.y) == half) + (std::abs(f.z) == half); n++; sym::check(on >= 1 && std::abs(f.x) <= half && std::abs(f.y) <= half && std::abs(f.z) <= half, "features are on the walls");}
  sym::check(n > 0 && (int)s.m_feature_points_map.size() == n, "features are numbered");
}
