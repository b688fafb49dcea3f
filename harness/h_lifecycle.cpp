// Feature tracks: which sightings are matched, how they form tracks, and when these reach the filter.
#include "hmsckf.hpp"
#include "sensors/camera.hpp"
#include "sensors/camera_message.hpp"
#include "trackers/feature_tracker.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_feature_tracker_message.hpp"
#include <opencv2/calib3d.hpp>
using namespace hc;
namespace {
const int N = 10;                        // features that are in every picture with any features at all; feature N is the scripted one
const float GRID = 30;
struct Script
{
  bool blank = true, there = false, outlier = false; double x = 0, y = 45;      // of the current picture
  std::vector<cv::KeyPoint> points() const
  {
    std::vector<cv::KeyPoint> p; if (blank) {return p;}
    for (int i = 0; i <= N; i++) {
      if (i == N && !there) {continue;}
      cv::KeyPoint k; k.octave = i; k.pt.y = i == N ? (float)y : 15; k.pt.x = i == N ? (float)x : 15 + GRID * i + (step % 2 ? 8 : 0);
      p.push_back(k);
    }
    return p;
  }
  int step = 0;
} script;
struct Detector2D : cv::Feature2D
{
  void detect(cv::InputArray, std::vector<cv::KeyPoint> & k, cv::InputArray) override {k = script.points();}
  void compute(cv::InputArray, std::vector<cv::KeyPoint> & k, cv::OutputArray d) override
  {
    if (k.empty()) {d.release(); return;}
    d.create((int)k.size(), 1, CV_8U); cv::Mat m = d.getMat();
    for (size_t i = 0; i < k.size(); i++) {m.at<uint8_t>((int)i, 0) = (uint8_t)k[i].octave;}
  }
};
// features are recognised by their number: an unambiguous match if the other picture has it, an ambiguous one otherwise
struct ByNumber : cv::DescriptorMatcher
{
  bool isMaskSupported() const override {return false;}
  cv::Ptr<cv::DescriptorMatcher> clone(bool) const override {return cv::makePtr<ByNumber>();}
  void knnMatchImpl(cv::InputArray q_, std::vector<std::vector<cv::DMatch>> & out, int, cv::InputArrayOfArrays, bool) override
  {
    cv::Mat q = q_.getMat(), t = trainDescCollection[0];
    for (int i = 0; i < q.rows; i++) {
      int hit = -1, other = -1;
      for (int j = 0; j < t.rows; j++) {if (t.at<float>(j, 0) == q.at<float>(i, 0)) {hit = j;} else {other = j;}}
      std::vector<cv::DMatch> m;
      if (hit >= 0) {m = {cv::DMatch(i, hit, 0.125f), cv::DMatch(i, other, 1.0f)};} else {m = {cv::DMatch(i, other, 1.0f), cv::DMatch(i, other, 1.0f)};}
      out.push_back(m);
    }
  }
  void radiusMatchImpl(cv::InputArray, std::vector<std::vector<cv::DMatch>> &, float, cv::InputArrayOfArrays, bool) override {}
};
struct Sent {double time; FeatureTrack track;};
std::vector<Sent> sent; EKF * filter;
std::vector<AugState> clones_then;
}
namespace cv {
// epipolar geometry: rejects the scripted feature (the last match) if told so
Mat findFundamentalMat(InputArray a, InputArray, int, double, double, OutputArray mask)
{
  int n = (int)a.getMat().total(); mask.create(n, 1, CV_8U); Mat m = mask.getMat();
  for (int i = 0; i < n; i++) {m.at<uint8_t>(i) = (script.outlier && i == N) ? 0 : 1;}
  return Mat();
}
}
// what is handed to the filter is recorded
void MsckfUpdater::UpdateEKF(EKF & ekf, const double time, const FeatureTracks & t, double)
{
  for (auto & x : t) {
    sent.push_back({time, x});
    for (auto & s : x.track) {
      bool known = false;
      for (auto & a : ekf.m_state.aug_states[m_id]) {if (a.frame_id == s.frame_id) {known = true; sym::eq(a.time, s.frame_time, "time of a sighting is the time of its clone");}}
      sym::check(known, "the filter remembers every sighting of the track");
    }
  }
}
// A camera takes pictures at any increasing times; in each, the scripted feature is seen, hidden or an outlier, or nothing is seen at all.
static void lifecycle(int frames, bool shrunk)
{
  EKF::Parameters p = params(); p.augmenting_type = AugmentationType::ALL; auto e = std::make_shared<EKF>(p); filter = e.get(); sent.clear();
  e->Initialize(0, BodyState()); e->InitializeGravity();
  int longest = 3 + (shrunk ? 0 : sym::choice("longest", 2)), shortest = 2 + sym::choice("shortest", 2);
  e->SetMaxTrackLength((unsigned)longest);
  Camera::Parameters cp; cp.name = "c"; cp.logger = logger(); cp.ekf = e; cp.rate = 4; cp.intrinsics.width = 320 * (shrunk ? 2 : 1); cp.intrinsics.height = 64 * (shrunk ? 2 : 1);
  Camera camera(cp);
  FeatureTracker::Parameters tp; tp.camera_id = camera.GetId(); tp.logger = logger(); tp.ekf = e; tp.min_track_length = (unsigned)shortest; tp.max_track_length = (unsigned)longest;
  tp.down_sample = shrunk; tp.down_sample_width = 320; tp.down_sample_height = 64;
  auto tracker = std::make_shared<FeatureTracker>(tp);
  tracker->m_feature_detector = cv::makePtr<Detector2D>(); tracker->m_descriptor_extractor = cv::makePtr<Detector2D>(); tracker->m_descriptor_matcher = cv::makePtr<ByNumber>();
  camera.AddTracker(tracker);
  double s = shrunk ? 2 : 1;
  struct Seen {double t, x, y;};
  std::vector<Seen> track[N + 1];             // of every feature, what is known of it and not handed over
  Seen before[N + 1]; bool was[N + 1] = {}, used[N + 1] = {}; double t = 0; size_t handed = 0;
  for (int k = 0; k < frames; k++) {
    std::string n = std::to_string(k);
    int what = sym::choice("picture" + n, k == 0 ? 3 : 4);
    script.step = k; script.blank = what == 0; script.there = what >= 1 && what != 2; script.outlier = what == 3; script.x = sym::real("x" + n, 55.0625, 55.9375); script.y = 45;
    t += sym::real("dt" + n, 0.0625, 0.5);
    CameraMessage m(cv::Mat::zeros(64 * (shrunk ? 2 : 1), 320 * (shrunk ? 2 : 1), CV_8U)); m.time = t; m.sensor_id = camera.GetId();
    camera.Callback(m);
    // what should have happened
    std::vector<std::pair<int, std::vector<Seen>>> want;
    Seen now[N + 1]; bool is[N + 1] = {};
    for (auto & q : script.points()) {is[q.octave] = true; now[q.octave] = {t, q.pt.x, q.pt.y};}
    for (int i = 0; i <= N; i++) {
      bool match = is[i] && was[i] && !(i == N && script.outlier);
      if (match) {
        if (!used[i]) {track[i].push_back(before[i]);}
        track[i].push_back(now[i]);
      }
      if (!track[i].empty() && (!match || (int)track[i].size() >= longest)) {
        if ((int)track[i].size() >= shortest) {want.push_back({i, track[i]});}
        track[i].clear();
      }
      used[i] = match; was[i] = is[i]; before[i] = now[i];
    }
    sym::check(sent.size() - handed == want.size(), "tracks are handed over when they end");
    if (sent.size() - handed != want.size()) {return;}
    for (size_t j = 0; j < want.size(); j++) {
      // find it
      const FeatureTrack * f = nullptr;
      for (size_t h = handed; h < sent.size(); h++) {if (sent[h].track.track[0].key_point.octave == want[j].first) {f = &sent[h].track; sym::eq(sent[h].time, t, "time of the update");}}
      sym::check(f != nullptr, "track of the feature"); if (!f) {return;}
      auto & w = want[j].second;
      sym::check(f->track.size() == w.size(), "every sighting, once"); if (f->track.size() != w.size()) {return;}
      for (size_t i = 0; i < w.size(); i++) {
        sym::check(f->track[i].key_point.octave == want[j].first, "of one feature");
        sym::eq(f->track[i].frame_time, w[i].t, "time of the sighting");
        double slack = shrunk ? 1 : 0;                // where a pixel of the smaller picture lies in the full one is known to half of it
        sym::le(f->track[i].key_point.pt.x, s * w[i].x + slack, "where it was seen", 1e-4); sym::le(s * w[i].x - slack, f->track[i].key_point.pt.x, "where it was seen", 1e-4);
        sym::le(f->track[i].key_point.pt.y, s * w[i].y + slack, "where it was seen", 1e-4); sym::le(s * w[i].y - slack, f->track[i].key_point.pt.y, "where it was seen", 1e-4);
      }
    }
    handed = sent.size();
    for (auto & f : tracker->m_feature_points_map) {sym::check(!f.second.empty() && f.second.back().frame_id == tracker->m_prev_frame_id, "features that are lost are forgotten");}
  }
  sym::reach("track");
}
SCENARIO(tracks) {lifecycle(sym::thorough() ? 6 : 5, false);}
SCENARIO(shrunk) {lifecycle(3, true);}
// Matches are followed if they are unambiguous both ways, and do not move more than three times as far as the average.
SCENARIO(outliers)
{
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p);
  FeatureTracker::Parameters tp; tp.camera_id = 1; tp.logger = logger(); tp.ekf = e; FeatureTracker t(tp);
  bool still = sym::flag("still"); int n = 3 + sym::choice("matches", 2); std::vector<cv::KeyPoint> now(n); std::vector<cv::DMatch> in, out; std::vector<double> d; double sum = 0;
  t.m_prev_key_points.resize(n);
  for (int i = 0; i < n; i++) {
    double move = still ? 0 : i == 0 ? sym::real("move", 0, 256) : i == 1 ? sym::real("other", 0, 8) : 0; bool sideways = i % 2;
    t.m_prev_key_points[n - 1 - i].pt = cv::Point2f(100 * i, 50); now[i].pt = cv::Point2f(100 * i, 50);
    (sideways ? now[i].pt.x : now[i].pt.y) += (float)move;
    in.push_back(cv::DMatch(n - 1 - i, i, 0)); d.push_back(move); sum += move;
  }
  t.DistanceTest(in, now, out);
  if (still) {sym::check((int)out.size() == n, "no match is dropped if nothing moves"); return;}
  size_t j = 0;
  for (int i = 0; i < n; i++) {
    bool kept = j < out.size() && out[j].trainIdx == i; if (kept) {j++;}
    double margin = d[i] - 3 * sum / n;
    if (kept) {sym::le(margin, 0, "no match moves much further than the average", 1e-3);} else {sym::le(0, margin, "matches that move like the others are kept", 1e-3);}
  }
  sym::check(j == out.size(), "no other matches");
}
SCENARIO(ambiguous)
{
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p);
  FeatureTracker::Parameters tp; tp.camera_id = 1; tp.logger = logger(); tp.ekf = e; FeatureTracker t(tp);
  int a = 2, b = 2 + sym::choice("seen", 2); std::vector<std::vector<cv::DMatch>> fwd, bwd; std::vector<double> first[2], second[2]; std::vector<int> best[2];
  for (int dir = 0; dir < 2; dir++) {
    int n = dir ? b : a, m = dir ? a : b;
    for (int i = 0; i < n; i++) {
      std::string s = (dir ? "b" : "f") + std::to_string(i); int w = (i == 0 || dir == 0) ? sym::choice("best_" + s, m) : i % m;
      double d0 = i < 2 ? sym::real("d_" + s, 0, 64) : 1, d1 = d0 + (i < 2 ? sym::real("e_" + s, 1, 64) : 8);
      first[dir].push_back(d0); second[dir].push_back(d1); best[dir].push_back(w);
      (dir ? bwd : fwd).push_back({cv::DMatch(i, w, (float)d0), cv::DMatch(i, (w + 1) % m, (float)d1)});
    }
  }
  t.RatioTest(fwd); t.RatioTest(bwd); std::vector<cv::DMatch> out; t.SymmetryTest(fwd, bwd, out);
  size_t j = 0;
  for (int i = 0; i < a; i++) {
    bool kept = j < out.size() && out[j].queryIdx == i; int w = best[0][i]; bool mutual = best[1][w] == i;
    if (kept) {
      sym::check(mutual && out[j].trainIdx == w, "both are the best match of each other");
      sym::le(first[0][i], 0.7 * second[0][i], "the best match is much better than the second", 1e-3); sym::le(first[1][w], 0.7 * second[1][w], "the best match is much better than the second", 1e-3); j++;
    } else if (mutual) {
      double f = first[0][i] - 0.7 * second[0][i], g = first[1][w] - 0.7 * second[1][w];
      if (f < -1e-3) {sym::le(0, g, "unambiguous matches are kept", 1e-3);} else {sym::le(0, f, "unambiguous matches are kept", 2e-3);}
    }
  }
  sym::check(j == out.size(), "no other matches");
}

// Simulated features: what is visible in each picture is scripted, the tracks are those of the simulation.
namespace {
std::vector<cv::KeyPoint> visible;
struct Still : TruthEngine
{
  Still() : TruthEngine(10, logger()) {}
  Vector3d GetBodyPosition(double) override {return Vector3d(0, 0, 0);}
  Vector3d GetBodyVelocity(double) override {return Vector3d(0, 0, 0);}
  Vector3d GetBodyAcceleration(double) override {return Vector3d(0, 0, 0);}
  Quaterniond GetBodyAngularPosition(double) override {return Quaterniond(1, 0, 0, 0);}
  Vector3d GetBodyAngularRate(double) override {return Vector3d(0, 0, 0);}
  Vector3d GetBodyAngularAcceleration(double) override {return Vector3d(0, 0, 0);}
};
}
std::vector<cv::KeyPoint> SimFeatureTracker::GetVisibleKeypoints(double) const {return visible;}
SCENARIO(simulated)
{
  EKF::Parameters p = params(); auto e = std::make_shared<EKF>(p); auto truth = std::make_shared<Still>();
  int longest = 3 + sym::choice("longest", 2), shortest = 2 + sym::choice("shortest", 2), frames = sym::thorough() ? 6 : 5;
  SimFeatureTracker::Parameters sp; FeatureTracker::Parameters tp; tp.camera_id = 1; tp.logger = logger(); tp.ekf = e; tp.min_track_length = (unsigned)shortest; tp.max_track_length = (unsigned)longest;
  sp.tracker_params = tp; SimFeatureTracker t(sp, truth);
  const int F = 2; Vector3d at[F] = {sym::vec3("f0"), sym::vec3("f1")};
  for (int i = 0; i < F; i++) {truth->m_feature_points_map[(unsigned)(5 + i)] = cv::Point3d(at[i][0], at[i][1], at[i][2]);}
  struct Seen {double t, x, y; unsigned frame;}; std::vector<Seen> track[F]; double time = 0;
  for (int k = 0; k < frames; k++) {
    std::string n = std::to_string(k); time += sym::real("dt" + n, 0.0625, 0.5); visible.clear();
    unsigned frame = (unsigned)(7 + 3 * k); bool is[F]; std::vector<std::pair<int, std::vector<Seen>>> want;
    is[0] = sym::flag("seen" + n); is[1] = k != 2;
    for (int i = 0; i < F; i++) {
      if (is[i]) {
        cv::KeyPoint q; q.class_id = 5 + i; double x = sym::real("x" + n + "_" + std::to_string(i), 0, 640); q.pt.x = (float)x; q.pt.y = (float)(10 * i);
        visible.push_back(q); track[i].push_back({time, x, 10.0 * i, frame});
      }
      if (!track[i].empty() && (!is[i] || (int)track[i].size() >= longest)) {
        if ((int)track[i].size() >= shortest) {want.push_back({i, track[i]});}
        track[i].clear();
      }
    }
    auto m = t.GenerateMessage(time, frame);
    sym::eq(m->time, time, "time of the message"); sym::check(m->tracker_id == t.GetID() && m->sensor_id == 1, "source of the message");
    sym::check(m->feature_tracks.size() == want.size(), "tracks are handed over when they end"); if (m->feature_tracks.size() != want.size()) {return;}
    for (size_t j = 0; j < want.size(); j++) {
      const FeatureTrack * f = nullptr; for (auto & x : m->feature_tracks) {if (x.track[0].key_point.class_id == 5 + want[j].first) {f = &x;}}
      sym::check(f != nullptr, "track of the feature"); if (!f) {return;}
      auto & w = want[j].second; sym::check(f->track.size() == w.size(), "every sighting, once"); if (f->track.size() != w.size()) {return;}
      sym::eqm(f->true_feature_position, at[want[j].first], "where the feature really is");
      for (size_t i = 0; i < w.size(); i++) {
        sym::check(f->track[i].key_point.class_id == 5 + want[j].first && f->track[i].frame_id == w[i].frame, "of one feature in the right picture");
        sym::eq(f->track[i].frame_time, w[i].t, "time of the sighting");
        sym::eq(f->track[i].key_point.pt.x, w[i].x, "where it was seen", 1e-4); sym::eq(f->track[i].key_point.pt.y, w[i].y, "where it was seen", 1e-4);
      }
    }
  }
}
// Of the features in a cell of ten by ten pixels the first is used, and none outside of the cells.
SCENARIO(grid)
{
  std::vector<cv::KeyPoint> in; int n = 3; std::vector<double> x, y;
  int cx = sym::choice("column", 3), cy = sym::choice("row", 2);
  for (int i = 0; i < n; i++) {
    x.push_back(i == 1 ? 10 * (1 + cx) + sym::real("x", 0.0625, 9.9375) : 24); y.push_back(i == 1 ? 10 * (1 + cy) + sym::real("y", 2.0625, 3.9375) : 23);
    cv::KeyPoint k; k.octave = i; k.pt = cv::Point2f((float)x[i], (float)y[i]); in.push_back(k);
  }
  int cols = 20 + 10 * sym::choice("cols", 3), rows = 20 + 10 * sym::choice("rows", 2);
  auto out = FeatureTracker::GridFeatures(in, rows, cols); size_t j = 0;
  for (int i = 0; i < n; i++) {
    auto cell = [&](int q) {return std::pair<int, int>((int)(x[q] / 10), (int)(y[q] / 10));};
    bool want = x[i] < cols && y[i] < rows; for (int q = 0; q < i; q++) {want = want && cell(q) != cell(i);}
    bool kept = j < out.size() && out[j].octave == i; if (kept) {j++;}
    sym::check(want == kept, "the first feature of every cell");
  }
  sym::check(j == out.size(), "nothing else");
}
