#pragma once
// Histories of sensor registrations and clone insertions, with a reference model of which
// part of the filter state exists and where the filter says it lives.
#include "hroot.hpp"
namespace hc {
enum Kind { IMU_E, IMU_I, IMU_EI, GPS_E, CAM_E, FID_E, GPS_0, CAM_0, IMU_0, FID_0, AUG, KINDS };
struct Part { long cls; uint64_t id; long n; long size; };   // cls: 0 body 1 imu 2 gps 3 cam 4 fid 5 clone (n-th of camera id)
struct World
{
  EKF & ekf;
  std::vector<Part> parts;
  bool root, sparse = false, vec = true;   // vec: also look at the vector form (needs fixed attitudes)
  explicit World(EKF & e) : ekf(e), root(e.GetUseRootCovariance()) {parts.push_back({0, 0, 0, 18});}
  int indexOf(const Part & p)
  {
    switch (p.cls) {
      case 0: return (int)ekf.m_state.body_state.index;
      case 1: return (int)ekf.m_state.imu_states[p.id].index;
      case 2: return (int)ekf.m_state.gps_states[p.id].index;
      case 3: return (int)ekf.m_state.cam_states[p.id].index;
      case 4: return (int)ekf.m_state.fid_states[p.id].index;
      default: return (int)ekf.m_state.aug_states[p.id][p.n].index;
    }
  }
  int total() {int s = 0; for (auto & p : parts) {s += p.size;} return s;}
  int classSize(int c) {int s = 0; for (auto & p : parts) {if (p.cls == c) {s += p.size;}} return s;}
  int classCount(int c) {int s = 0; for (auto & p : parts) {if (p.cls == c) {s++;}} return s;}
  bool has(long cls, uint64_t id)
  {
    for (auto & p : parts) {if (p.cls == cls && p.id == id) {return true;}}
    return false;
  }
  // the parts tile the state without gaps or overlaps, class by class
  bool checkTiling(const std::string & l)
  {
    int n = total();
    sym::check((int)ekf.GetStateSize() == n, l + ":state size");
    sym::check((int)ekf.m_cov.rows() == n && (int)ekf.m_cov.cols() == n, l + ":covariance size");
    sym::check((int)ekf.m_state.GetStateSize() == n, l + ":state vector size");
    if (vec) {sym::check((int)ekf.m_state.ToVector().size() == n, l + ":state vector length");}
    sym::check((int)ekf.GetImuStateSize() == classSize(1), l + ":imu size");
    sym::check((int)ekf.GetGpsStateSize() == classSize(2), l + ":gps size");
    sym::check((int)ekf.GetCamStateSize() == classSize(3), l + ":camera size");
    sym::check((int)ekf.GetAugStateSize() == classSize(5), l + ":clone size");
    sym::check((int)ekf.GetImuCount() == classCount(1), l + ":imu count");
    sym::check((int)ekf.GetGpsCount() == classCount(2), l + ":gps count");
    sym::check((int)ekf.GetCamCount() == classCount(3), l + ":camera count");
    int start[7] = {0, 18, 0, 0, 0, 0, 0};
    for (int c = 2; c <= 6; c++) {start[c] = start[c - 1] + classSize(c - 1);}
    if (parts.size() > 1) {
      sym::check((int)ekf.GetImuStateStart() == start[1], l + ":imu start");
      sym::check((int)ekf.GetGpsStateStart() == start[2], l + ":gps start");
      sym::check((int)ekf.GetCamStateStart() == start[3], l + ":camera start");
      sym::check((int)ekf.GetFidStateStart() == start[4], l + ":fiducial start");
      sym::check((int)ekf.GetAugStateStart() == start[5], l + ":clone start");
    }
    std::vector<int> used(n, 0);
    bool ok = (int)ekf.m_cov.rows() == n && (int)ekf.m_cov.cols() == n;
    for (auto & p : parts) {
      int i = indexOf(p);
      if (p.size) {
        bool in = i >= (p.cls ? start[p.cls] : 0) && i + p.size <= (p.cls ? start[p.cls] : 0) + classSize(p.cls);
        sym::check(in, l + ":index within its class");
        ok = ok && in;
        if (in) {for (int k = 0; k < p.size; k++) {used[i + k]++;}}
      }
      if (p.cls == 1) {
        ImuState & s = ekf.m_state.imu_states[p.id];
        if (s.GetIsExtrinsic()) {sym::check((int)s.index_extrinsic == i, l + ":extrinsic index");}
        if (s.GetIsIntrinsic()) {sym::check((int)s.index_intrinsic == i + (s.GetIsExtrinsic() ? 6 : 0), l + ":intrinsic index");}
      }
    }
    for (int k = 0; k < n; k++) {
      if (used[k] != 1) {ok = false; sym::check(false, l + ":no gap or overlap"); break;}
    }
    return ok;
  }
  // history-independent covariance content
  MatrixXd scramble(const std::string & n)
  {
    int k = total();
    if (sparse && root) {
      MatrixXd r = MatrixXd::Zero(k, k);
      for (int i = 0; i < k; i++) {
        r(i, i) = 0.5 + 0.0625 * (i % 7);
        if (i > 0) {r(i - 1, i) = 0.25 - 0.0625 * (i % 5);}
        if (i > 1) {r(1, i) = sym::real(n + std::to_string(i), -1, 1);}
      }
      r(1, 1) = sym::real(n + "d", 0.25, 1);
      ekf.m_cov = r;
      return r.transpose() * r;
    }
    ekf.m_cov = root ? sym::uppermat(n, k, -1, 1) : sym::symmat(n, k, -1, 1);
    return root ? MatrixXd(ekf.m_cov.transpose() * ekf.m_cov) : MatrixXd(ekf.m_cov);
  }
  std::map<int, std::vector<int>> where()    // part number -> state rows
  {
    std::map<int, std::vector<int>> w;
    for (size_t a = 0; a < parts.size(); a++) {
      int i = indexOf(parts[a]);
      for (int k = 0; k < parts[a].size; k++) {w[(int)a].push_back(i + k);}
    }
    return w;
  }
  // one operation; returns the number of the new part, or -1 when nothing may change
  int apply(int kind, uint64_t id, const VectorXd & prior)
  {
    bool dup = false; Part np{0, id, 0, 0};
    if (kind == IMU_E || kind == IMU_I || kind == IMU_EI || kind == IMU_0) {
      ImuState s; s.SetIsExtrinsic(kind == IMU_E || kind == IMU_EI); s.SetIsIntrinsic(kind == IMU_I || kind == IMU_EI);
      np.cls = 1; np.size = kind == IMU_EI ? 12 : kind == IMU_0 ? 0 : 6; dup = has(1, id);
      MatrixXd c = MatrixXd::Zero(12, 12); c.diagonal() = prior.segment(0, 12);
      ekf.RegisterIMU(id, s, MatrixXd(c.block(0, 0, np.size, np.size)));
    } else if (kind == GPS_E || kind == GPS_0) {
      GpsState s; s.SetIsExtrinsic(kind == GPS_E);
      np.cls = 2; np.size = kind == GPS_E ? 3 : 0; dup = has(2, id);
      Matrix3d c = Matrix3d::Zero(); c.diagonal() = prior.segment<3>(0);
      ekf.RegisterGPS(id, s, c);
    } else if (kind == CAM_E || kind == CAM_0) {
      CamState s; s.SetIsExtrinsic(kind == CAM_E); s.rate = 10;
      np.cls = 3; np.size = kind == CAM_E ? 6 : 0; dup = has(3, id);
      MatrixXd c = MatrixXd::Zero(6, 6); c.diagonal() = prior.segment(0, 6);
      ekf.RegisterCamera(id, s, c);
    } else if (kind == FID_E || kind == FID_0) {
      FidState s; s.SetIsExtrinsic(kind == FID_E); s.id = id; s.pos_f_in_l.setZero(); s.ang_f_to_l.setIdentity();
      np.cls = 4; np.size = kind == FID_E ? 6 : 0; dup = has(4, id);
      MatrixXd c = MatrixXd::Zero(6, 6); c.diagonal() = prior.segment(0, 6);
      ekf.RegisterFiducial(s, c);
    } else {
      np.cls = 5; np.size = 6; np.n = 0;
      for (auto & p : parts) {if (p.cls == 5 && p.id == id) {np.n++;}}
      ekf.AugmentStateIfNeeded(id, (unsigned)(100 + parts.size()));
    }
    if (dup) {return -1;}
    parts.push_back(np);
    return (int)parts.size() - 1;
  }
};
// the covariance after an operation, given the covariance before it, for every pair of states
inline void checkMoved(
  World & w, const MatrixXd & before, const std::map<int, std::vector<int>> & from, int added,
  const VectorXd & prior, const std::string & l)
{
  MatrixXd now = covOf(w.ekf);
  auto to = w.where();
  auto src = [&](int part, int k) -> int {           // row of the old covariance feeding (part, k)
      if (part != added) {return from.at(part)[k];}
      if (w.parts[part].cls == 5) {return k < 3 ? k : 9 + k - 3;}
      return -1;
    };
  for (auto & a : to) {
    for (auto & b : to) {
      for (size_t i = 0; i < a.second.size(); i++) {
        for (size_t j = 0; j < b.second.size(); j++) {
          int si = src(a.first, (int)i), sj = src(b.first, (int)j);
          double want = si >= 0 && sj >= 0 ? before(si, sj) : (a.first == b.first && i == j ? prior[(int)i] : 0.0);
          std::string what = a.first != added && b.first != added ? "kept states" : a.first == b.first ? "new state" : "cross terms of the new state";
          sym::eq(now(a.second[i], b.second[j]), want, l + ":" + what);
        }
      }
    }
  }
}
}  // namespace hc
