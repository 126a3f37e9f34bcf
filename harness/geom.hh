// Configurations of robots, and comparisons through exponentials.
#ifndef VERIF_GEOM_HH
#define VERIF_GEOM_HH
#include <robot.hh>
#include <Eigen/Geometry>
#include <pinocchio/spatial/explog.hpp>
namespace V {
static Eigen::Vector4d quatOf(const J& R) {
  Eigen::Quaterniond q(rot(R)); Eigen::Vector4d v(q.coeffs());
  for (int i = 0; i < 4; ++i) if (std::fabs(v[i]) < 1e-12) v[i] = 0;
  return v;
}
// rotations and poses chosen by the test come with a sign for their quaternion
static Configuration_t robotConf(const J& joints, const J& q, long extra = 0, bool neg = false, double ext = 0.5) {
  static const int C[] = {1, 0, -1, 0}, S[] = {0, 1, 0, -1};
  std::vector<double> r;
  for (size_t k = 0; k < joints.size(); ++k) {
    std::string t = joints[k]["type"].s; const J& x = q[k];
    if (t[0] == 'P') r.push_back(x.n);
    else if (t[0] == 'R') { long a = ((x.i() % 4) + 4) % 4; r.push_back(C[a]); r.push_back(S[a]); }
    else if (t == "T3") for (int i = 0; i < 3; ++i) r.push_back(x[i].n);
    else { if (t == "FF") for (int i = 0; i < 3; ++i) r.push_back(x["t"][i].n);
      Eigen::Vector4d u(quatOf(t == "FF" ? x["R"] : x)); for (int i = 0; i < 4; ++i) r.push_back(neg ? -u[i] : u[i]); }
  }
  for (long i = 0; i < extra; ++i) r.push_back(ext + (double)i);
  Configuration_t c((long)r.size()); for (size_t i = 0; i < r.size(); ++i) c[(long)i] = r[i];
  return c;
}
static J poseJ(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) { J j = J::obj(); j.set("R", J::mat(R)).set("t", J::vec(t)); return j; }
static JointPtr_t jointOf(const DevicePtr_t& d, long j) { return j == 0 ? JointPtr_t() : d->getJointByName("j" + std::to_string(j)); }
static J boolsOf(const Eigen::Array<bool, Eigen::Dynamic, 1>& a) { J j = J::arr(); for (long i = 0; i < a.size(); ++i) j.push(J((bool)a[i])); return j; }
static J flagsOf(const segments_t& s, long n) { J j = J::arr(); std::vector<bool> b((size_t)n, false); for (auto& t : s) for (long i = t.first; i < t.first + t.second; ++i) b[(size_t)i] = true; for (bool v : b) j.push(J(v)); return j; }
}  // namespace V
#endif
