// Robots given joint by joint.  Rotations are signed permutation matrices, given by their rows.
#ifndef VERIF_ROBOT_HH
#define VERIF_ROBOT_HH
#include <mjson.hh>
#include <hpp/constraints/fwd.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/joint.hh>
#include <hpp/pinocchio/extra-config-space.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include <pinocchio/multibody/model.hpp>
#include <pinocchio/multibody/geometry.hpp>
#include <coal/shape/geometric_shapes.h>
#include <pinocchio/algorithm/joint-configuration.hpp>
namespace V {
using namespace hpp::constraints;
typedef ::pinocchio::SE3 SE3;
static Eigen::Matrix3d rot(const J& j) { Eigen::Matrix3d R; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) R(a, b) = j[a][b].n; return R; }
static Eigen::Vector3d vec3(const J& j) { return Eigen::Vector3d(j[0].n, j[1].n, j[2].n); }
static SE3 se3(const J& j) { return SE3(rot(j["R"]), vec3(j["t"])); }
template <typename M> static void addJ(hpp::pinocchio::Model& model, const M& jm, const J& j, const std::string& name) {
  long nq = jm.nq(), nv = jm.nv();
  vector_t e = vector_t::Constant(nv, 1e3), lo = vector_t::Constant(nq, -1.01), hi = vector_t::Constant(nq, 1.01);
  if (j.has("lo")) for (long i = 0; i < nq && i < 3; ++i) if (nq != 4 && nq != 2) { lo[i] = j["lo"].n; hi[i] = j["hi"].n; }
  auto id = model.addJoint((size_t)j["parent"].i(), jm, j.has("M") ? se3(j["M"]) : SE3::Identity(), name, e, e, lo, hi);
  model.addJointFrame(id);
  double m = j.has("mass") ? j["mass"].n : 1;
  model.appendBodyToJoint(id, ::pinocchio::Inertia(m, j.has("com") ? vec3(j["com"]) : Eigen::Vector3d(0, 0, 0), Eigen::Matrix3d::Identity() * m), SE3::Identity());
  model.addBodyFrame(name + "_body", id, SE3::Identity(), -1);
}
// spheres of diameter 1/2 about the centers of mass of the bodies, and about two points of the world
static void addSphere(hpp::pinocchio::DevicePtr_t d, const std::string& name, size_t joint, size_t frame, const Eigen::Vector3d& c) {
  d->geomModel().addGeometryObject(::pinocchio::GeometryObject(name, joint, frame, SE3(Eigen::Matrix3d::Identity(), c), std::make_shared<coal::Sphere>(0.25)));
}
static DevicePtr_t makeRobot(const J& joints, long extra = 0, bool spheres = false) {
  hpp::pinocchio::DevicePtr_t d(hpp::pinocchio::Device::create("robot"));
  hpp::pinocchio::Model& m = d->model();
  long k = 1;
  for (auto& j : joints.a) {
    std::string t = j["type"].s, n = "j" + std::to_string(k++);
    if (t == "PX") addJ(m, ::pinocchio::JointModelPX(), j, n);
    else if (t == "PY") addJ(m, ::pinocchio::JointModelPY(), j, n);
    else if (t == "PZ") addJ(m, ::pinocchio::JointModelPZ(), j, n);
    else if (t == "RX") addJ(m, ::pinocchio::JointModelRUBX(), j, n);
    else if (t == "RY") addJ(m, ::pinocchio::JointModelRUBY(), j, n);
    else if (t == "RZ") addJ(m, ::pinocchio::JointModelRUBZ(), j, n);
    else if (t == "S") addJ(m, ::pinocchio::JointModelSpherical(), j, n);
    else if (t == "T3") addJ(m, ::pinocchio::JointModelTranslation(), j, n);
    else if (t == "FF") addJ(m, ::pinocchio::JointModelFreeFlyer(), j, n);
    else throw std::runtime_error("HARNESS joint type");
  }
  if (spheres) {
    addSphere(d, "w1", 0, 0, Eigen::Vector3d(1, 1, 0)); addSphere(d, "w2", 0, 0, Eigen::Vector3d(-1, 0, 2));
    for (size_t j = 1; j < (size_t)k; ++j) addSphere(d, "s" + std::to_string(j), j, m.getFrameId("j" + std::to_string(j) + "_body"), vec3(joints[j - 1]["com"]));
    d->geomModel().addAllCollisionPairs();
  }
  d->createData(); d->createGeomData();
  if (extra) d->setDimensionExtraConfigSpace(extra);
  d->controlComputation((hpp::pinocchio::Computation_t)(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN | hpp::pinocchio::COM));
  return d;
}
}  // namespace V
#endif
