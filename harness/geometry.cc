// Conformance driver of Geometry.tla.
#include <geom.hh>
#include <serial.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/constraints/com-between-feet.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/distance-between-points-in-bodies.hh>
#include <hpp/constraints/distance-between-bodies.hh>
#include <hpp/pinocchio/collision-object.hh>
#include <hpp/constraints/manipulability.hh>
#include <hpp/constraints/static-stability.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
using namespace V;
namespace V {
// what a relative pose function offers whatever its class
struct Gt {
  DifferentiableFunctionPtr_t f;
  std::function<void(const JointConstPtr_t&)> joint1, joint2;
  std::function<void(const SE3&)> frame1, frame2, reference;
  std::function<SE3()> ref;
  std::function<Gt(const std::string&, const DevicePtr_t&)> again;  // saved and restored
  bool set = false;
};
template <typename T> static Gt wrapGt(const std::shared_ptr<T>& p) {
  Gt g; g.f = p; g.set = true;
  g.joint1 = [p](const JointConstPtr_t& j) { p->joint1(j); }; g.joint2 = [p](const JointConstPtr_t& j) { p->joint2(j); };
  g.frame1 = [p](const SE3& m) { p->frame1InJoint1(m); }; g.frame2 = [p](const SE3& m) { p->frame2InJoint2(m); };
  g.again = [p](const std::string& a, const DevicePtr_t& d) {
    DifferentiableFunctionPtr_t f(p), h; restore(a, f, h, d); std::shared_ptr<T> r(HPP_DYNAMIC_PTR_CAST(T, h));
    if (!r) throw std::runtime_error("not restored as the same class"); return wrapGt<T>(r); };
  g.reference = [p](const SE3& m) { p->reference(m); }; g.ref = [p]() { return p->reference(); };
  return g;
}
template <typename T> static Gt makeGt(const DevicePtr_t& d, const J& n) {
  JointConstPtr_t j1(jointOf(d, n["j1"].i())), j2(jointOf(d, n["j2"].i())); std::vector<bool> m; bool all = true;
  for (auto& b : n["mask"].a) { m.push_back(b.b); all = all && b.b; }
  SE3 F1(se3(n["F1"])), F2(se3(n["F2"])); std::shared_ptr<T> p; std::string nm("f");
  if (n["rel"].b) {
    if (n["variant"].s == "ref") p = all ? T::create(nm, d, j1, j2, F1) : T::create(nm, d, j1, j2, F1, m);
    else p = all ? T::create(nm, d, j1, j2, F1, F2) : T::create(nm, d, j1, j2, F1, F2, m);
  } else {
    if (n["variant"].s == "ref") p = all ? T::create(nm, d, j2, F1) : T::create(nm, d, j2, F1, m);
    else p = all ? T::create(nm, d, j2, F2, F1) : T::create(nm, d, j2, F2, F1, m);
  }
  return wrapGt(p);
}
static Gt gt(const DevicePtr_t& d, const J& n) {
  std::string c = n["cls"].s;
  if (n["rel"].b) {
    if (c == "P") return makeGt<RelativePosition>(d, n);
    if (c == "O") return makeGt<RelativeOrientation>(d, n);
    if (c == "T") return makeGt<RelativeTransformation>(d, n);
    if (c == "OS") return makeGt<RelativeOrientationSO3>(d, n);
    return makeGt<RelativeTransformationR3xSO3>(d, n);
  }
  if (c == "P") return makeGt<Position>(d, n);
  if (c == "O") return makeGt<Orientation>(d, n);
  if (c == "T") return makeGt<Transformation>(d, n);
  if (c == "OS") return makeGt<OrientationSO3>(d, n);
  return makeGt<TransformationR3xSO3>(d, n);
}
}  // namespace V
struct Ctx {
  DevicePtr_t dev; J joints; long extra = 0, k = 0; std::vector<Gt> pool; std::vector<J> desc;
  Ctx(const J&) {}
  Configuration_t at(const J& q) { return robotConf(joints, q, extra, ++k % 3 == 0, 1.); }
  std::vector<bool> mask(const J& n) { std::vector<bool> m; for (auto& b : n["mask"].a) m.push_back(b.b); return m; }
  JointPtr_t j(const J& n, const char* f) { return jointOf(dev, n[f].i()); }
};
static Gt make(Ctx& x, const J& n) {
  std::string k = n["kind"].s; Gt g;
  if (k == "gt") return gt(x.dev, n);
  CenterOfMassComputationPtr_t c; bool root = false;
  if (n.has("roots")) {
    c = CenterOfMassComputation::create(x.dev); for (auto& r : n["roots"].a) c->add(jointOf(x.dev, r.i()));
    root = n["roots"].size() == 1 && n["roots"][0].i() == 1;
  }
  if (k == "com") {
    if (root && x.pool.size() % 2) g.f = RelativeCom::create("f", x.dev, x.j(n, "j"), vec3(n["ref"]), x.mask(n));
    else g.f = RelativeCom::create("f", x.dev, c, x.j(n, "j"), vec3(n["ref"]), x.mask(n));
  } else if (k == "feet") {
    if (root && x.pool.size() % 2) g.f = ComBetweenFeet::create("f", x.dev, x.j(n, "jl"), x.j(n, "jr"), vec3(n["pl"]), vec3(n["pr"]), x.j(n, "jref"), vec3(n["ref"]), x.mask(n));
    else g.f = ComBetweenFeet::create("f", x.dev, c, x.j(n, "jl"), x.j(n, "jr"), vec3(n["pl"]), vec3(n["pr"]), x.j(n, "jref"), vec3(n["ref"]), x.mask(n));
  } else if (k == "dist") {
    if (n["j2"].i() == 0 && x.pool.size() % 2) g.f = DistanceBetweenPointsInBodies::create("f", x.dev, x.j(n, "j1"), vec3(n["p1"]), vec3(n["p2"]));
    else g.f = DistanceBetweenPointsInBodies::create("f", x.dev, x.j(n, "j1"), x.j(n, "j2"), vec3(n["p1"]), vec3(n["p2"]));
  } else if (k == "bodies") {
    if (n["j2"].i() != 0) g.f = DistanceBetweenBodies::create("f", x.dev, x.j(n, "j1"), x.j(n, "j2"));
    else {
      std::vector<CollisionObjectPtr_t> os;
      for (auto& w : n["obs"].a) os.push_back(CollisionObjectPtr_t(new hpp::pinocchio::CollisionObject(x.dev, x.dev->geomModel().getGeometryId("w" + std::to_string(w.i())))));
      g.f = DistanceBetweenBodies::create("f", x.dev, x.j(n, "j1"), os);
    }
  } else if (k == "stat") {
    StaticStability::Contacts_t cs;
    for (auto& t : n["contacts"].a) { StaticStability::Contact_t ct; ct.joint = jointOf(x.dev, t["j"].i()); ct.point = vec3(t["p"]); ct.normal = vec3(t["n"]); cs.push_back(ct); }
    g.f = StaticStability::create("f", x.dev, cs, c);
  } else if (k == "conf") {
    Configuration_t goal(robotConf(x.joints, n["goal"], x.extra, x.pool.size() % 2, 3.)); vector_t w(n["weights"].v());
    if (((w.array() == 0) || (w.array() == 1)).all()) { std::vector<bool> m; for (long i = 0; i < w.size(); ++i) m.push_back(w[i] == 1); g.f = ConfigurationConstraint::create("f", x.dev, goal, m); }
    else g.f = ConfigurationConstraint::create("f", x.dev, goal, w);
  } else if (k == "manip") g.f = Manipulability::create(x.pool[(size_t)n["i"].i() - 1].f, x.dev, "f");
  else throw std::runtime_error("HARNESS kind " + k);
  return g;
}
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["robot"] = [](Ctx& x, const J& o) { x.joints = o["joints"]; x.extra = o["extra"].i(); x.dev = makeRobot(x.joints, x.extra, true); return J::obj(); };
  ops["mk"] = [](Ctx& x, const J& o) { x.pool.push_back(make(x, o["fn"])); x.desc.push_back(o["fn"]); return J::obj(); };
  ops["save"] = [](Ctx& x, const J& o) {
    Gt g(x.pool[(size_t)o["i"].i() - 1]); J d(x.desc[(size_t)o["i"].i() - 1]);
    if (g.set) g = g.again(o["ar"].s, x.dev); else { DifferentiableFunctionPtr_t h; restore(o["ar"].s, g.f, h, x.dev); if (!h) throw std::runtime_error("not restored"); g.f = h; }
    x.pool.push_back(g); x.desc.push_back(d); return J::obj().set("saved", J(true)); };
  ops["conf"] = [](Ctx& x, const J& o) { x.dev->currentConfiguration(x.at(o["q"])); x.dev->computeForwardKinematics((hpp::pinocchio::Computation_t)(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN)); return J::obj(); };
  ops["set"] = [](Ctx& x, const J& o) {
    Gt& g = x.pool[(size_t)o["i"].i() - 1]; std::string w = o["what"].s;
    if (w == "j1") g.joint1(jointOf(x.dev, o["x"].i())); else if (w == "j2") g.joint2(jointOf(x.dev, o["x"].i()));
    else if (w == "F1") g.frame1(se3(o["x"])); else if (w == "F2") g.frame2(se3(o["x"])); else g.reference(se3(o["x"]));
    return J::obj(); };
  ops["val"] = [](Ctx& x, const J& o) { Gt& g = x.pool[(size_t)o["i"].i() - 1]; vector_t v((*g.f)(x.at(o["q"])).vector()); return J::obj().set("val", J::vec(v)); };
  ops["jac"] = [](Ctx& x, const J& o) {
    Gt& g = x.pool[(size_t)o["i"].i() - 1]; matrix_t Jm(matrix_t::Constant(g.f->outputDerivativeSize(), g.f->inputDerivativeSize(), 12345.));
    g.f->jacobian(Jm, x.at(o["q"])); return J::obj().set("jac", J::mat(Jm)); };
  ops["eq"] = [](Ctx& x, const J& o) {
    const DifferentiableFunction &f(*x.pool[(size_t)o["i"].i() - 1].f), &g(*x.pool[(size_t)o["k"].i() - 1].f);
    bool e = f == g; return J::obj().set("equal", J(e)).set("sym", J((g == f) == e && (f != g) == !e)); };
  ops["info"] = [](Ctx& x, const J& o) {
    Gt& g = x.pool[(size_t)o["i"].i() - 1]; J j = J::obj(); j.set("ok", J(true)).set("active", boolsOf(g.f->activeParameters())).set("activeD", boolsOf(g.f->activeDerivativeParameters()));
    if (g.set) {
      std::pair<JointConstPtr_t, JointConstPtr_t> p(g.f->dependsOnRelPoseBetween(x.dev)); J a = J::arr();
      a.push(J((long)(p.first ? p.first->index() : 0))).push(J((long)(p.second ? p.second->index() : 0)));
      SE3 m(g.ref()); j.set("pair", a).set("ref", poseJ(m.rotation(), m.translation())).set("nq", J((long)g.f->outputSize())).set("nv", J((long)g.f->outputDerivativeSize()));
    }
    return j; };
  return driverMain<Ctx>(ops);
}
