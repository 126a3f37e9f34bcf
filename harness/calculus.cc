// Conformance driver of Calculus.tla.
#include <geom.hh>
#include <malloc.h>
#include <hpp/constraints/symbolic-calculus.hh>
#include <hpp/constraints/symbolic-function.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
using namespace V;
namespace V {
// an expression whose type is known at run time only
struct Node : CalculusBaseAbstract<> {
  virtual ~Node() {}
  virtual void computeCrossValue(const ConfigurationIn_t arg) = 0;
  virtual const CrossMatrix& cross() const = 0;
};
typedef std::shared_ptr<Node> N;
template <typename T> struct Wrap : Node {
  std::shared_ptr<T> e; mutable vector3_t v; mutable JacobianMatrix Jm;
  Wrap(const std::shared_ptr<T>& x) : e(x) {}
  const vector3_t& value() const { v = e->value(); return v; }
  const JacobianMatrix& jacobian() const { Jm = e->jacobian(); return Jm; }
  void computeValue(const ConfigurationIn_t a) { e->computeValue(a); }
  void computeJacobian(const ConfigurationIn_t a) { e->computeJacobian(a); }
  void computeCrossValue(const ConfigurationIn_t a) { e->computeCrossValue(a); }
  const CrossMatrix& cross() const { return e->cross(); }
  void invalidate() { e->invalidate(); }
};
template <typename T> static N wrap(const std::shared_ptr<T>& x) { return std::make_shared<Wrap<T> >(x); }
}  // namespace V
typedef ScalarProduct<Node, Node> Dot_t;
typedef MatrixOfExpressions<> Mat_t;
struct Item { N v; std::shared_ptr<Dot_t> s; std::shared_ptr<JointFrame> f; std::shared_ptr<Mat_t> m; };
struct Ctx {
  DevicePtr_t dev; J joints; long extra = 0; Configuration_t q; std::vector<Item> pool;
  Ctx(const J&) {}
  Item& item(const J& o) { return pool[(size_t)o["i"].i() - 1]; }
  long nv() const { return dev->numberDof() - extra; }
  void conf(const J& x) { q = robotConf(joints, x, extra); dev->currentConfiguration(q); dev->computeForwardKinematics((hpp::pinocchio::Computation_t)(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN)); }
};
static Item make(Ctx& x, const J& n) {
  Item it; std::string k = n["kind"].s;
  auto at = [&](const char* f) { return x.pool[(size_t)n[f].i() - 1].v; };
  if (k == "pj" || k == "vj") {
    long j = n["j"].i(); bool sized = j == 0 || x.pool.size() % 2;
    if (k == "pj") it.v = wrap(sized ? PointInJoint::create(jointOf(x.dev, j), vec3(n["l"]), x.nv()) : PointInJoint::create(jointOf(x.dev, j), vec3(n["l"])));
    else it.v = wrap(sized ? VectorInJoint::create(jointOf(x.dev, j), vec3(n["l"]), x.nv()) : VectorInJoint::create(jointOf(x.dev, j), vec3(n["l"])));
  } else if (k == "pt") it.v = wrap(Point::create(vec3(n["l"]), (size_t)x.nv()));
  else if (k == "com") {
    CenterOfMassComputationPtr_t c(CenterOfMassComputation::create(x.dev));
    for (auto& r : n["roots"].a) {
      if (r.i() == 0) { for (size_t j = 0; j < x.joints.size(); ++j) if (x.joints[j]["parent"].i() == 0) c->add(jointOf(x.dev, (long)j + 1)); }
      else c->add(jointOf(x.dev, r.i())); }
    it.v = wrap(PointCom::create(c));
  } else if (k == "dif") it.v = wrap(at("a") - at("b"));
  else if (k == "sum") it.v = wrap(at("a") + at("b"));
  else if (k == "crs") it.v = wrap(at("a") ^ at("b"));
  else if (k == "dot") it.s = at("a") * at("b");
  else if (k == "scl") it.v = wrap((value_type)n["s"].n * at("a"));
  else if (k == "rot") it.v = wrap(jointOf(x.dev, n["j"].i()) * at("a"));
  else if (k == "rott") it.v = wrap(JointTranspose(jointOf(x.dev, n["j"].i())) * at("a"));
  else if (k == "frame") it.f = JointFrame::create(jointOf(x.dev, n["j"].i()));
  else if (k == "mat") {
    size_t r = n["el"].size(), c = n["el"][0].size();
    matrix_t v(matrix_t::Zero(3 * (long)r, (long)c)), Jm(matrix_t::Zero(3 * (long)r, (long)c * x.nv()));
    it.m = Mat_t::create(v, Jm); it.m->setSize(r, c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { N e(x.pool[(size_t)n["el"][i][j].i() - 1].v); if (i % 2) (*it.m)(i, j) = e; else it.m->set(i, j, e); }
  } else throw std::runtime_error("HARNESS kind " + k);
  return it;
}
template <typename T> static void func(Ctx& x, const J& o, const std::shared_ptr<T>& e, J& j) {
  std::shared_ptr<SymbolicFunction<T> > f; Configuration_t q(x.q);
  if (o.has("mask")) {
    std::vector<bool> m; bool all = true; for (auto& b : o["mask"].a) { m.push_back(b.b); all = all && b.b; }
    f = all ? SymbolicFunction<T>::create("f", x.dev, e) : SymbolicFunction<T>::create("f", x.dev, e, m);
    q = x.q = robotConf(x.joints, o["q"], x.extra);
  } else f = SymbolicFunction<T>::create("f", x.dev->configSize(), x.nv(), e->value().size(), e);
  vector_t v((*f)(q).vector());
  matrix_t Jm(matrix_t::Constant(f->outputDerivativeSize(), f->inputDerivativeSize(), 12345.)); f->jacobian(Jm, q);
  j.set("val", J::vec(v)).set("jac", J::mat(Jm));
  if (o.has("mask")) j.set("active", boolsOf(f->activeParameters())).set("activeD", boolsOf(f->activeDerivativeParameters()));
}
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["robot"] = [](Ctx& x, const J& o) { x.joints = o["joints"]; x.extra = o["extra"].i(); x.dev = makeRobot(x.joints, x.extra); x.conf(o["q"]); return J::obj(); };
  ops["mk"] = [](Ctx& x, const J& o) { mallopt(M_PERTURB, 0xA5);  /* what is not initialised is not zero */ x.pool.push_back(make(x, o["node"])); mallopt(M_PERTURB, 0); return J::obj(); };
  ops["conf"] = [](Ctx& x, const J& o) { x.conf(o["q"]); return J::obj(); };
  ops["inv"] = [](Ctx& x, const J& o) { Item& i = x.item(o); if (i.v) i.v->invalidate(); else if (i.s) i.s->invalidate(); else if (i.f) i.f->invalidate(); else i.m->invalidate(); return J::obj(); };
  ops["val"] = [](Ctx& x, const J& o) {
    Item& i = x.item(o); J j = J::obj();
    if (i.v) { i.v->computeValue(x.q); j.set("val", J::vec(i.v->value())); }
    else if (i.s) { i.s->computeValue(x.q); j.set("val", J::vec(i.s->value())); }
    else if (i.f) { i.f->computeValue(x.q); Eigen::VectorXd v(i.f->value()); j.set("val", poseJ(::pinocchio::exp3(Eigen::Vector3d(v.tail(3))), v.head(3))); }
    else { i.m->computeValue(x.q); j.set("val", J::mat(i.m->value())); }
    return j; };
  ops["jac"] = [](Ctx& x, const J& o) {
    Item& i = x.item(o); J j = J::obj();
    if (i.v) { i.v->computeJacobian(x.q); j.set("jac", J::mat(i.v->jacobian())); }
    else if (i.s) { i.s->computeJacobian(x.q); j.set("jac", J::mat(i.s->jacobian())); }
    else if (i.f) {
      i.f->computeJacobian(x.q); Eigen::MatrixXd Jm(i.f->jacobian()); Eigen::Matrix3d E; Eigen::VectorXd v(i.f->value());
      ::pinocchio::Jexp3(Eigen::Vector3d(v.tail(3)), E); Jm.bottomRows(3) = E * Jm.bottomRows(3); j.set("jac", J::mat(Jm)); }
    else { i.m->computeJacobian(x.q); j.set("jac", J::mat(i.m->jacobian())); }
    return j; };
  ops["cross"] = [](Ctx& x, const J& o) { Item& i = x.item(o); i.v->computeCrossValue(x.q); return J::obj().set("cross", J::mat(i.v->cross())); };
  ops["fn"] = [](Ctx& x, const J& o) { Item& i = x.item(o); J j = J::obj(); if (i.v) func(x, o, i.v, j); else if (i.s) func(x, o, i.s, j); return j; };
  ops["fn0"] = ops["fn"];
  ops["pinv"] = [](Ctx& x, const J& o) {
    Item& i = x.item(o); vector_t r(o["rhs"].v());
    i.m->computePseudoInverse(x.q); J j = J::obj(); j.set("pinv", J::mat(i.m->pinv()));
    i.m->computePseudoInverseJacobian(x.q, r); j.set("pjac", J::mat(i.m->pinvJacobian())); return j; };
  return driverMain<Ctx>(ops);
}
