// Conformance driver of Placement.tla.
#include <geom.hh>
#include <serial.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/solver/by-substitution.hh>
using namespace V;
struct Ctx {
  DevicePtr_t dev; J joints; long extra = 0, k = 0; std::vector<ExplicitPtr_t> pool; std::vector<J> desc;
  Ctx(const J&) {}
  Configuration_t at(const J& q) { return robotConf(joints, q, extra, ++k % 3 == 0, 1.); }
  Configuration_t at(const J& q, const J& e) { Configuration_t c(at(q)); for (long i = 0; i < extra; ++i) c[c.size() - extra + i] = e[(size_t)i].n; return c; }
  JointPtr_t j(const J& n, const char* f) { return jointOf(dev, n[f].i()); }
  ExplicitPtr_t& c(const J& o) { return pool[(size_t)o["i"].i() - 1]; }
  const J& d(const J& o) { return desc[(size_t)o["i"].i() - 1]; }
};
static ExplicitPtr_t make(Ctx& x, const J& n) {
  std::string k = n["kind"].s;
  if (k == "pose") {
    ComparisonTypes_t c; for (auto& t : n["comp"].a) c.push_back(t.s == "E" ? Equality : EqualToZero);
    std::vector<bool> m; bool all = true; for (auto& b : n["mask"].a) { m.push_back(b.b); all = all && b.b; }
    return all ? explicit_::RelativePose::create("p", x.dev, x.j(n, "j1"), x.j(n, "j2"), se3(n["F1"]), se3(n["F2"]), c)
               : explicit_::RelativePose::create("p", x.dev, x.j(n, "j1"), x.j(n, "j2"), se3(n["F1"]), se3(n["F2"]), c, m);
  }
  LiegroupSpacePtr_t cs(x.dev->configSpace());
  if (k == "rel") {  // the variables of the path to joint 1 give the pose of joint 2
    ExplicitPtr_t v(explicit_::RelativePose::create("v", x.dev, x.j(n, "j1"), x.j(n, "j2"), se3(n["F1"]), se3(n["F2"]), ComparisonTypes_t(6, EqualToZero)));
    DifferentiableFunctionPtr_t f(explicit_::RelativeTransformation::create("r", x.dev, x.j(n, "j1"), x.j(n, "j2"), se3(n["F1"]), se3(n["F2"])));
    return n["hold"].b ? Explicit::create(cs, f, v->inputConf(), v->outputConf(), v->inputVelocity(), v->outputVelocity(), ComparisonTypes_t(6, Equality))
                       : Explicit::create(cs, f, v->inputConf(), v->outputConf(), v->inputVelocity(), v->outputVelocity());
  }
  if (k == "const") {
    J js(J::arr()), q(J::arr()); Eigen::BlockIndex::segments_t oc, ov; LiegroupSpacePtr_t sp; long nv = 0;
    for (size_t i = 0; i < n["js"].a.size(); ++i) {
      long id = n["js"][i].i(); js.push(x.joints[(size_t)id - 1]); q.push(n["xs"][i]); JointPtr_t j(jointOf(x.dev, id)); nv += j->numberDof();
      LiegroupSpacePtr_t e(LiegroupSpace::createCopy(j->configurationSpace())); if (!sp) sp = e; else *sp *= LiegroupSpaceConstPtr_t(e);
      oc.push_back(std::make_pair(j->rankInConfiguration(), j->configSize())); ov.push_back(std::make_pair(j->rankInVelocity(), j->numberDof()));
    }
    Eigen::BlockIndex::shrink(oc); Eigen::BlockIndex::shrink(ov);
    DifferentiableFunctionPtr_t f(ConstantFunction::create(LiegroupElement(robotConf(js, q), sp), 0, 0, "k"));
    return n["hold"].b ? Explicit::create(cs, f, {}, oc, {}, ov, ComparisonTypes_t((size_t)nv, Equality)) : Explicit::create(cs, f, {}, oc, {}, ov);
  }
  if (k == "extra") return LockedJoint::create(x.dev, n["index"].i(), n["v"].v());
  if (k == "part") return LockedJoint::create(x.j(n, "j"), n["index"].i(), n["v"].v());
  JointPtr_t j(x.j(n, "j")); J js(J::arr()), q(J::arr()); js.push(x.joints[(size_t)n["j"].i() - 1]); q.push(n["x"]);
  return LockedJoint::create(j, LiegroupElement(robotConf(js, q), j->configurationSpace()));
}
// right hand side of the function of constraint c, from that of the test
static LiegroupElement rhs(Ctx& x, const ExplicitPtr_t& c, const J& n, const J& r) {
  LiegroupElement e(c->function().outputSpace()->neutral());
  if (n["kind"].s == "pose") { e.vector().head<3>() = vec3(r["t"]); Eigen::Vector4d u(quatOf(r["R"])); e.vector().tail<4>() = ++x.k % 2 ? u : Eigen::Vector4d(-u); return e; }
  Eigen::Vector3d d(vec3(r["d"])), w(Eigen::Vector3d::Zero()); long k = r["k"].i(); w[r["m"].i() - 1] = (double)k * M_PI / 2;
  if (n["kind"].s == "const") {
    long o = 0;
    for (auto& i : n["js"].a) {
      std::string t = x.joints[(size_t)i.i() - 1]["type"].s;
      if (t[0] == 'R') e.vector()[o++] = (double)k * M_PI / 2;
      else if (t == "S") { e.vector().segment<3>(o) = w; o += 3; }
      else if (t == "FF") { if (!k) e.vector().segment<3>(o) = d; e.vector().segment<3>(o + 3) = w; o += 6; }
      else if (t == "T3") { e.vector().segment<3>(o) = d; o += 3; }
      else e.vector()[o++] = d[0];
    }
    return e;
  }
  std::string t = n["kind"].s == "rel" ? "FF" : n["kind"].s == "lock" ? x.joints[(size_t)n["j"].i() - 1]["type"].s : "-";
  if (t[0] == 'R') e.vector()[0] = (double)k * M_PI / 2;
  else if (t == "S") e.vector() = w;
  else if (t == "FF") { if (k) d.setZero(); e.vector().head<3>() = d; e.vector().tail<3>() = w; }
  else for (long i = 0; i < e.vector().size(); ++i) e.vector()[i] = d[i % 3];
  return e;
}
static vector_t inputOf(const ExplicitPtr_t& c, const Configuration_t& q) { Eigen::RowBlockIndices in(c->inputConf()); return in.rview(q); }
static long indexOf(const JointConstPtr_t& j) { return j ? (long)j->index() : 0; }
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["robot"] = [](Ctx& x, const J& o) { x.joints = o["joints"]; x.extra = o["extra"].i(); x.dev = makeRobot(x.joints, x.extra); return J::obj(); };
  ops["mk"] = [](Ctx& x, const J& o) { x.pool.push_back(make(x, o["c"])); x.desc.push_back(o["c"]); return J::obj(); };
  ops["copy"] = [](Ctx& x, const J& o) { ExplicitPtr_t c(HPP_DYNAMIC_PTR_CAST(Explicit, x.c(o)->copy())); J d(x.d(o)); x.pool.push_back(c); x.desc.push_back(d); return J::obj(); };
  ops["save"] = [](Ctx& x, const J& o) {
    J d(x.d(o)); ImplicitPtr_t a(x.c(o)), b; restore(o["ar"].s, a, b, x.dev); ExplicitPtr_t e(HPP_DYNAMIC_PTR_CAST(Explicit, b));
    if (!e) throw std::runtime_error("not restored as an explicit constraint"); x.pool.push_back(e); x.desc.push_back(d); return J::obj().set("saved", J(true)); };
  ops["conf"] = [](Ctx& x, const J& o) { x.dev->currentConfiguration(x.at(o["q"])); x.dev->computeForwardKinematics((hpp::pinocchio::Computation_t)(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN)); return J::obj(); };
  ops["info"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.c(o)); J j = J::obj(); long nq = x.dev->configSize(), nv = x.dev->numberDof();
    j.set("inC", flagsOf(c->inputConf(), nq)).set("inV", flagsOf(c->inputVelocity(), nv)).set("outC", flagsOf(c->outputConf(), nq)).set("outV", flagsOf(c->outputVelocity(), nv));
    std::pair<JointConstPtr_t, JointConstPtr_t> p(c->doesConstrainRelPoseBetween(x.dev)); J a = J::arr(); a.push(J(indexOf(p.first))).push(J(indexOf(p.second)));
    j.set("pair", a).set("nv", J((long)c->comparisonType().size()));
    auto two = [&](const DifferentiableFunction& f) { std::pair<JointConstPtr_t, JointConstPtr_t> r(f.dependsOnRelPoseBetween(x.dev)); J y = J::arr(); y.push(J(indexOf(r.first))).push(J(indexOf(r.second))); return y; };
    j.set("dep", two(c->function())).set("xdep", two(*c->explicitFunction()));
    std::ostringstream os; os << c->function() << *c->explicitFunction(); if (LockedJointPtr_t l = HPP_DYNAMIC_PTR_CAST(LockedJoint, c)) os << *l;
    if (os.str().size() < 10) j.set("nv", J("nothing printed"));
    if (LockedJointPtr_t l = HPP_DYNAMIC_PTR_CAST(LockedJoint, c)) {
      bool ok = l->rankInConfiguration() == c->outputConf()[0].first && l->rankInVelocity() == c->outputVelocity()[0].first && l->configSize() == c->outputConf()[0].second && l->numberDof() == c->outputVelocity()[0].second;
      ok = ok && l->configSpace()->nq() == l->configSize() && (x.d(o)["kind"].s == "extra" ? !l->joint() : indexOf(l->joint()) == x.d(o)["j"].i());
      if (!ok) j.set("nv", J(-1));
    }
    return j; };
  ops["out"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.c(o)); LiegroupElement r(c->explicitFunction()->outputSpace()), h(rhs(x, c, x.d(o), o["r"]));
    c->outputValue(r, inputOf(c, x.at(o["q"])), h); return J::obj().set("out", J::vec(r.vector())); };
  ops["outjac"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.c(o)); DifferentiableFunctionPtr_t f(c->explicitFunction()); LiegroupElement h(rhs(x, c, x.d(o), o["r"])); vector_t in(inputOf(c, x.at(o["q"])));
    matrix_t Jm(matrix_t::Constant(f->outputDerivativeSize(), f->inputDerivativeSize(), 12345.)); LiegroupElement v((*f)(in));
    c->jacobianOutputValue(in, v, h, Jm); return J::obj().set("outjac", Jm.cols() ? J::mat(Jm) : J::arr()); };
  ops["fn"] = [](Ctx& x, const J& o) { vector_t v(x.c(o)->function()(x.at(o["q"], o["e"])).vector()); return J::obj().set("fn", J::vec(v)); };
  ops["fnjac"] = [](Ctx& x, const J& o) {
    const DifferentiableFunction& f(x.c(o)->function()); matrix_t Jm(matrix_t::Constant(f.outputDerivativeSize(), f.inputDerivativeSize(), 12345.));
    f.jacobian(Jm, x.at(o["q"], o["e"])); return J::obj().set("fnjac", J::mat(Jm)); };
  ops["solve"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.c(o)); ExplicitConstraintSet s(x.dev->configSpace()); s.errorThreshold(1e-4); J j = J::obj();
    bool ok = s.add(c) >= 0; s.rightHandSideFromInput(x.at(o["q1"], o["e1"]));
    Configuration_t q0(x.at(o["q2"], o["e2"])), q(q0); ok = s.solve(q) && ok; ok = ok && s.isSatisfied(q);
    Eigen::RowBlockIndices out(c->outputConf()); vector_t v(out.rview(q)); out.lview(q) = vector_t(out.rview(q0));
    return j.set("solved", J::vec(v)).set("kept", J(q == q0)).set("ok", J(ok)); };
  ops["task"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.c(o)), d; if (o["d"].i()) d = x.pool[(size_t)o["d"].i() - 1]; J j = J::obj();
    Configuration_t q1(x.at(o["q1"], o["e1"])), q(x.at(o["q2"], o["e2"])), q0; std::vector<bool> m; for (auto& b : x.d(o)["mask"].a) m.push_back(b.b);
    ImplicitPtr_t f(Implicit::create(c->functionPtr(), c->comparisonType(), m));
    solver::BySubstitution s(x.dev->configSpace()); s.errorThreshold(1e-4); s.maxIterations(20); s.add(f); if (d) s.add(d);
    s.rightHandSideFromConfig(q1); s.explicitConstraintSet().solve(q); q0 = q;
    vector_t e(s.errorSize()); s.isSatisfied(q, e); j.set("serr", J::vec(e.head(6)));
    s.computeValue<true>(q); s.updateJacobian(q); matrix_t Jm(s.reducedDimension(), s.freeVariables().nbIndices()); s.getReducedJacobian(Jm); j.set("redJ", J::mat(Jm));
    if (!d) { solver::HierarchicalIterative h(x.dev->configSpace()); h.add(f, 0); h.rightHandSideFromConfig(q1); h.computeValue<true>(q); matrix_t J2(h.reducedDimension(), h.freeVariables().nbIndices()); h.getReducedJacobian(J2);
      if (J2.rows() != Jm.rows() || J2.cols() != Jm.cols() || (Jm.size() && (J2 - Jm).norm() > 1e-9)) j.set("redJ", J("differs without substitution")); }
    solver::HierarchicalIterative::Status st = s.solve(q); bool ok = true;
    if (st == solver::HierarchicalIterative::SUCCESS) {
      LiegroupElement v((*c->functionPtr())(q)), w((*c->functionPtr())(q1)); vector_t z(6), lw(w - c->function().outputSpace()->neutral());
      for (long k = 0; k < 6; ++k) if (c->comparisonType()[(size_t)k] != Equality) lw[k] = 0;
      z = v - (c->function().outputSpace()->neutral() + lw); for (long k = 0; k < 6; ++k) if (!m[(size_t)k]) z[k] = 0;
      ok = z.norm() <= 1.001e-4; Configuration_t r(q); s.explicitConstraintSet().solve(r); ok = ok && (r - q).norm() < 1e-6;
    }
    // a reduced Jacobian that is null up to rounding sends the solver (and the device) to absurd configurations
    if (!q.allFinite() || q.cwiseAbs().maxCoeff() > 1e6 || x.dev->currentConfiguration().cwiseAbs().maxCoeff() > 1e6 || !x.dev->currentConfiguration().allFinite()) x.dev->currentConfiguration(x.dev->neutralConfiguration());
    return j.set("honest", J(ok)); };
  ops["eq"] = [](Ctx& x, const J& o) {
    const Implicit &f(*x.pool[(size_t)o["i"].i() - 1]), &g(*x.pool[(size_t)o["k"].i() - 1]);
    bool e = f == g; return J::obj().set("equal", J(e)).set("sym", J((g == f) == e)); };
  return driverMain<Ctx>(ops);
}
