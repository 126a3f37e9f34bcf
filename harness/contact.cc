// Conformance driver of Contact.tla.
#include <geom.hh>
#include <hpp/constraints/convex-shape.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/pinocchio/device-sync.hh>
using namespace V;
struct Ctx {
  DevicePtr_t dev; J joints; long extra = 0, k = 0; std::vector<ConvexShape> shapes; std::vector<DifferentiableFunctionPtr_t> fns; std::vector<ConvexShapeContactPtr_t> contacts; std::vector<ConvexShapeContactComplementPtr_t> compl_; std::vector<J> desc; std::map<size_t, ExplicitPtr_t> holds;
  Ctx(const J&) {}
  Configuration_t at(const J& q) { return robotConf(joints, q, extra, ++k % 3 == 0, 1.); }
  void stand(const J& q) { dev->currentConfiguration(at(q)); dev->computeForwardKinematics((hpp::pinocchio::Computation_t)(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN)); }
  std::vector<vector3_t> pts(const J& p) { std::vector<vector3_t> r; for (auto& x : p.a) r.push_back(vec3(x)); return r; }
  // the explicit constraint of a function, sometimes a copy of it
  ExplicitPtr_t hold(const J& o) {
    size_t i = (size_t)o["i"].i() - 1; ExplicitPtr_t& c = holds[i];
    if (!c) c = explicit_::ConvexShapeContact::create("c", dev, surfaces(desc[i]["floors"]), surfaces(desc[i]["objects"]), desc[i]["margin"].n);
    else if (++k % 4 == 0) c = HPP_DYNAMIC_PTR_CAST(Explicit, c->copy());
    return c;
  }
  JointAndShapes_t surfaces(const J& l) { JointAndShapes_t r; for (auto& s : l.a) r.push_back(JointAndShape_t(jointOf(dev, s["j"].i()), pts(s["pts"]))); return r; }
};
static J ptsJ(const std::vector<vector3_t>& p) { J a = J::arr(); for (auto& x : p) a.push(J::vec(x)); return a; }
static J info(const ConvexShape& s) {
  J j = J::obj(); j.set("center", J::vec(s.C_)).set("dim", J((long)s.shapeDimension_));
  if (s.shapeDimension_ != 2) j.set("normal", J::vec(s.N_)).set("frame", poseJ(s.positionInJoint().rotation(), s.positionInJoint().translation()));
  return j;
}
static J frac(const vector3_t& v) { return J::vec(v); }
static long jid(const JointPtr_t& j) { return j ? (long)j->index() : 0; }
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["robot"] = [](Ctx& x, const J& o) { x.joints = o["joints"]; x.extra = o["extra"].i(); x.dev = makeRobot(x.joints, x.extra); return J::obj(); };
  ops["conf"] = [](Ctx& x, const J& o) { x.stand(o["q"]); return J::obj(); };
  ops["shape"] = [](Ctx& x, const J& o) {
    std::vector<vector3_t> p(x.pts(o["pts"])); JointPtr_t j(jointOf(x.dev, o["j"].i()));
    if (p.size() == 3 && x.shapes.size() % 3 == 1) x.shapes.push_back(ConvexShape(p[0], p[1], p[2], j));
    else if (p.size() == 3 && x.shapes.size() % 3 == 2) x.shapes.push_back(ConvexShape(coal::TriangleP(p[0], p[1], p[2]), j));
    else x.shapes.push_back(ConvexShape(p, j));
    return info(x.shapes.back()); };
  ops["reverse"] = [](Ctx& x, const J& o) { ConvexShape& s = x.shapes[(size_t)o["i"].i() - 1]; s.reverse(); return info(s); };
  ops["copy"] = [](Ctx& x, const J& o) { ConvexShape c(x.shapes[(size_t)o["i"].i() - 1]); x.shapes.push_back(c); return info(c); };
  ops["same"] = [](Ctx& x, const J& o) {
    const ConvexShape &a = x.shapes[(size_t)o["i"].i() - 1], &b = x.shapes[(size_t)o["k"].i() - 1]; bool e = a == b;
    if (e == (a != b)) return J::obj().set("same", J("inconsistent"));
    return J::obj().set("same", J(e)); };
  ops["local"] = [](Ctx& x, const J& o) {
    const ConvexShape& s = x.shapes[(size_t)o["i"].i() - 1]; vector3_t a(vec3(o["a"]));
    return J::obj().set("dist", J((double)s.distanceLocal(a))).set("within", J(s.isInsideLocal(a))); };
  ops["line"] = [](Ctx& x, const J& o) { const ConvexShape& s = x.shapes[(size_t)o["i"].i() - 1]; return J::obj().set("cut", frac(s.intersectionLocal(vec3(o["a"]), vec3(o["u"])))); };
  ops["world"] = [](Ctx& x, const J& o) {
    const ConvexShape& s = x.shapes[(size_t)o["i"].i() - 1]; x.stand(o["q"]); ConvexShapeData d;
    if (++x.k % 2) d.updateToCurrentTransform(s); else { hpp::pinocchio::DeviceSync ds(x.dev); ds.currentConfiguration(x.dev->currentConfiguration()); ds.computeForwardKinematics(hpp::pinocchio::JOINT_POSITION); d.updateToCurrentTransform(s, ds.d()); }
    vector3_t p(vec3(o["p"])), a(vec3(o["a"])), u(vec3(o["u"]));
    J j = J::obj(); j.set("center", J::vec(d.center_)).set("normal", J::vec(d.normal_)).set("cut", frac(d.intersection(a, u))).set("within", J(d.isInside(s, p))).set("through", J(d.isInside(s, a, u))).set("dist", J((double)d.distance(s, p)));
    return j; };
  ops["align"] = [](Ctx& x, const J& o) {
    const ConvexShape& s = x.shapes[(size_t)o["i"].i() - 1];
    if (s.shapeDimension_ <= 2) return J::obj().set("align", J("skip"));
    x.stand(o["q"]); ConvexShapeData d; d.updateToCurrentTransform(s);
    Transform3s M(d.alignedPositionInJoint(s, vec3(o["y"]))); return J::obj().set("align", poseJ(M.rotation(), M.translation())); };
  ops["seg"] = [](Ctx&, const J& o) { vector3_t b; closestPointToSegment(vec3(o["a"]), vec3(o["p"]), vec3(o["v"]), b); return J::obj().set("pt", frac(b)); };
  ops["mk"] = [](Ctx& x, const J& o) {
    const J& n = o["fn"]; JointAndShapes_t fl(x.surfaces(n["floors"])), ob(x.surfaces(n["objects"])); std::string k = n["kind"].s;
    ConvexShapeContactPtr_t c; ConvexShapeContactComplementPtr_t cc; DifferentiableFunctionPtr_t f;
    double margin = n["margin"].n;
    if (o["pl"].b && ++x.k % 3) {
      explicit_::ConvexShapeContact::Constraints_t t(explicit_::ConvexShapeContact::createConstraintAndComplement("f", x.dev, fl, ob, margin));
      c = HPP_DYNAMIC_PTR_CAST(ConvexShapeContact, std::get<0>(t)->functionPtr()); cc = HPP_DYNAMIC_PTR_CAST(ConvexShapeContactComplement, std::get<1>(t)->functionPtr());
      if (k == "contact") f = c; else if (k == "compl") f = cc;
      else { x.holds[x.fns.size()] = std::get<2>(t); f = std::get<2>(t)->functionPtr(); ConvexShapeContactHoldPtr_t h(HPP_DYNAMIC_PTR_CAST(ConvexShapeContactHold, f)); c = h->contactConstraint(); cc = h->complement(); }
      margin = 0;
    }
    else if (k == "contact") f = c = ConvexShapeContact::create("f", x.dev, fl, ob);
    else if (k == "compl") { std::pair<ConvexShapeContactPtr_t, ConvexShapeContactComplementPtr_t> p(ConvexShapeContactComplement::createPair("f", x.dev, fl, ob)); c = p.first; f = cc = p.second; }
    else { ConvexShapeContactHoldPtr_t h(ConvexShapeContactHold::create("f", x.dev, fl, ob)); c = h->contactConstraint(); cc = h->complement(); f = h; }
    if (margin) c->setNormalMargin(margin);
    x.desc.push_back(n);
    x.fns.push_back(f); x.contacts.push_back(c); x.compl_.push_back(cc);
    return J::obj().set("nq", J((long)f->outputSize())); };
  ops["val"] = [](Ctx& x, const J& o) {
    size_t i = (size_t)o["i"].i() - 1; vector_t v((*x.fns[i])(x.at(o["q"])).vector()); return J::obj().set("val", J::obj().set("v", J::vec(v)).set("radius", J((double)x.contacts[i]->radius()))); };
  ops["jac"] = [](Ctx& x, const J& o) {
    size_t i = (size_t)o["i"].i() - 1; DifferentiableFunctionPtr_t f(x.fns[i]); matrix_t Jm(matrix_t::Constant(f->outputDerivativeSize(), f->inputDerivativeSize(), 12345.));
    f->jacobian(Jm, x.at(o["q"])); return J::obj().set("jac", J::mat(Jm)); };
  ops["decode"] = [](Ctx& x, const J& o) {
    size_t i = (size_t)o["i"].i() - 1; LiegroupElement v((*x.fns[i])(x.at(o["q"]))), r(LiegroupSpace::R3xSO3()); std::size_t fl = 99, ob = 99;
    x.compl_[i]->computeRelativePoseRightHandSide(v, fl, ob, r); Eigen::Quaterniond q(r.vector().tail<4>()); J j = J::obj();
    j.set("k", J((long)fl)).set("i", J((long)ob)).set("pose", poseJ(q.toRotationMatrix(), r.vector().head<3>())); return J::obj().set("decode", j); };
  ops["forces"] = [](Ctx& x, const J& o) {
    std::vector<ConvexShapeContact::ForceData> fd(x.contacts[(size_t)o["i"].i() - 1]->computeContactPoints(x.at(o["q"]), 0.5 * o["h"].n)); J a = J::arr();
    for (auto& d : fd) { J j = J::obj(); j.set("j", J(jid(d.joint))).set("s", J(jid(d.supportJoint))).set("pts", ptsJ(d.points)).set("n", J::vec(d.normal)); a.push(j); }
    return J::obj().set("forces", a); };
  ops["info"] = [](Ctx& x, const J& o) {
    DifferentiableFunctionPtr_t f(x.fns[(size_t)o["i"].i() - 1]); std::pair<JointConstPtr_t, JointConstPtr_t> p(f->dependsOnRelPoseBetween(x.dev)); J a = J::arr();
    a.push(J((long)(p.first ? p.first->index() : 0))).push(J((long)(p.second ? p.second->index() : 0)));
    return J::obj().set("active", boolsOf(f->activeParameters())).set("activeD", boolsOf(f->activeDerivativeParameters())).set("pair", a); };
  ops["eq"] = [](Ctx& x, const J& o) {
    DifferentiableFunctionPtr_t a(x.fns[(size_t)o["i"].i() - 1]), b(x.fns[(size_t)o["k"].i() - 1]); bool e = *a == *b;
    if (e != (*b == *a) || e == (*a != *b)) return J::obj().set("equal", J("inconsistent"));
    return J::obj().set("equal", J(e)); };
  ops["hold"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.hold(o)); J j = J::obj(), t = J::arr(); long nq = x.dev->configSize(), nv = x.dev->numberDof();
    for (auto k : c->comparisonType()) t.push(J(k == Equality ? "E" : k == EqualToZero ? "Z" : "?"));
    return j.set("inC", flagsOf(c->inputConf(), nq)).set("inV", flagsOf(c->inputVelocity(), nv)).set("outC", flagsOf(c->outputConf(), nq)).set("outV", flagsOf(c->outputVelocity(), nv)).set("comp", t); };
  ops["place"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.hold(o)); const J& r = o["r"]; LiegroupElement h(LiegroupSpace::Rn(8)); h.setNeutral(); size_t i = (size_t)o["i"].i() - 1; double M = x.contacts[i]->radius();
    h.vector()[7] = r["th"].n * M_PI / 2; size_t at = r["inside"].b ? 5 : 1; h.vector()[5] = 2 * M * (r["k"].n - 1); h.vector()[6] = 2 * M * (r["i"].n - 1); h.vector()[at] += r["y"].n; h.vector()[at + 1] += r["z"].n;
    Configuration_t q(x.at(o["q"])); Eigen::RowBlockIndices in(c->inputConf()); vector_t qin(in.rview(q)); DifferentiableFunctionPtr_t f(c->explicitFunction()); LiegroupElement v(f->outputSpace());
    c->outputValue(v, qin, h); matrix_t Jm(matrix_t::Constant(f->outputDerivativeSize(), f->inputDerivativeSize(), 12345.)); LiegroupElement fv((*f)(qin)); c->jacobianOutputValue(qin, fv, h, Jm);
    return J::obj().set("out", J::vec(v.vector())).set("outjac", Jm.cols() ? J::mat(Jm) : J::arr()); };
  ops["solve"] = [](Ctx& x, const J& o) {
    ExplicitPtr_t c(x.hold(o)); ExplicitConstraintSet s(x.dev->configSpace()); s.errorThreshold(1e-4); J j = J::obj();
    bool ok = s.add(c) >= 0; s.rightHandSideFromInput(x.at(o["q1"])); Configuration_t q0(x.at(o["q2"])), q(q0); ok = s.solve(q) && ok; ok = ok && s.isSatisfied(q);
    Eigen::RowBlockIndices out(c->outputConf()); vector_t v(out.rview(q)); out.lview(q) = vector_t(out.rview(q0));
    return j.set("solved", J::vec(v)).set("kept", J(q == q0)).set("ok", J(ok)); };
  return driverMain<Ctx>(ops);
}
