// Conformance driver of Composition.tla.
#include <robot.hh>
#include <space.hh>
#include <serial.hh>
#include <Eigen/Geometry>
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/explicit/implicit-function.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <pinocchio/spatial/explog.hpp>
using namespace V;
typedef DifferentiableFunctionPtr_t F;
static const double GARBAGE = 12345.;

static Eigen::Vector4d quat(const J& R, bool neg) {
  Eigen::Quaterniond q(rot(R)); Eigen::Vector4d v(q.coeffs());
  for (int i = 0; i < 4; ++i) if (std::fabs(v[i]) < 1e-12) v[i] = 0;
  return neg ? Eigen::Vector4d(-v) : v;
}
// configuration of a domain: a number, a rotation, or a pose per variable
static vector_t confOf(const Layout& l, const J& x, bool neg) {
  vector_t q(l.nq);
  for (long v = 0; v < l.nvars(); ++v) {
    long o = l.qo[(size_t)v]; const std::string& t = l.types[(size_t)v]; const J& y = x[(int)v];
    if (t == "R") q[o] = y.n;
    else if (t == "C") { q[o] = Cos((long)y.n); q[o + 1] = Sin((long)y.n); }
    else if (t == "S") q.segment(o, 4) = quat(y, neg);
    else { q.segment(o, 3) = vec3(y["t"]); q.segment(o + 3, 4) = quat(y["R"], neg); }
  }
  return q;
}
static J rotJ(const Eigen::Matrix3d& R) { return J::mat(R); }
static J poseJ(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) { J j = J::obj(); j.set("R", rotJ(R)).set("t", J::vec(t)); return j; }
static long qsz(const std::string& t) { return t == "R" || t == "A" ? 1 : t == "C" ? 2 : t == "L" ? 3 : t == "S" ? 4 : t == "W" ? 6 : 7; }
static long vsz(const std::string& t) { return t == "R" || t == "A" || t == "C" ? 1 : t == "L" || t == "S" ? 3 : 6; }
static Eigen::Matrix3d qrot(const Eigen::VectorXd& q) { if (std::fabs(q.norm() - 1) > 1e-6) throw std::runtime_error("not a unit quaternion"); return Eigen::Quaterniond(q[3], q[0], q[1], q[2]).toRotationMatrix(); }
static J unval(const std::vector<std::string>& out, const vector_t& y) {
  J a = J::arr(); long o = 0;
  for (auto& t : out) {
    Eigen::VectorXd s(y.segment(o, qsz(t)));
    if (t == "R") a.push(J(s[0]));
    else if (t == "A") a.push(J(s[0] / U));
    else if (t == "C") { double k = std::atan2(s[1], s[0]) / U; if (k < -1e-7) k += 4; a.push(std::fabs(s.norm() - 1) > 1e-6 ? J("not on the circle") : J(k)); }
    else if (t == "S") a.push(rotJ(qrot(s)));
    else if (t == "L") a.push(rotJ(::pinocchio::exp3(Eigen::Vector3d(s))));
    else if (t == "W") { ::pinocchio::SE3 m(::pinocchio::exp6(::pinocchio::Motion(s))); a.push(poseJ(m.rotation(), m.translation())); }
    else a.push(poseJ(qrot(s.tail(4)), s.head(3)));
    o += qsz(t);
  }
  return a;
}
// derivative with logarithms undone
static J unjac(const std::vector<std::string>& out, const vector_t& y, const matrix_t& Jm) {
  matrix_t R(Jm); long o = 0, v = 0;
  for (auto& t : out) {
    if (t == "L") { Eigen::Matrix3d E; ::pinocchio::Jexp3(Eigen::Vector3d(y.segment(o, 3)), E); R.middleRows(v, 3) = E * Jm.middleRows(v, 3); }
    else if (t == "W") { Eigen::Matrix<double, 6, 6> E; ::pinocchio::Jexp6(::pinocchio::Motion(Eigen::VectorXd(y.segment(o, 6))), E); R.middleRows(v, 6) = E * Jm.middleRows(v, 6); }
    o += qsz(t); v += vsz(t);
  }
  return J::mat(R);
}
static J boolsJ(const Eigen::Array<bool, Eigen::Dynamic, 1>& a) { J j = J::arr(); for (long i = 0; i < a.size(); ++i) j.push(J((bool)a[i])); return j; }
struct Fn { F f; Layout dom; std::vector<std::string> out; };
struct Ctx {
  std::vector<Fn> pool; std::vector<ImplicitPtr_t> cons; std::map<long, F> polys;
  Ctx(const J&) {}
  static vector_t value(const F& f, const vector_t& q) {
    LiegroupElement a((*f)(q));
    vector_t g(vector_t::Constant(f->outputSize(), GARBAGE)); LiegroupElement b(g, f->outputSpace());
    f->value(b, q);
    if (!a.vector().isApprox(b.vector(), 1e-12) && (a.vector() - b.vector()).norm() > 1e-12) throw std::runtime_error("value and operator() differ");
    return a.vector();
  }
};
static segment_t seg(long a, long n) { return segment_t(a, n); }
static F make(Ctx& x, const J& f, const Layout& d) {
  std::string k = f["kind"].s, nm = f.has("name") ? f["name"].s : "";
  if (k == "affine") { Eigen::MatrixXd A(f["A"].m(d.nv)); vector_t b(f["b"].v()); bool z = b.isZero(); return z && x.pool.size() % 2 ? AffineFunction::create(A, nm) : AffineFunction::create(A, b, nm); }
  if (k == "poly") return Poly::onConfig(d, vars1(f["ins"]), strs(f["to"]), f, true, nm, f["id"].i());
  if (k == "const") { Layout o(f["out"]); vector_t v(confOf(o, f["v"], false)); bool vs = true; for (auto& t : o.types) vs = vs && t == "R";
    if (vs && x.pool.size() % 2) return ConstantFunction::create(v, d.nq, d.nv, nm);
    LiegroupSpacePtr_t sp(vs ? LiegroupSpace::Rn(o.nq) : o.space); return ConstantFunction::create(LiegroupElement(v, sp), d.nq, d.nv, nm); }
  if (k == "ident") return Identity::create(d.space, nm);
  if (k == "stack") { DifferentiableFunctionSetPtr_t s(DifferentiableFunctionSet::create(nm)); 
    if (f["parts"].size() > 1 && x.pool.size() % 2) { // through a merge
      DifferentiableFunctionSetPtr_t s2(DifferentiableFunctionSet::create("other"));
      for (size_t i = 1; i < f["parts"].size(); ++i) s2->add(x.pool[(size_t)f["parts"][i].i() - 1].f);
      s->add(x.pool[(size_t)f["parts"][0].i() - 1].f); s->merge(s2); return s; }
    for (auto& p : f["parts"].a) s->add(x.pool[(size_t)p.i() - 1].f); return s; }
  Fn& g = x.pool[(size_t)f["f"].i() - 1];
  auto at = [&](long a, bool vel) { long n = g.dom.nvars(); long o = 0; for (long i = 0; i < a; ++i) o += vel ? d.vs(i) : d.qs(i); (void)n; return seg(o, vel ? g.dom.nv : g.dom.nq); };
  if (k == "diff") return F(new function::Difference(g.f, d.nq, d.nv, at(f["l"].i(), false), at(f["l"].i(), true), at(f["r"].i(), false), at(f["r"].i(), true)));
  if (k == "subset") return function::OfParameterSubset::create(g.f, d.nq, d.nv, at(f["at"].i(), false), at(f["at"].i(), true));
  if (k == "active") { segments_t s; for (auto& i : f["iv"].a) s.push_back(seg(i[0].i(), i[1].i())); return F(new ActiveSetDifferentiableFunction(g.f, s)); }
  if (k == "extract") return DifferentiableFunction::extract(g.f, interval_t((double)f["t1"].i(), (double)f["t2"].i()));
  std::vector<long> in = vars1(f["ins"]), out = range1(f["lo"].i(), f["hi"].i());
  if (k == "implicit") return explicit_::ImplicitFunction::create(d.space, g.f, d.confSegs(in), d.confSegs(out), d.velSegs(in), d.velSegs(out));
  throw std::runtime_error("HARNESS kind " + k);
}
static J sizes(const Fn& n) {
  J j = J::obj();
  j.set("nq", J((long)n.f->inputSize())).set("nv", J((long)n.f->inputDerivativeSize())).set("onq", J((long)n.f->outputSize())).set("onv", J((long)n.f->outputDerivativeSize()));
  j.set("act", boolsJ(n.f->activeParameters())).set("actD", boolsJ(n.f->activeDerivativeParameters()));
  return j;
}
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["mk"] = [](Ctx& x, const J& o) {
    const J& f = o["f"]; Fn n; n.dom = Layout(f["dom"]); n.out = strs(f["out"]);
    // functions that only the test knows are the same when they have the same number
    if (f["kind"].s == "poly" && x.polys.count(f["id"].i())) n.f = x.polys[f["id"].i()];
    else n.f = make(x, f, n.dom);
    if (f["kind"].s == "poly") x.polys[f["id"].i()] = n.f;
    x.pool.push_back(n); return sizes(n); };
  ops["save"] = [](Ctx& x, const J& o) {
    Fn n(x.pool[(size_t)o["i"].i() - 1]); F h; restore(o["ar"].s, n.f, h);
    if (!h) throw std::runtime_error("not restored");
    if (h->name() != n.f->name()) throw std::runtime_error("restored with another name");
    if (*h->outputSpace() != *n.f->outputSpace()) throw std::runtime_error("restored with another output space");
    n.f = h; x.pool.push_back(n); J j(sizes(n)); j.set("saved", J(true)); return j; };
  ops["eval"] = [](Ctx& x, const J& o) {
    Fn& n = x.pool[(size_t)o["i"].i() - 1]; bool neg = o["neg"].b;
    vector_t q(confOf(n.dom, o["x"], neg)), y(Ctx::value(n.f, q));
    matrix_t Jm(matrix_t::Constant(n.f->outputDerivativeSize(), n.f->inputDerivativeSize(), GARBAGE)); n.f->jacobian(Jm, q);
    // a larger matrix, as when functions are stacked
    matrix_t B(matrix_t::Constant(Jm.rows() + 2, Jm.cols() + 3, -GARBAGE)); n.f->jacobian(B.block(1, 2, Jm.rows(), Jm.cols()), q);
    bool inside = B.row(0).isConstant(-GARBAGE) && B.bottomRows(1).isConstant(-GARBAGE) && B.leftCols(2).isConstant(-GARBAGE) && B.rightCols(1).isConstant(-GARBAGE);
    J j = J::obj(); j.set("val", unval(n.out, y));
    bool same = (Jm - B.block(1, 2, Jm.rows(), Jm.cols())).norm() <= 1e-9 * (1 + Jm.norm());
    j.set("jac", !inside ? J("wrote outside of the matrix") : !same ? J("depends on what the matrix held") : unjac(n.out, y, Jm));
    // what is declared inactive has no effect
    bool sound = n.f->activeParameters().size() == n.dom.nq && n.f->activeDerivativeParameters().size() == n.dom.nv;
    if (sound) {
      for (long c = 0; c < Jm.cols(); ++c) if (!n.f->activeDerivativeParameters()[c] && Jm.col(c).norm() > 1e-9) sound = false;
      for (long v = 0; v < n.dom.nvars(); ++v) {
        vector_t q2(q); long b = n.dom.qo[(size_t)v], s = n.dom.qs(v);
        if (n.f->activeParameters().segment(b, s).any()) continue;
        if (n.dom.types[(size_t)v] == "R") q2[b] += 2; else if (n.dom.types[(size_t)v] == "C") { q2[b] = -q[b + 1]; q2[b + 1] = q[b]; }
        else { if (s == 7) q2[b] += 1; Eigen::Quaterniond r(q[b + s - 1], q[b + s - 4], q[b + s - 3], q[b + s - 2]); r = r * Eigen::Quaterniond(Eigen::AngleAxisd(.7, Eigen::Vector3d(1, 2, 3).normalized())); q2.segment(b + s - 4, 4) = r.coeffs(); }
        if ((Ctx::value(n.f, q2) - y).norm() > 1e-9) sound = false;
      }
    }
    j.set("sound", J(sound)); return j; };
  ops["fd"] = [](Ctx& x, const J& o) {
    Fn& n = x.pool[(size_t)o["i"].i() - 1]; vector_t q(confOf(n.dom, o["x"], false)), y(Ctx::value(n.f, q));
    bool vec = true; J js = J::arr();
    for (auto& t : n.dom.types) { vec = vec && t == "R"; J k = J::obj(); k.set("type", J(t == "R" ? "PX" : t == "C" ? "RZ" : t == "S" ? "S" : "FF")).set("parent", J(0)); js.push(k); }
    DevicePtr_t dev; if (!vec) dev = makeRobot(js);
    matrix_t Jm(matrix_t::Constant(n.f->outputDerivativeSize(), n.f->inputDerivativeSize(), GARBAGE));
    if (o["central"].b) n.f->finiteDifferenceCentral(Jm, q, dev); else n.f->finiteDifferenceForward(Jm, q, dev);
    J j = J::obj(); j.set("fd", unjac(n.out, y, Jm)); return j; };
  ops["mkc"] = [](Ctx& x, const J& o) {
    const J& c = o["c"]; Fn& g = x.pool[(size_t)c["f"].i() - 1];
    if (c["kind"].s == "implicit") x.cons.push_back(Implicit::create(g.f, comps(c["comp"]), maskOf(c)));
    else { Layout d(c["dom"]); std::vector<long> in = vars1(c["ins"]), out = range1(c["lo"].i(), c["hi"].i());
      x.cons.push_back(Explicit::create(d.space, g.f, d.confSegs(in), d.confSegs(out), d.velSegs(in), d.velSegs(out), comps(c["comp"]), maskOf(c))); }
    return J::obj().set("made", J(true)); };
  ops["copyc"] = [](Ctx& x, const J& o) { x.cons.push_back(x.cons[(size_t)o["i"].i() - 1]->copy()); return J::obj().set("made", J(true)); };
  ops["comp"] = [](Ctx& x, const J& o) { x.cons[(size_t)o["i"].i() - 1]->comparisonType(comps(o["comp"])); return J::obj().set("made", J(true)); };
  ops["eq"] = [](Ctx& x, const J&) {
    J a = J::arr(), b = J::arr();
    for (auto& f : x.pool) { J r = J::arr(); for (auto& g : x.pool) { bool e = *f.f == *g.f; r.push(e == !(*f.f != *g.f) ? J(e) : J("== and != disagree")); } a.push(r); }
    for (auto& f : x.cons) { J r = J::arr(); for (auto& g : x.cons) r.push(J(*f == *g)); b.push(r); }
    J j = J::obj(); j.set("eq", a).set("eqc", b); return j; };
  return driverMain<Ctx>(ops);
}
