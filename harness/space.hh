// Configuration spaces made of one-dimensional variables and polynomial functions on them.
#ifndef VERIF_SPACE_HH
#define VERIF_SPACE_HH
#include <mjson.hh>
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include <hpp/pinocchio/liegroup-element.hh>
namespace V {
using namespace hpp::constraints;
typedef Eigen::BlockIndex BlockIndex;
static const double U = M_PI / 2;
static double Cos(long k) { static const int t[] = {1, 0, -1, 0}; return t[((k % 4) + 4) % 4]; }
static double Sin(long k) { static const int t[] = {0, 1, 0, -1}; return t[((k % 4) + 4) % 4]; }

// The layout of a configuration: types of variables, indices, conversions.
struct Layout {
  std::vector<std::string> types;
  std::vector<long> qo, vo;
  long nq = 0, nv = 0;
  LiegroupSpacePtr_t space;
  Layout() {}
  explicit Layout(const J& j) {
    LiegroupSpacePtr_t s;
    for (auto& x : j.a) {
      types.push_back(x.s); qo.push_back(nq); vo.push_back(nv);
      LiegroupSpacePtr_t e;
      if (x.s == "R") { e = LiegroupSpace::R1(); nq += 1; nv += 1; }
      else if (x.s == "C") { e = LiegroupSpace::SO2(); nq += 2; nv += 1; }
      else if (x.s == "S") { e = LiegroupSpace::SO3(); nq += 4; nv += 3; }
      else { e = x.s == "P" ? LiegroupSpace::R3xSO3() : LiegroupSpace::SE3(); nq += 7; nv += 6; }
      s = s ? std::operator*(LiegroupSpaceConstPtr_t(s), LiegroupSpaceConstPtr_t(e)) : e;
    }
    space = s ? s : LiegroupSpace::empty();
    if (space->nq() != nq || space->nv() != nv) throw std::runtime_error("HARNESS space");
  }
  long nvars() const { return (long)types.size(); }
  long qs(long v) const { return types[(size_t)v] == "R" ? 1 : types[(size_t)v] == "C" ? 2 : types[(size_t)v] == "S" ? 4 : 7; }
  long vs(long v) const { const std::string& t = types[(size_t)v]; return t == "S" ? 3 : (t == "P" || t == "E") ? 6 : 1; }
  // configuration from one number per variable
  vector_t conf(const J& j) const {
    vector_t q(nq);
    for (long v = 0; v < nvars(); ++v) {
      double x = j[(int)v].n;
      if (types[(size_t)v] == "R") q[qo[(size_t)v]] = x;
      else if (types[(size_t)v] == "C") { q[qo[(size_t)v]] = Cos((long)x); q[qo[(size_t)v] + 1] = Sin((long)x); }
      else q.segment(qo[(size_t)v], 4) << 0, 0, 0, 1;
    }
    return q;
  }
  J unconf(vectorIn_t q) const {
    J j = J::arr();
    for (long v = 0; v < nvars(); ++v) {
      if (types[(size_t)v] == "R") j.push(J(q[qo[(size_t)v]]));
      else if (types[(size_t)v] == "C") {
        double c = q[qo[(size_t)v]], s = q[qo[(size_t)v] + 1];
        if (std::fabs(c * c + s * s - 1) > 1e-6) { j.push(J("not on the circle")); continue; }
        double a = std::atan2(s, c) / U;
        if (a < -1e-7) a += 4;
        j.push(J(a));
      } else {
        vector_t r(q.segment(qo[(size_t)v], 4)); vector_t id(4); id << 0, 0, 0, 1;
        j.push((r - id).norm() < 1e-9 ? J(0) : J("filler changed"));
      }
    }
    return j;
  }
  segments_t confSegs(const std::vector<long>& vars) const {
    segments_t s; for (long v : vars) BlockIndex::add(s, segment_t(qo[(size_t)v], qs(v))); BlockIndex::sort(s); BlockIndex::shrink(s); return s; }
  segments_t velSegs(const std::vector<long>& vars) const {
    segments_t s; for (long v : vars) BlockIndex::add(s, segment_t(vo[(size_t)v], vs(v))); BlockIndex::sort(s); BlockIndex::shrink(s); return s; }
};

// out_k = b_k + sum_j A_kj g_j + c_k g_1^2, with g the value of a real or 2 cos + sin of an angle.
// Outputs of type C are angles counted in quarter turns.
class Poly : public DifferentiableFunction {
 public:
  typedef std::shared_ptr<Poly> Ptr;
  std::vector<std::string> ti, to;
  std::vector<long> qo, vo;  // where each input variable is in the argument
  Eigen::MatrixXd A; Eigen::VectorXd b, c;
  bool unitless;  // derivative of angles counted in quarter turns
  long id;
  bool degenerate = false;
  double lim = 1e30;  // not defined where the first variable, a real, is greater
  Poly(const std::vector<std::string>& ti_, const std::vector<std::string>& to_, const J& j, bool unitless_, const std::string& name, long nq, long nv, LiegroupSpacePtr_t os, long id_)
      : DifferentiableFunction(nq, nv, os, name), ti(ti_), to(to_), unitless(unitless_), id(id_) {
    A = Eigen::MatrixXd::Zero((long)to.size(), (long)ti.size());
    b = j["b"].v(); c = j["c"].v();
    for (size_t k = 0; k < to.size(); ++k) for (size_t l = 0; l < ti.size(); ++l) A((long)k, (long)l) = j["A"][k][l].n;
    long o = 0, v = 0;
    for (auto& t : ti) { qo.push_back(o); vo.push_back(v); o += t == "R" ? 1 : t == "C" ? 2 : 4; v += t == "S" ? 3 : 1; }
  }
  // on a whole configuration, reading the given variables only
  static Ptr onConfig(const Layout& l, const std::vector<long>& ins, const std::vector<std::string>& to, const J& j, bool unitless, const std::string& name, long id) {
    std::vector<std::string> ti;
    for (long v : ins) ti.push_back(l.types[(size_t)v]);
    Ptr p(new Poly(ti, to, j, unitless, name, l.nq, l.nv, spaceOf(to), id));
    p->activeParameters_.setConstant(false); p->activeDerivativeParameters_.setConstant(false);
    for (size_t i = 0; i < ins.size(); ++i) {
      long v = ins[i]; p->qo[i] = l.qo[(size_t)v]; p->vo[i] = l.vo[(size_t)v];
      p->activeParameters_.segment(l.qo[(size_t)v], l.qs(v)).setConstant(true);
      p->activeDerivativeParameters_.segment(l.vo[(size_t)v], l.vs(v)).setConstant(true);
    }
    return p;
  }
  static LiegroupSpacePtr_t spaceOf(const std::vector<std::string>& t) {
    LiegroupSpacePtr_t s;
    for (auto& x : t) { LiegroupSpacePtr_t e = x == "C" ? LiegroupSpace::SO2() : LiegroupSpace::R1(); s = s ? std::operator*(LiegroupSpaceConstPtr_t(s), LiegroupSpaceConstPtr_t(e)) : e; }
    if (!s) s = LiegroupSpace::empty();
    s->mergeVectorSpaces();
    return s;
  }
  // on a subset of the variables of a layout (input = the entries of those variables)
  static Ptr onSubset(const Layout& l, const std::vector<long>& ins, const std::vector<long>& outs, const J& j, bool unitless, const std::string& name, long id) {
    std::vector<std::string> ti, to; long nq = 0, nv = 0;
    for (long v : ins) { ti.push_back(l.types[(size_t)v]); nq += l.qs(v); nv += l.vs(v); }
    for (long v : outs) to.push_back(l.types[(size_t)v]);
    return Ptr(new Poly(ti, to, j, unitless, name, nq, nv, spaceOf(to), id));
  }
 protected:
  void eval(vectorIn_t x, Eigen::VectorXd& g, Eigen::VectorXd& dg) const {
    g.resize((long)ti.size()); dg.resize((long)ti.size());
    for (size_t i = 0; i < ti.size(); ++i) {
      long o = qo[i];
      if (ti[i] == "R") { g[(long)i] = x[o]; dg[(long)i] = 1; }
      else if (ti[i] == "C") { g[(long)i] = 2 * x[o] + x[o + 1]; dg[(long)i] = x[o] - 2 * x[o + 1]; }
      else g[(long)i] = dg[(long)i] = 0;
    }
  }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const {
    if (lim < 1e29 && x[qo[0]] > lim) throw FunctionNotDefinedForThisValue();
    Eigen::VectorXd g, dg; eval(x, g, dg);
    Eigen::VectorXd y = b; if (g.size() > 0) y += A * g + c * (g[0] * g[0]);
    long o = 0;
    for (size_t k = 0; k < to.size(); ++k) {
      if (to[k] == "C") { double a = y[(long)k]; double ra = std::round(a);
        if (std::fabs(ra - a) < 1e-7) { r.vector()[o] = Cos((long)ra); r.vector()[o + 1] = Sin((long)ra); }
        else { r.vector()[o] = std::cos(a * U); r.vector()[o + 1] = std::sin(a * U); }
        o += 2; }
      else r.vector()[o++] = y[(long)k];
    }
  }
  void impl_jacobian(matrixOut_t Jm, vectorIn_t x) const {
    Eigen::VectorXd g, dg; eval(x, g, dg);
    Jm.setZero();
    for (size_t k = 0; k < to.size(); ++k)
      for (size_t l = 0; l < ti.size(); ++l)
        Jm((long)k, vo[l]) = (A((long)k, (long)l) + (l == 0 ? 2 * c[(long)k] * g[0] : 0)) * dg[(long)l] * ((to[k] == "C" && !unitless) ? U : 1);
  }
  bool isEqual(const DifferentiableFunction& o) const {
    const Poly& p = dynamic_cast<const Poly&>(o);
    return id == p.id && DifferentiableFunction::isEqual(o);
  }
 private:
  friend class boost::serialization::access;
  Poly() {}
  template <class Archive> void serialize(Archive& ar, const unsigned int version);
};
// out_k = rf[k][0] + rf[k][1] * t, angles in quarter turns
class TimeFn : public DifferentiableFunction {
 public:
  std::vector<std::string> to; J rf;
  TimeFn(const std::vector<std::string>& to_, const J& rf_, LiegroupSpacePtr_t os) : DifferentiableFunction(1, 1, os, "rhs"), to(to_), rf(rf_) {}
 protected:
  void impl_compute(LiegroupElementRef r, vectorIn_t t) const {
    long o = 0;
    for (size_t k = 0; k < to.size(); ++k) { double y = rf[k][0].n + rf[k][1].n * t[0];
      if (to[k] == "C") { double ra = std::round(y); bool in = std::fabs(ra - y) < 1e-7; r.vector()[o++] = in ? Cos((long)ra) : std::cos(y * U); r.vector()[o++] = in ? Sin((long)ra) : std::sin(y * U); }
      else r.vector()[o++] = y; }
  }
  void impl_jacobian(matrixOut_t Jm, vectorIn_t) const { for (size_t k = 0; k < to.size(); ++k) Jm((long)k, 0) = rf[k][1].n * (to[k] == "C" ? U : 1); }
 private:
  friend class boost::serialization::access;
  TimeFn() {}
  template <class Archive> void serialize(Archive& ar, const unsigned int version);
};
static ComparisonTypes_t comps(const J& j) {
  ComparisonTypes_t r;
  for (auto& x : j.a) r.push_back(x.s == "Equality" ? Equality : x.s == "EqualToZero" ? EqualToZero : x.s == "Superior" ? Superior : Inferior);
  return r;
}
static J idx(const segments_t& s) { J a = J::arr(); for (auto& x : s) for (long k = 0; k < x.second; ++k) a.push(J((long)(x.first + k))); return a; }
static std::vector<long> vars1(const J& j) { std::vector<long> r; for (auto& x : j.a) r.push_back(x.i() - 1); return r; }
static std::vector<long> range1(long lo, long hi) { std::vector<long> r; for (long k = lo; k <= hi; ++k) r.push_back(k - 1); return r; }
// make the explicit constraint described by {ins, lo, hi, A, b, c, comp}
static std::vector<bool> maskOf(const J& c) { std::vector<bool> m; if (c.has("mask")) for (auto& x : c["mask"].a) m.push_back(x.b); return m; }
static std::vector<std::string> strs(const J& j) { std::vector<std::string> r; for (auto& x : j.a) r.push_back(x.s); return r; }
static ExplicitPtr_t makeExplicit(const Layout& l, const J& c, bool unitless, long id) {
  std::vector<long> in = vars1(c["ins"]), out = range1(c["lo"].i(), c["hi"].i());
  std::ostringstream nm; nm << "f" << id;
  Poly::Ptr f = Poly::onSubset(l, in, out, c, unitless, nm.str(), id);
  return Explicit::create(l.space, f, l.confSegs(in), l.confSegs(out), l.velSegs(in), l.velSegs(out), comps(c["comp"]),
                          maskOf(c));
}
static ImplicitPtr_t makeImplicit(const Layout& l, const J& c, bool unitless, long id) {
  std::ostringstream nm; nm << "g" << id;
  return Implicit::create(Poly::onConfig(l, vars1(c["ins"]), strs(c["to"]), c, unitless, nm.str(), id), comps(c["comp"]), maskOf(c));
}
}  // namespace V
#endif
