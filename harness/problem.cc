// Conformance driver of Problem.tla: solver::BySubstitution.
#include <space.hh>
#include <serial.hh>
#include <hpp/constraints/implicit-constraint-set.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/constraints/solver/impl/by-substitution.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
using namespace V;
typedef solver::BySubstitution BS;
struct Known { J c; ImplicitPtr_t obj; long id; bool imp; std::vector<std::string> to; };
struct NoOp {
  template <typename S> bool operator()(const S&, vectorOut_t, vectorOut_t) { return true; }
};
struct Ctx {
  Layout l; std::vector<Known> known; bool unitless = true;
  std::shared_ptr<BS> p, p2, m; vector_t final;  // m: restored from p
  Ctx(const J&) {}
  size_t get(const J& c) {
    for (size_t i = 0; i < known.size(); ++i) if (known[i].id == c["id"].i() && same(known[i].c["comp"], c["comp"])) return i;
    Known k; k.c = c; k.id = c["id"].i(); k.imp = c["kind"].s == "imp"; k.to = strs(c["to"]);
    if (k.imp) k.obj = makeImplicit(l, c, unitless, k.id); else k.obj = makeExplicit(l, c, unitless, k.id);
    if (c["rf"].size()) k.obj->rightHandSideFunction(DifferentiableFunctionPtr_t(new TimeFn(k.imp ? k.to : std::vector<std::string>(k.to.size(), "R"), c["rf"], k.obj->function().outputSpace())));
    known.push_back(k); return known.size() - 1;
  }
  static bool same(const J& a, const J& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].s != b[i].s) return false; return true; }
  // equality of explicit constraints is that of the function objects: those of restored problems are found by their function
  static long idOf(const ImplicitPtr_t& c) {
    ExplicitPtr_t e(std::dynamic_pointer_cast<Explicit>(c)); const Poly* f = dynamic_cast<const Poly*>(e ? e->explicitFunction().get() : &c->function()); return f ? f->id : -1; }
  ImplicitPtr_t obj(size_t k) { for (auto& c : p->numericalConstraints()) if (c == known[k].obj || *c == *known[k].obj) return known[k].obj;
    for (auto& c : p->numericalConstraints()) if (idOf(c) == known[k].id && c->comparisonType() == known[k].obj->comparisonType()) return c;
    return known[k].obj; }
  size_t find(const ImplicitPtr_t& c) {
    for (size_t i = 0; i < known.size(); ++i) if ((known[i].obj == c || known[i].obj->function() == c->function()) && known[i].obj->comparisonType() == c->comparisonType()) return i;
    for (size_t i = 0; i < known.size(); ++i) if (known[i].id == idOf(c) && known[i].obj->comparisonType() == c->comparisonType()) return i;
    return (size_t)-1;
  }
  size_t byId(long id) { for (size_t i = 0; i < known.size(); ++i) if (known[i].id == id) return i; throw std::runtime_error("HARNESS id"); }
  // the constraints of the problem, as indices in known; implicit by level then explicit
  std::vector<size_t> order() {
    std::vector<size_t> r;
    for (size_t s = 0; s < p->numberStacks(); ++s) for (auto& c : p->constraints(s).constraints()) r.push_back(find(c));
    for (auto& c : p->numericalConstraints()) { ExplicitPtr_t e(std::dynamic_pointer_cast<Explicit>(c)); if (e && p->explicitConstraintSet().contains(e)) r.push_back(find(c)); }
    return r;
  }
  bool explicitly(size_t k) { ExplicitPtr_t e(std::dynamic_pointer_cast<Explicit>(obj(k))); return e && p->explicitConstraintSet().contains(e); }
  long rs(size_t k) { return known[k].obj->rightHandSideSize(); }
  J unR(size_t k, const vector_t& v) {
    J r = J::arr(); auto& K = known[k]; long o = 0;
    for (auto& t : K.to) {
      if (t == "C" && K.imp) { double c = v[o], s = v[o + 1]; o += 2; if (std::fabs(c * c + s * s - 1) > 1e-6) { r.push(J("not on the circle")); continue; } double a = std::atan2(s, c) / U; if (a < -1e-7) a += 4; r.push(J(a)); }
      else r.push(J(v[o++] / (t == "C" ? U : 1.)));
    }
    return r;
  }
  vector_t toR(size_t k, const J& v) {
    auto& K = known[k]; vector_t r(rs(k)); long o = 0;
    for (size_t i = 0; i < K.to.size(); ++i) {
      double x = v[i].n;
      if (K.to[i] == "C" && K.imp) { r[o++] = Cos((long)x); r[o++] = Sin((long)x); } else r[o++] = x * (K.to[i] == "C" ? U : 1.);
    }
    return r;
  }
  J unE(size_t k, const vector_t& v) { J r = J::arr(); auto& K = known[k]; for (size_t i = 0; i < K.to.size(); ++i) r.push(J(v[(long)i] / (K.to[i] == "C" ? U : 1.))); return r; }
  void rhs(J& j) {
    J e = J::arr();
    for (auto& c : p->numericalConstraints()) { size_t k = find(c); vector_t v(vector_t::Constant(rs(k), 9)); bool ok = p->getRightHandSide(obj(k), v); e.push(ok ? unR(k, v) : J("not found")); }
    j.set("each", e);
    vector_t a(p->rightHandSide()); long o = 0; J all = J::arr();
    for (size_t k : order()) { if (o + rs(k) > a.size()) { all.push(J("short")); break; } J x = unR(k, a.segment(o, rs(k))); o += rs(k); for (auto& y : x.a) all.push(y); }
    if (o != a.size()) all.push(J("size"));
    j.set("all", all);
  }
  J un(const vector_t& a) { long o = 0; J all = J::arr(); for (size_t k : order()) { if (o + rs(k) > a.size()) { all.push(J("short")); break; } J x = unR(k, a.segment(o, rs(k))); o += rs(k); for (auto& y : x.a) all.push(y); } return all; }
  void clear() { for (auto& c : p->numericalConstraints()) { size_t k = find(c); J z = J::arr(); for (size_t i = 0; i < known[k].to.size(); ++i) z.push(J(0)); p->rightHandSide(obj(k), toR(k, z)); } }
  // every answer of a problem at two configurations
  std::vector<double> snap(BS& p) {
    std::vector<double> r;
    auto put = [&r](const vector_t& v) { for (long i = 0; i < v.size(); ++i) r.push_back(v[i]); r.push_back(-77); };
    for (long s = 0; s < 2; ++s) {
      J q = J::arr(); for (long v = 0; v < l.nvars(); ++v) q.push(J(l.types[(size_t)v] == "S" ? 0 : l.types[(size_t)v] == "C" ? (double)((s + v) % 4) : (double)((3 * s + v) % 4 - 1)));
      vector_t c(l.conf(q)), e(p.errorSize());
      r.push_back(p.isSatisfied(c, e)); put(e);
      for (auto& k : p.numericalConstraints()) { vector_t er(k->function().outputDerivativeSize()); bool f = false; r.push_back(p.isConstraintSatisfied(k, c, er, f)); r.push_back(f); put(er);
        vector_t v(vector_t::Zero(k->rightHandSideSize())); r.push_back(p.getRightHandSide(k, v)); put(v);
        r.push_back((double)(bool)k->rightHandSideFunction()); if (k->rightHandSideFunction() && k->parameterSize()) for (double t : {-1., 2.}) put(vector_t(k->rightHandSideAt(t)));
        for (auto& t : k->comparisonType()) r.push_back(t); r.push_back((double)k->parameterSize()); for (auto& a : k->activeRows()) { r.push_back((double)a.first); r.push_back((double)a.second); } }
      matrix_t Jm(p.reducedDimension(), p.freeVariables().nbIndices());
      p.computeValue<true>(c); p.updateJacobian(c); p.getReducedJacobian(Jm); for (long i = 0; i < Jm.rows(); ++i) put(vector_t(Jm.row(i).transpose()));
      vector_t d(c); solver::lineSearch::Constant ls; r.push_back(p.solve(d, ls)); put(d); r.push_back(p.squaredErrorThreshold());
    }
    put(p.rightHandSide()); r.push_back((double)p.reducedDimension()); r.push_back((double)p.dimension()); r.push_back((double)p.numberStacks()); r.push_back((double)p.numberFreeVariables());
    r.push_back(p.lastIsOptional()); r.push_back(p.solveLevelByLevel()); r.push_back(p.errorThreshold()); r.push_back(p.inequalityThreshold()); r.push_back((double)p.maxIterations());
    return r;
  }
  static bool eq(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || std::fabs(a[i] - b[i]) <= 1e-7 * std::max(1., std::fabs(a[i])) || (a[i] != a[i] && b[i] != b[i]))) return false;
    return true;
  }
  std::vector<double> other; bool track = false;
  // what was done to the first problem did not show in the second one
  J done(J j) { j.set("indep", J(!track || eq(snap(*p2), other))); return j; }
  void keep() { other = snap(*p2); track = true; }
  void opts(J& j) { j.set("opts", J::obj().set("thr", J(p->errorThreshold())).set("ineq", J(p->inequalityThreshold())).set("opt", J(p->lastIsOptional())).set("lbl", J(p->solveLevelByLevel()))); }
  void whole(J& j) {
    J c = J::arr(), ex = J::arr(), st = J::arr(), cont = J::arr();
    for (auto& x : p->numericalConstraints()) { size_t k = find(x); c.push(k == (size_t)-1 ? J("unknown") : J(known[k].id)); ex.push(J(k != (size_t)-1 && explicitly(k))); }
    const BS& cp(*p);
    if (cp.constraints().size() != p->numericalConstraints().size()) c.push(J("lists differ"));
    for (size_t s = 0; s < p->numberStacks(); ++s) { J l = J::arr(); for (auto& x : p->constraints(s).constraints()) { size_t k = find(x); l.push(k == (size_t)-1 ? J("unknown") : J(known[k].id)); } st.push(l); }
    for (size_t k = 0; k < known.size(); ++k) cont.push(J(p->contains(obj(k))));
    j.set("cons", c).set("explicit", ex).set("stacks", st).set("contains", cont).set("dim", J((long)p->dimension())).set("redDim", J((long)p->reducedDimension()))
     .set("errSize", J((long)p->errorSize())).set("rhsSize", J((long)p->rightHandSideSize())).set("free", idx(p->freeVariables().indices())).set("impDof", idx(p->implicitDof()))
     .set("actQ", bits(p->activeParameters())).set("actV", bits(p->activeDerivativeParameters())).set("subm", J(p->definesSubmanifoldOf(*p2)));
    if (p->numberFreeVariables() != (long)idx(p->freeVariables().indices()).size()) j.set("free", J("numberFreeVariables differs"));
    rhs(j); opts(j);
  }
  static J bits(const ArrayXb& b) { J r = J::arr(); for (long i = 0; i < b.size(); ++i) r.push(J(b[i] ? 1 : 0)); return r; }
};
// ------------------------------------------------------- recorded executions
struct Rec {
  struct Ev { double e; double ratio; bool edge; };
  std::vector<Ev> ev; bool edge = false, undef = false; double far = 0; std::function<double(vectorIn_t)> err;
};
template <typename LS> struct Recording {
  LS ls; std::shared_ptr<Rec> r;
  template <typename S> bool operator()(const S& s, vectorOut_t arg, vectorOut_t darg) {
    vector_t d(darg); r->far += d.lpNorm<Eigen::Infinity>() + arg.lpNorm<Eigen::Infinity>(); bool b = false;
    try { b = ls(s, arg, darg); } catch (const FunctionNotDefinedForThisValue&) { r->undef = true; throw; }
    vector_t a(arg); double e = 0; try { e = r->err(a); } catch (const FunctionNotDefinedForThisValue&) { r->undef = true; return b; }
    r->ev.push_back({0, 0, false}); r->ev.back().ratio = d.squaredNorm() > 0 ? d.dot(darg) / d.squaredNorm() : 1;
    r->ev.back().e = e; r->ev.back().edge = r->edge; return b; }
};
struct Judge {
  Layout& l; std::vector<J> cons; J j; double ineq;
  double row(const J& c, size_t k, vectorIn_t q) const {
    double y = c["b"][k].n, g0 = 0;
    for (size_t i = 0; i < c["ins"].size(); ++i) { size_t v = (size_t)c["ins"][i].i() - 1; long o = l.qo[v]; double g = l.types[v] == "R" ? q[o] : l.types[v] == "C" ? 2 * q[o] + q[o + 1] : 0; if (i == 0) g0 = g; y += c["A"][k][i].n * g; }
    if (c["ins"].size()) y += c["c"][k].n * g0 * g0; size = std::fabs(y) + g0 * g0; for (long i = 0; i < q.size(); ++i) size = std::max(size, std::fabs(q[i]));
    return y; }
  mutable double size = 0; mutable bool edge = false;  // an angle was at a half turn: its sign is up to rounding
  double wrap(double a) const { double w = std::remainder(a, 2 * M_PI); if (std::fabs(w) > M_PI - 1e-6) edge = true; return w; }
  double err(size_t i, size_t k, vectorIn_t q) const {
    const J& c = cons[i]; double r = j[i]["rhs"][k].n, y = row(c, k, q); bool ang = c["to"][k].s == "C";
    if (c["kind"].s == "imp") { double d = ang ? wrap((y - r) * U) : y - r; const std::string& m = c["comp"][k].s;
      if (j[i]["ex"].b) return d; if (m == "Superior") return d < ineq ? d - ineq : 0; if (m == "Inferior") return d > -ineq ? d + ineq : 0; return d; }
    size_t v = (size_t)c["lo"].i() - 1 + k; long o = l.qo[v];
    double d = ang ? wrap(std::atan2(q[o + 1], q[o]) - y * U) - r * U : q[o] - y - r;
    if (ang) d = wrap(d);
    if (!j[i]["ex"].b) { if (ang) d = wrap(std::atan2(q[o + 1], q[o]) - y * U) - r * U; const std::string& m = c["comp"][k].s; if (m == "Superior") return d < ineq ? d - ineq : 0; if (m == "Inferior") return d > -ineq ? d + ineq : 0; }
    return d; }
  double sq(size_t i, vectorIn_t q) const { double s = 0; for (size_t k = 0; k < cons[i]["to"].size(); ++k) if (cons[i]["mask"][k].b) { double e = err(i, k, q); s += e * e; } return s; }
  double worst(vectorIn_t q) const { double w = 0; edge = false; for (size_t i = 0; i < cons.size(); ++i) if (j[i]["req"].b && !j[i]["ex"].b) w = std::max(w, sq(i, q)); return w; }
  double cost(vectorIn_t q) const { double w = 0; for (size_t i = 0; i < cons.size(); ++i) if (j[i]["cost"].b) w += sq(i, q); return w; }
  bool defined(vectorIn_t q) const { for (size_t i = 0; i < cons.size(); ++i) if (j[i]["ex"].b && j[i]["lim"].n < 90 && q[l.qo[(size_t)cons[i]["ins"][0].i() - 1]] > j[i]["lim"].n) return false; return true; }
  bool resolved(vectorIn_t q) const { for (size_t i = 0; i < cons.size(); ++i) if (j[i]["ex"].b) for (size_t k = 0; k < cons[i]["to"].size(); ++k) { double e = err(i, k, q); if (!(std::fabs(e) < 1e-6 + 1e-10 * size)) return false; } return true; }
};
static J classes(double e, double T, bool edge) { J r = J::arr(); if (edge) { r.push(J(0)).push(J(1)).push(J(2)); return r; } double m = 1e-6 * T + 1e-13; if (e != e) return r; if (e <= .25 * T + m) r.push(J(0)); if (e >= .25 * T - m && e <= T + m) r.push(J(1)); if (e >= T - m) r.push(J(2)); return r; }
static const char* cmpDec(double a, double b) { if (std::fabs(a - b) <= 1e-6 * std::max(a, b) + 1e-13) return "any"; return b < a ? "yes" : "no"; }
// leave some variables alone
static void freeze(solver::HierarchicalIterative& h, const Layout& l, const J& frz) {
  std::vector<long> fr; for (long v = 0; v < l.nvars(); ++v) if (!frz[(size_t)v].b) fr.push_back(v);
  vector_t rhs(h.rightHandSide()); h.freeVariables(l.velSegs(fr)); h.rightHandSide(rhs);
}
template <typename LS> J record(Ctx& x, const J& o, LS ls, vector_t& final) {
  const J& p = o["o"]; typedef solver::HierarchicalIterative HI; Layout& l = x.l;
  Judge jd{l, {}, o["j"], o["ineq"].n}; size_t m = 0;
  for (auto& c : x.p->numericalConstraints()) { (void)c; ++m; }
  if (m != jd.j.size()) throw std::runtime_error("constraints differ");
  for (size_t i = 0; i < m; ++i) { bool f = false; for (auto& k : x.known) if (k.id == jd.j[i]["id"].i() && !f && x.p->contains(x.obj((size_t)(&k - &x.known[0])))) { jd.cons.push_back(k.c); f = true; } if (!f) throw std::runtime_error("constraint not found"); }
  double th = 1. / p["den"].n, T = th * th; bool h = p["h"].b, opt = p["opt"].b;
  double keep = x.p->errorThreshold(); x.p->errorThreshold(th); x.p->maxIterations((std::size_t)p["maxIt"].i());
  auto keepSat = x.p->saturation(); vector_t lb(l.nq), ub(l.nq); Eigen::VectorXi map(l.nq); bool bounded = p["lo"].n > -50;
  for (long v = 0; v < l.nvars(); ++v) for (long k = 0; k < l.qs(v); ++k) { bool r = l.types[(size_t)v] == "R"; lb[l.qo[(size_t)v] + k] = r ? p["lo"].n : -2; ub[l.qo[(size_t)v] + k] = r ? p["hi"].n : 2; map[l.qo[(size_t)v] + k] = (int)(l.vo[(size_t)v] + std::min(k, l.vs(v) - 1)); }
  if (bounded) x.p->saturation(std::shared_ptr<solver::saturation::Base>(new solver::saturation::Bounds(lb, ub, map)));
  vector_t q0(x.l.conf(p["q"]));
  if (p["again"].b && final.size() == l.nq) { q0 = final; for (long v = 0; v < l.nvars(); ++v) if (l.types[(size_t)v] == "R") q0[l.qo[(size_t)v]] += .3 * th * p["pert"].n; }
  std::shared_ptr<Rec> rec(new Rec); BS& P(*x.p);
  auto resolve = [&](vectorIn_t q) { vector_t y(q); if (!h) P.explicitConstraintSet().solve(y); return y; };
  // domains of definition, for the duration of the execution
  struct Limits { std::vector<std::shared_ptr<Poly> > f; ~Limits() { for (auto& g : f) g->lim = 1e30; } } lims;
  for (size_t i = 0; i < m; ++i) if (jd.j[i]["ex"].b && jd.j[i]["lim"].n < 90) { ExplicitPtr_t e(HPP_DYNAMIC_PTR_CAST(Explicit, x.p->numericalConstraints()[i])); std::shared_ptr<Poly> g(std::dynamic_pointer_cast<Poly>(e->explicitFunction()));
    if (!g) throw std::runtime_error("HARNESS function"); g->lim = jd.j[i]["lim"].n; lims.f.push_back(g); }
  Rec* rp = rec.get(); rec->err = [&jd, &resolve, rp](vectorIn_t q) { double e = jd.worst(resolve(q)); rp->edge = jd.edge; return e; };
  vector_t q(q0), s0(q0); bool start = true; try { s0 = resolve(q0); } catch (const FunctionNotDefinedForThisValue&) { start = false; } double e0 = jd.worst(s0); bool g0 = jd.edge; HI::Status st; bool verdict; double dq2; bool dim0 = o["dim0"].b;
  Recording<LS> r{ls, rec};
  if (h) { HI H(P); freeze(H, l, p["frozen"]); H.saturation(P.saturation()); dim0 = H.reducedDimension() == 0; st = H.solve(q, r); verdict = H.isSatisfied(q); dq2 = H.lastStep().squaredNorm(); }
  else { st = opt ? P.solve(q, true, r) : P.solve(q, r); dq2 = P.lastStep().squaredNorm(); verdict = jd.defined(q) && P.isSatisfied(q); }
  final = q; x.p->errorThreshold(keep); x.p->maxIterations(20); x.p->saturation(keepSat);
  J steps = J::arr(); double prev = e0; bool pe = g0;
  for (auto& e : rec->ev) { J s = J::obj(); s.set("c", classes(e.e, T, e.edge)).set("dec", J(pe || e.edge || opt ? "any" : cmpDec(prev, e.e))).set("ratio", J((long)std::lround(1000 * e.ratio))); steps.push(s); prev = e.e; pe = e.edge; }
  bool unt = true, inb = true; double far = rec->far;  // rounding errors of far away configurations
  auto clamp = [&](long o, double v) { return bounded ? std::min(ub[o], std::max(lb[o], v)) : v; };
  for (long v = 0; v < l.nvars(); ++v) { bool out = !h && o["out"][(size_t)v].b; if (out) continue; bool used = o["used"][(size_t)v].b && !(h && p["frozen"][(size_t)v].b);
    for (long k = 0; k < l.qs(v); ++k) { long i = l.qo[(size_t)v] + k; bool as = std::fabs(q[i] - s0[i]) < 1e-9 + 1e-9 * far;
      if (!used && !as && !(std::fabs(q[i] - clamp(i, s0[i])) < 1e-9 + 1e-9 * far)) unt = false;
      if (bounded && l.types[(size_t)v] == "R" && !as && !(q[i] >= lb[i] - 1e-12 && q[i] <= ub[i] + 1e-12)) inb = false; } }
  double e1 = jd.worst(q); bool g1 = jd.edge; jd.edge = false; double k0 = jd.cost(s0), k1 = jd.cost(q); bool gk = jd.edge;
  bool worse = opt && o["levels"].i() > 0 ? !gk && k1 > k0 * (1 + 1e-6) + 1e-9 : !g0 && !g1 && e1 > e0 * (1 + 1e-6) + 1e-12;
  bool moved = (q - s0).lpNorm<Eigen::Infinity>() > 1e-9;
  const char* name = st == HI::SUCCESS ? "SUCCESS" : st == HI::INFEASIBLE ? "INFEASIBLE" : st == HI::MAX_ITERATION_REACHED ? "MAX" : "ERROR";
  J t = J::obj();
  t.set("kind", J(h ? "H" : opt && o["levels"].i() > 0 ? "O" : "S")).set("maxIt", J(p["maxIt"].i())).set("dim0", J(dim0)).set("c0", start ? classes(e0, T, g0) : J::arr().push(J(3))).set("undef", J(!start ? "start" : rec->undef ? "step" : "no")).set("steps", steps).set("ls", p["ls"]).set("st", J(name))
   .set("end", jd.defined(q) ? classes(e1, T, g1) : J::arr().push(J(3))).set("tiny", J(dq2 < .99e-12 ? "yes" : dq2 > 1.01e-12 ? "no" : "edge")).set("moved", J(moved)).set("worse", J(worse)).set("expl", J(h || jd.resolved(q)))
   .set("untouched", J(unt)).set("bounded", J(inb)).set("verdict", J(g1 || std::fabs(e1 - T) <= 1e-6 * T + 1e-13 ? "edge" : verdict ? "yes" : "no"));
  return t; }
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["space"] = [](Ctx& x, const J& o) { x.l = Layout(o["types"]); if (o.has("unitless")) x.unitless = o["unitless"].b; x.p.reset(new BS(x.l.space)); x.p2.reset(new BS(x.l.space));
    for (auto& p : {x.p, x.p2}) { p->errorThreshold(1); p->maxIterations(20); } return J::obj(); };
  ops["add"] = [](Ctx& x, const J& o) {
    J j = J::obj(); size_t k = x.get(o["c"]); std::string r;
    ImplicitPtr_t c(o["dup"].b ? x.obj(k)->copy() : x.obj(k));
    try { r = x.p->add(c, (size_t)o["prio"].i()) ? "added" : "already"; } catch (const std::logic_error&) { r = "refused"; }
    if (r == "added") x.clear();
    if (r == "refused") for (size_t i = 0; i < k; ++i) if (x.known[i].id == x.known[k].id) { x.known.pop_back(); break; }
    j.set("ret", J(r)); x.whole(j); return x.done(j); };
  ops["merge"] = [](Ctx& x, const J&) { x.m.reset(); J j = J::obj(); x.p->merge(*x.p2); x.clear(); x.whole(j); return x.done(j); };
  ops["copy"] = [](Ctx& x, const J&) { J j = J::obj(); x.p2.reset(new BS(*x.p)); x.whole(j); x.keep(); j.set("like", J(Ctx::eq(x.snap(*x.p), x.other))); return x.done(j); };
  ops["save"] = [](Ctx& x, const J& o) {
    J j = J::obj(); Layout& l = x.l; BS& p(*x.p); auto keep = p.saturation();
    vector_t lb(l.nq), ub(l.nq); Eigen::VectorXi map(l.nq); bool box = o["box"].b;
    for (long v = 0; v < l.nvars(); ++v) for (long k = 0; k < l.qs(v); ++k) { bool r = l.types[(size_t)v] == "R"; long i = l.qo[(size_t)v] + k; lb[i] = r ? -1.5 : -2; ub[i] = r ? 2.5 : 2; map[i] = (int)(l.vo[(size_t)v] + std::min(k, l.vs(v) - 1)); }
    if (box) p.saturation(std::shared_ptr<solver::saturation::Base>(new solver::saturation::Bounds(lb, ub, map)));
    // right-hand side functions extracted over an interval cannot be saved: this is refused
    for (auto& c : p.numericalConstraints()) if (c->rightHandSideFunction() && !dynamic_cast<const TimeFn*>(c->rightHandSideFunction().get())) {
      try { BS t(l.space); restore<BS>(o["kind"].s, p, t); } catch (const boost::archive::archive_exception&) { p.saturation(keep); x.m.reset(); return x.done(o["exp"]); } break; }
    if (o["ptr"].b) { std::shared_ptr<BS> r; restore(o["kind"].s, x.p, r); x.m = r; }
    else { x.m.reset(new BS(l.space)); restore<BS>(o["kind"].s, p, *x.m); }
    bool like = Ctx::eq(x.snap(p), x.snap(*x.m));
    if (!like && std::getenv("DBG")) { auto a = x.snap(p), b = x.snap(*x.m); for (size_t i = 0; i < a.size() && i < b.size(); ++i) std::cerr << i << ": " << a[i] << " " << b[i] << (a[i] == b[i] ? "" : "   <<<<") << "\n"; }
    if (box) { vector_t q(vector_t::Constant(l.nq, 9)), a(q), b(q); Eigen::VectorXi f(l.nv), g(l.nv); like = like && p.saturation()->saturate(q, a, f) == x.m->saturation()->saturate(q, b, g) && a == b && f == g; }
    p.saturation(keep); x.m->saturation(keep);
    std::swap(x.p, x.m); x.whole(j); std::swap(x.p, x.m); j.set("like", J(like)); return x.done(j); };
  ops["swap"] = [](Ctx& x, const J&) { x.m.reset(); J j = J::obj(); J d = x.done(J::obj()); j.set("indep", d["indep"]); std::swap(x.p, x.p2); x.whole(j); x.keep(); return j; };
  ops["extract"] = [](Ctx& x, const J& o) { J j = J::obj(); x.p2.reset(new BS(x.p->extract(interval_t(o["a"].n, o["b"].n)))); x.whole(j); x.keep(); std::vector<double> m(x.snap(*x.p)); j.set("like", J(m.size() == x.other.size())); return x.done(j); };
  ops["opts"] = [](Ctx& x, const J& o) { J j = J::obj(); const J& p = o["o"]; x.p->errorThreshold(p["thr"].n); x.p->inequalityThreshold(p["ineq"].n); x.p->lastIsOptional(p["opt"].b); x.p->solveLevelByLevel(p["lbl"].b); x.opts(j); return x.done(j); };
  ops["setRhs"] = [](Ctx& x, const J& o) { J j = J::obj(); size_t k = x.byId(o["i"].i()); bool ok = x.p->rightHandSide(o["dup"].b ? x.obj(k)->copy() : x.obj(k), x.toR(k, o["v"])); x.rhs(j); j.set("ret", J(ok)); return x.done(j); };
  ops["setAll"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t v(x.p->rightHandSideSize()); long r = 0; size_t i = 0;
    for (size_t k : x.order()) { J y = J::arr(); for (size_t m = 0; m < x.known[k].to.size(); ++m) y.push(o["v"][i++]); v.segment(r, x.rs(k)) = x.toR(k, y); r += x.rs(k); }
    x.p->rightHandSide(v); x.rhs(j); return x.done(j); };
  ops["reread"] = [](Ctx& x, const J&) { J j = J::obj(); x.p->rightHandSide(x.p->rightHandSide()); x.rhs(j); return x.done(j); };
  ops["from"] = [](Ctx& x, const J& o) { J j = J::obj(); vector_t r(x.p->rightHandSideFromConfig(x.l.conf(o["q"]))); x.rhs(j); j.set("ret", x.un(r)); return x.done(j); };
  ops["from1"] = [](Ctx& x, const J& o) { J j = J::obj(); bool ok = x.p->rightHandSideFromConfig(x.obj(x.byId(o["i"].i())), x.l.conf(o["q"])); x.rhs(j); j.set("ret", J(ok)); return x.done(j); };
  ops["at"] = [](Ctx& x, const J& o) { J j = J::obj(); x.p->rightHandSideAt(o["t"].n); x.rhs(j); return x.done(j); };
  ops["check"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q(x.l.conf(o["q"])); BS& p(*x.p);
    vector_t err(vector_t::Constant(p.errorSize(), 99));
    bool ok = p.isSatisfied(q, err), ok2 = p.isSatisfied(q), ok3 = p.isSatisfied(q, p.errorThreshold());
    j.set("ok", ok == ok2 && ok == ok3 ? J(ok) : J("verdicts differ"));
    J e = J::arr(); long r = 0;
    for (size_t k : x.order()) { long n = (long)x.known[k].to.size(); J y = x.unE(k, err.segment(r, n)); r += n; for (auto& z : y.a) e.push(z); }
    j.set("err", e);
    J a = J::arr(), b = J::arr();
    for (auto& c : p.numericalConstraints()) { size_t k = x.find(c); vector_t er(vector_t::Constant((long)x.known[k].to.size(), 99)); bool found = false; bool s = p.isConstraintSatisfied(x.obj(k), q, er, found); a.push(found ? J(s) : J("not found")); b.push(x.unE(k, er)); }
    j.set("each", a).set("eachErr", b); return x.done(j); };
  ops["jac"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q(x.l.conf(o["q"])); x.p->computeValue<true>(q); x.p->updateJacobian(q);
    matrix_t Jm(x.p->reducedDimension(), x.p->freeVariables().nbIndices()); x.p->getReducedJacobian(Jm); j.set("J", J::mat(Jm));
    if (x.p->explicitConstraintSet().errorSize() == 0) {
      solver::HierarchicalIterative h(*x.p); freeze(h, x.l, o["frz"]); h.computeValue<true>(q); matrix_t J2(h.reducedDimension(), h.freeVariables().nbIndices()); h.getReducedJacobian(J2); j.set("J2", J::mat(J2)).set("rd2", J((long)h.reducedDimension()));
    } else j.set("J2", J::arr()).set("rd2", J(-1l));
    return x.done(j); };
  ops["step"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q(x.l.conf(o["q"])); NoOp ls; x.p->oneStep(q, ls);
    matrix_t Jm(x.p->reducedDimension(), x.p->freeVariables().nbIndices());
    q = x.l.conf(o["q"]); x.p->computeValue<true>(q); x.p->updateJacobian(q); x.p->getReducedJacobian(Jm);
    vector_t dq(x.p->lastStep()); vector_t f(x.p->freeVariables().rview(dq).eval());
    j.set("Jdq", J::vec(Jm * f)); vector_t z(dq); x.p->freeVariables().lview(z) = vector_t::Zero(f.size()); j.set("fixed", J(z.norm() == 0)); return x.done(j); };
  ops["proj"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q(x.l.conf(o["q"])), v(vector_t::Constant(x.l.nv, 1)), res(vector_t::Constant(x.l.nv, 99));
    for (size_t i = 0; i < o["free"].size(); ++i) v[o["free"][i].i()] = o["v"][i].n;
    x.p->projectVectorOnKernel(q, v, res); J r = J::arr(); for (auto& i : o["free"].a) r.push(J(res[i.i()]));
    bool small = true; for (long k = 0; k < x.l.nvars(); ++k) if (x.l.types[(size_t)k] != "R") for (long m = 0; m < x.l.vs(k); ++m) if (std::fabs(v[x.l.vo[(size_t)k] + m]) > (x.l.types[(size_t)k] == "S" ? 1.5 : 3.)) small = false;
    if (small) {
      typedef hpp::pinocchio::LiegroupElement E; E a(q, x.l.space); E b(a + v); vector_t c(x.l.nq); x.p->projectOnKernel(q, b.vector(), c);
      vector_t d(E(c, x.l.space) - a); for (auto& i : o["free"].a) if (std::fabs(d[i.i()] - res[i.i()]) > 1e-6) r = J("configuration and velocity projections differ");
    }
    j.set("res", r); return x.done(j); };
  ops["solve"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q0(x.l.conf(o["q"])), q(q0); x.p->maxIterations((std::size_t)o["maxIt"].i());
    auto name = [](solver::HierarchicalIterative::Status s) { return std::string(s == solver::HierarchicalIterative::SUCCESS ? "SUCCESS" : s == solver::HierarchicalIterative::INFEASIBLE ? "INFEASIBLE" : s == solver::HierarchicalIterative::MAX_ITERATION_REACHED ? "MAX" : "ERROR"); };
    std::string st(name(x.p->solve(q, solver::lineSearch::Constant())));
    if (x.p->explicitConstraintSet().errorSize() == 0) {
      solver::HierarchicalIterative h(*x.p); freeze(h, x.l, o["frz"]); vector_t r(q0); std::string s2(name(h.solve(r, solver::lineSearch::Constant())));
      j.set("st2", J(s2)).set("q2", x.l.unconf(r));
    } else j.set("st2", J("none")).set("q2", J::arr());
    x.p->maxIterations(20);
    j.set("st", J(st)); j.set("q", x.l.unconf(q));
    vector_t err(x.p->errorSize()); x.p->isSatisfied(q, err); J l = J::arr(); for (long i = 0; i < x.p->dimension(); ++i) l.push(J(err[i])); j.set("lvl", l);
    return x.done(j); };
  ops["bstep"] = [](Ctx& x, const J& o) {
    J j = J::obj(); Layout& l = x.l; vector_t q0(l.conf(o["q"])), q(q0), s(q0), lb(l.nq), ub(l.nq); Eigen::VectorXi map(l.nq); x.p->explicitConstraintSet().solve(s);
    for (long v = 0; v < l.nvars(); ++v) for (long k = 0; k < l.qs(v); ++k) { bool r = l.types[(size_t)v] == "R"; long i = l.qo[(size_t)v] + k; lb[i] = r ? o["lo"][(size_t)v].n : -2; ub[i] = r ? o["hi"][(size_t)v].n : 2; map[i] = (int)(l.vo[(size_t)v] + std::min(k, l.vs(v) - 1)); }
    auto keep = x.p->saturation(); x.p->saturation(std::shared_ptr<solver::saturation::Base>(new solver::saturation::Bounds(lb, ub, map))); x.p->maxIterations(1);
    x.p->solve(q, solver::lineSearch::Constant());
    vector_t r(q0); bool hi = x.p->explicitConstraintSet().errorSize() == 0;
    if (hi) { solver::HierarchicalIterative h(*x.p); h.solve(r, solver::lineSearch::Constant()); }
    // whatever the budget, no free variable is brought outside
    bool in = true; vector_t z(q0); x.p->maxIterations(20); x.p->solve(z, solver::lineSearch::Constant());
    vector_t y(q0); x.p->solve(y, solver::lineSearch::ErrorNormBased(.2));
    for (const vector_t* c : {&q, &r, &z, &y}) for (long v = 0; v < l.nvars(); ++v) if (l.types[(size_t)v] == "R" && (o["free"][(size_t)v].b)) { long i = l.qo[(size_t)v]; double a = (*c)[i]; if (a != s[i] && !(a >= lb[i] && a <= ub[i])) in = false; }
    x.p->maxIterations(20); x.p->saturation(keep);
    j.set("q", l.unconf(q)).set("q2", hi ? l.unconf(r) : J::arr()).set("inside", J(in)); return x.done(j); };
  ops["run"] = [](Ctx& x, const J& o) {
    J j = J::obj(); std::string s(o["o"]["ls"].s); J t;
    if (s == "constant") t = record(x, o, solver::lineSearch::Constant(), x.final); else if (s == "backtracking") t = record(x, o, solver::lineSearch::Backtracking(), x.final);
    else if (s == "fixed") t = record(x, o, solver::lineSearch::FixedSequence(), x.final); else t = record(x, o, solver::lineSearch::ErrorNormBased(.2), x.final);
    j.set("trace", t).set("clean", J(true)); return x.done(j); };
  // everything asked to a problem is also asked to the one restored from it
  for (auto& it : ops) { if (it.first == "space" || it.first == "save" || it.first == "swap" || it.first == "merge") continue; auto f = it.second;
    it.second = [f](Ctx& x, const J& o) {
      auto m = x.m, p2 = x.p2; vector_t fin(x.final); J j(f(x, o)); if (!m) { j.set("mirror", J(true)); return j; }
      vector_t fin1(x.final); auto p = x.p, np2 = x.p2; x.p = m; x.p2 = p2; x.final = fin; std::string r;
      try { J k(f(x, o)); if (j.has("subm")) k.set("subm", j["subm"]); r = close(j, k) ? "" : "answers differ"; } catch (const std::exception& e) { r = e.what(); }
      x.p = p; x.p2 = np2; x.m = m; x.final = fin1; j.set("mirror", r == "" ? J(true) : J(r)); return j; }; }
  for (const char* n : {"save", "swap", "merge"}) { auto f = ops[n]; ops[n] = [f](Ctx& x, const J& o) { J j(f(x, o)); j.set("mirror", J(true)); return j; }; }
  return driverMain<Ctx>(ops);
}
