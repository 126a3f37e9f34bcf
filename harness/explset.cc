// Driver for the ExplicitSet specification.
#include <space.hh>
using namespace V;
struct Known { std::string key; ExplicitPtr_t c; std::vector<std::string> to; };
struct Ctx {
  Layout l;
  std::vector<Known> known;
  std::unique_ptr<ExplicitConstraintSet> s, s2;
  std::vector<size_t> in, in2;  // accepted (indices in known)
  long nid = 0;
  Ctx(const J&) {}
  static std::string key(const J& c) { std::ostringstream os; c["id"].write(os); return os.str(); }
  size_t get(const J& c) {
    std::string k = key(c);
    for (size_t i = 0; i < known.size(); ++i) if (known[i].key == k) return i;
    Known n; n.key = k; n.c = makeExplicit(l, c, true, ++nid);
    for (long v = c["lo"].i(); v <= c["hi"].i(); ++v) n.to.push_back(l.types[(size_t)(v - 1)]);
    known.push_back(n);
    return known.size() - 1;
  }
  std::vector<double> units() const { std::vector<double> u; for (size_t i : in) for (auto& t : known[i].to) u.push_back(t == "C" ? U : 1.); return u; }
  vector_t scale(const J& v) const { std::vector<double> u = units(); vector_t r((long)u.size()); for (size_t k = 0; k < u.size(); ++k) r[(long)k] = v[k].n * u[k]; return r; }
  J unscale(const vector_t& v) const { std::vector<double> u = units(); J r = J::arr(); if ((size_t)v.size() != u.size()) return J("size"); for (size_t k = 0; k < u.size(); ++k) r.push(J(v[(long)k] / u[k])); return r; }
  J one(size_t i, const vector_t& v) const { J r = J::arr(); auto& t = known[in[i]].to; if ((size_t)v.size() != t.size()) return J("size"); for (size_t k = 0; k < t.size(); ++k) r.push(J(v[(long)k] / (t[k] == "C" ? U : 1.))); return r; }
  vector_t sone(size_t i, const J& v) const { auto& t = known[in[i]].to; vector_t r((long)t.size()); for (size_t k = 0; k < t.size(); ++k) r[(long)k] = v[k].n * (t[k] == "C" ? U : 1.); return r; }
  void proj(J& j) {
    j.set("outArgs", idx(s->outArgs().indices())).set("notOutArgs", idx(s->notOutArgs().indices())).set("inArgs", idx(s->inArgs().indices()))
     .set("outDers", idx(s->outDers().indices())).set("notOutDers", idx(s->notOutDers().indices())).set("inDers", idx(s->inDers().indices()));
    if (idx(s->activeParameters().indices()).size() != idx(s->inArgs().indices()).size() || s->inArgs().nbIndices() != (long)idx(s->inArgs().indices()).size() ||
        s->outArgs().nbIndices() != (long)idx(s->outArgs().indices()).size() || s->notOutArgs().nbIndices() != (long)idx(s->notOutArgs().indices()).size())
      j.set("inArgs", J("counts differ"));
    if (s->outDers().nbIndices() != (long)idx(s->outDers().indices()).size() || s->notOutDers().nbIndices() != (long)idx(s->notOutDers().indices()).size() ||
        s->inDers().nbIndices() != (long)idx(s->inDers().indices()).size()) j.set("inDers", J("counts differ"));
    j.set("derFn", J::vec(s->derFunction().cast<double>()));
    j.set("errSize", J((long)s->errorSize()));
    if (s->rightHandSideSize() != s->errorSize()) j.set("errSize", J("rhs size"));
    J d = J::arr();
    if (!in.empty()) { Eigen::MatrixXi m(s->inOutDependencies()); for (long i = 0; i < m.rows(); ++i) { J r = J::arr(); for (long k = 0; k < m.cols(); ++k) r.push(J(m(i, k) != 0 ? 1 : 0)); d.push(r); } }
    j.set("dep", d);
    J e = J::arr();
    if (s->inDers().nbIndices() > 0) { Eigen::MatrixXi m(s->inOutDofDependencies()); for (long i = 0; i < m.rows(); ++i) { J r = J::arr(); for (long k = 0; k < m.cols(); ++k) r.push(J(m(i, k) != 0 ? 1 : 0)); e.push(r); } }
    else { for (long i = 0; i < s->outDers().nbIndices(); ++i) e.push(J::arr()); }
    j.set("dofDep", e);
    j.set("rhs", unscale(s->rightHandSide()));
  }
  void rhs(J& j) {
    j.set("rhs", unscale(s->rightHandSide()));
    J e = J::arr();
    for (size_t i = 0; i < in.size(); ++i) { vector_t v(known[in[i]].c->rightHandSideSize()); bool ok = s->getRightHandSide(known[in[i]].c, v); e.push(ok ? one(i, v) : J("not found")); }
    j.set("each", e);
  }
};
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["space"] = [](Ctx& x, const J& o) { x.l = Layout(o["types"]); x.s.reset(new ExplicitConstraintSet(x.l.space)); x.s2.reset(new ExplicitConstraintSet(x.l.space)); x.s->errorThreshold(1e-5); x.s2->errorThreshold(1e-5); return J::obj(); };
  ops["add"] = [](Ctx& x, const J& o) {
    J j = J::obj(); size_t k = x.get(o["c"]); long r;
    J before = J::arr(); for (size_t i : x.in) before.push(J(x.s->contains(x.known[i].c)));
    try { r = x.s->add(x.known[k].c); } catch (const std::logic_error&) { r = -1; }
    if (r < 0) r = -1;
    j.set("ret", J(r)); j.set("contains", before);
    if (r >= 0) x.in.push_back(k);
    j.set("containsNew", J(x.s->contains(x.known[k].c)));
    x.proj(j); return j; };
  ops["solve"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q(x.l.conf(o["q"])); x.s->solve(q); j.set("q", x.l.unconf(q));
    matrix_t Jm(matrix_t::Constant(x.l.nv, x.l.nv, 7)); x.s->jacobian(Jm, q);
    J a = J::arr(); bool fill = true;
    for (long v = 0; v < x.l.nvars(); ++v) { J r = J::arr(); for (long w = 0; w < x.l.nvars(); ++w) {
        size_t V_ = (size_t)v, W = (size_t)w;
        r.push(J(Jm(x.l.vo[V_], x.l.vo[W])));
        for (long i = 0; i < x.l.vs(v); ++i) for (long k = 0; k < x.l.vs(w); ++k) if (i + k > 0 && Jm(x.l.vo[V_] + i, x.l.vo[W] + k) != ((v == w && i == k) ? 1 : 0)) fill = false;
      } a.push(r); }
    // the part relating outputs to the other variables
    matrix_t P(x.s->jacobianNotOutToOut(Jm).eval());
    matrix_t P2(P.rows(), P.cols()); J ro = idx(x.s->outDers().indices()), co = idx(x.s->notOutDers().indices());
    if (P.rows() != (long)ro.size() || P.cols() != (long)co.size()) fill = false;
    else for (size_t i = 0; i < ro.size(); ++i) for (size_t k = 0; k < co.size(); ++k) if (P((long)i, (long)k) != Jm(ro[i].i(), co[k].i())) fill = false;
    j.set("J", a).set("fill", J(fill));
    j.set("sat", J(x.s->isSatisfied(q)));
    vector_t q2(q); x.s->solve(q2); j.set("again", x.l.unconf(q2));
    return j; };
  ops["check"] = [](Ctx& x, const J& o) {
    J j = J::obj(); vector_t q(x.l.conf(o["q"])); double thr = o["thr"].n, old = x.s->errorThreshold();
    vector_t err(vector_t::Constant(x.s->errorSize(), 99));
    bool ok = x.s->isSatisfied(q, err, thr); bool ok2 = x.s->isSatisfied(q, thr);
    x.s->errorThreshold(thr);
    bool ok3 = x.s->isSatisfied(q);
    j.set("err", x.unscale(err));
    j.set("ok", ok == ok2 && ok == ok3 ? J(ok) : J("verdicts differ"));
    J e = J::arr(); size_t r = 0;
    for (size_t i = 0; i < x.in.size(); ++i) { auto& k = x.known[x.in[i]]; vector_t er((long)k.to.size()); bool found; bool s = x.s->isConstraintSatisfied(k.c, q, er, found);
      if (!found) e.push(J("not found")); else if ((er - err.segment((long)r, er.size())).norm() > 1e-9) e.push(J("errors differ")); else e.push(J(s)); r += k.to.size(); }
    j.set("each", e);
    x.s->errorThreshold(old);
    return j; };
  ops["setRhs"] = [](Ctx& x, const J& o) { J j = J::obj(); size_t i = (size_t)o["i"].i(); bool ok = x.s->rightHandSide(x.known[x.in[i]].c, x.sone(i, o["v"])); x.rhs(j); if (!ok) j.set("rhs", J("not found")); return j; };
  ops["setAllRhs"] = [](Ctx& x, const J& o) { J j = J::obj(); x.s->rightHandSide(x.scale(o["v"])); x.rhs(j); return j; };
  ops["reread"] = [](Ctx& x, const J&) { J j = J::obj(); x.s->rightHandSide(x.s->rightHandSide()); x.rhs(j); return j; };
  ops["fromInput"] = [](Ctx& x, const J& o) { J j = J::obj(); vector_t r(x.s->rightHandSideFromInput(x.l.conf(o["q"]))); x.rhs(j); j.set("ret", x.unscale(r)); return j; };
  ops["fromInput1"] = [](Ctx& x, const J& o) { J j = J::obj(); bool ok = x.s->rightHandSideFromInput(x.known[x.in[(size_t)o["i"].i()]].c, x.l.conf(o["q"])); x.rhs(j); if (!ok) j.set("rhs", J("not found")); return j; };
  ops["copy"] = [](Ctx& x, const J&) { J j = J::obj(); x.s2.reset(new ExplicitConstraintSet(*x.s)); x.in2 = x.in; x.proj(j); return j; };
  ops["swap"] = [](Ctx& x, const J&) { J j = J::obj(); std::swap(x.s, x.s2); std::swap(x.in, x.in2); x.proj(j); return j; };
  return driverMain<Ctx>(ops);
}
