// Conformance driver of Saturation.tla.
#include <robot.hh>
#include <hpp/constraints/solver/hierarchical-iterative.hh>
using namespace V;
namespace sat = hpp::constraints::solver::saturation;
struct Ctx { std::shared_ptr<sat::Base> s; long nv = 2; Ctx(const J&) : s(new sat::Base()) {} };
int main() {
  std::map<std::string, std::function<J(Ctx&, const J&)> > ops;
  ops["box"] = [](Ctx& x, const J& o) {
    std::string k = o["kind"].s; vector_t lo(o["lo"].v()), hi(o["hi"].v()); x.nv = o["nv"].i();
    Eigen::VectorXi m((long)o["map"].size()); for (long i = 0; i < m.size(); ++i) m[i] = (int)o["map"][(size_t)i].i();
    if (k == "none") x.s.reset(new sat::Base());
    else if (k == "map") x.s.reset(new sat::Bounds(lo, hi, m));
    else if (k == "plain") x.s.reset(new sat::Bounds(lo, hi));
    else if (k == "function") { std::shared_ptr<sat::Bounds> b(new sat::Bounds(lo, hi)); x.s.reset(new sat::Function([b](vectorIn_t q, vectorOut_t r, Eigen::VectorXi& f) { return b->saturate(q, r, f); })); }
    else { DevicePtr_t d(makeRobot(o["joints"], o["extra"].i())); long n = d->model().nq; for (long i = 0; i < o["extra"].i(); ++i) { d->extraConfigSpace().lower(i) = lo[n + i]; d->extraConfigSpace().upper(i) = hi[n + i]; }
      if (d->numberDof() != x.nv) throw std::runtime_error("HARNESS nv"); x.s.reset(new sat::Device(d)); }
    return J::obj(); };
  ops["sat"] = [](Ctx& x, const J& o) {
    vector_t q(o["q"].v()), r(vector_t::Constant(q.size(), 55)); Eigen::VectorXi f(Eigen::VectorXi::Constant(x.nv, 7)); vector_t q1(q);
    bool b = x.s->saturate(q, r, f);
    // in place, as the solvers use it
    vector_t z(q); Eigen::VectorXi f2(Eigen::VectorXi::Constant(x.nv, -3)); bool b2 = x.s->saturate(z, z, f2);
    J j = J::obj(), fl = J::arr(); for (long i = 0; i < f.size(); ++i) fl.push(f[i] == f2[i] ? J((long)f[i]) : J("differs in place"));
    j.set("qSat", z == r && q == q1 ? J::vec(r) : J("differs in place")).set("flags", fl).set("ret", b == b2 ? J(b) : J("differs in place")); return j; };
  return driverMain<Ctx>(ops);
}
