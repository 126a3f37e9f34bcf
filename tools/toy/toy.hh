// Functions given by lambdas, and a CHECK macro, for small demonstrations.
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/constraints/matrix-view.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include <hpp/pinocchio/liegroup-element.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include <functional>
#include <iostream>
using namespace hpp::constraints;
using hpp::constraints::solver::BySubstitution;
using hpp::constraints::solver::HierarchicalIterative;
static int failures = 0;
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED line " << __LINE__ << ": " #c << std::endl; ++failures; } } while (0)
struct Fn : DifferentiableFunction {
  std::function<vector_t(vector_t)> v; std::function<matrix_t(vector_t)> j;
  Fn(long nq, LiegroupSpacePtr_t o, std::function<vector_t(vector_t)> f, std::function<matrix_t(vector_t)> g, std::vector<int> act, std::string n)
      : DifferentiableFunction(nq, nq, o, n), v(f), j(g) {
    if (!act.empty()) { activeParameters_.setConstant(false); activeDerivativeParameters_.setConstant(false);
      for (int a : act) activeParameters_[a] = activeDerivativeParameters_[a] = true; }
  }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const { r.vector() = v(x); }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const { J = j(x); }
};
typedef std::shared_ptr<DifferentiableFunction> FnPtr;
// a x + b, reading the listed variables only
static FnPtr affine(matrix_t A, vector_t b, std::vector<int> act = {}, std::string n = "affine") {
  return FnPtr(new Fn(A.cols(), LiegroupSpace::Rn(A.rows()), [A, b](vector_t x) { return vector_t(A * x + b); }, [A](vector_t) { return A; }, act, n));
}
static matrix_t row(std::vector<double> r) { matrix_t A(1, (long)r.size()); for (size_t i = 0; i < r.size(); ++i) A(0, (long)i) = r[i]; return A; }
static vector_t vec(std::vector<double> r) { return row(r).row(0).transpose(); }
static ComparisonTypes_t comp(size_t n, ComparisonType t) { return ComparisonTypes_t(n, t); }
static segments_t segs(std::vector<std::pair<int, int>> s) { segments_t r; for (auto& x : s) r.push_back(segment_t(x.first, x.second)); return r; }
static ExplicitPtr_t expl(long n, FnPtr f, std::vector<std::pair<int, int>> in, std::vector<std::pair<int, int>> out, ComparisonType t = Equality) {
  return Explicit::create(LiegroupSpace::Rn(n), f, segs(in), segs(out), segs(in), segs(out), comp((size_t)f->outputDerivativeSize(), t));
}
static std::string str(const segments_t& s) { std::string r; for (auto& x : s) r += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; return r; }
#define DONE() (std::cout << (failures ? "demonstration FAILED" : "ok") << std::endl, failures ? 1 : 0)
