// Driver for the Intervals and Views specifications.
#include <mjson.hh>
#include <hpp/constraints/matrix-view.hh>
using namespace Eigen;
typedef BlockIndex::segment_t seg_t;
typedef BlockIndex::segments_t segs_t;
typedef Eigen::MatrixXd Mat;
static seg_t seg(const J& j) { return seg_t(j[0].i(), j[1].i()); }
static segs_t segs(const J& j) { segs_t r; for (auto& x : j.a) r.push_back(seg(x)); return r; }
static J jsegs(const segs_t& s) { J a = J::arr(); for (auto& x : s) a.push(J::arr().push(J((long)x.first)).push(J((long)x.second))); return a; }
static J flat(const segs_t& s) { J a = J::arr(); for (auto& x : s) for (long k = 0; k < x.second; ++k) a.push(J((long)(x.first + k))); return a; }
static J setOf(const segs_t& s) { std::set<long> r; for (auto& x : s) for (long k = 0; k < x.second; ++k) r.insert(x.first + k); J a = J::arr(); for (long v : r) a.push(J(v)); return a; }
struct Ctx {
  RowBlockIndices rows; ColBlockIndices cols; 
  Mat m; std::string kind; segs_t r, c;
  Ctx(const J&) {}
  void sel(const J& o) { if (o.has("kind")) { kind = o["kind"].s; r = segs(o["rows"]); c = segs(o["cols"]); } if (o.has("m")) m = o["m"].m(); }
};
typedef MatrixBlocks<false, false> MB;
// applies f to the selection of the right static type
template <typename F> static void onSel(Ctx& x, F f) {
  if (x.kind == "rows") { RowBlockIndices b; for (auto& s : x.r) b.addRow(s.first, s.second); f(b); }
  else if (x.kind == "cols") { ColBlockIndices b; for (auto& s : x.c) b.addCol(s.first, s.second); f(b); }
  else { MB b; for (auto& s : x.r) b.addRow(s.first, s.second); for (auto& s : x.c) b.addCol(s.first, s.second); f(b); }
}
static J jm(const Mat& m) { return J::mat(m); }
static Mat shaped(const J& x, long r, long c) { Mat m(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = x[(int)i][(int)j].n; return m; }
int main() {
  typedef std::function<J(Ctx&, const J&)> F;
  std::map<std::string, F> ops;
  // ---------------------------------------------------------- Intervals
  ops["addRow"] = [](Ctx&, const J& o) {
    RowBlockIndices b; ColBlockIndices c;
    segs_t a(segs(o["reg"])); a.push_back(seg(o["seg"]));
    for (auto& s : a) { b.addRow(s.first, s.second); c.addCol(s.first, s.second); }
    J j = J::obj(); j.set("flat", flat(b.indices())).set("nb", J((long)b.nbIndices()));
    if (flat(c.indices()).size() != flat(b.indices()).size() || c.nbIndices() != b.nbIndices() || c.nbCols() != b.nbRows()) j.set("nb", J(-1));
    return j; };
  ops["normalise"] = [](Ctx&, const J& o) {
    segs_t a(segs(o["reg"]));
    RowBlockIndices b; ColBlockIndices c; MB d;
    for (auto& s : a) { b.addRow(s.first, s.second); c.addCol(s.first, s.second); d.addRow(s.first, s.second); d.addCol(s.first, s.second); }
    b.updateRows<true, true, true>(); c.updateIndices<true, true, true>(); d.updateRows<true, true, true>(); d.updateCols<true, true, true>();
    segs_t e(a); BlockIndex::sort(e); BlockIndex::shrink(e);
    J j = J::obj(); j.set("set", setOf(b.indices())).set("nb", J((long)b.nbIndices()));
    j.set("exact", o["exp"]["exact"]).set("normal", o["exp"]["exact"].b ? jsegs(b.indices()) : J::arr());
    if (b.indices() != c.indices() || d.rows() != b.indices() || d.cols() != b.indices() || e != b.indices() ||
        c.nbIndices() != b.nbIndices() || d.nbRows() != b.nbIndices() || d.nbCols() != b.nbIndices() || BlockIndex::cardinal(e) != b.nbIndices())
      j.set("set", J("row, column and list forms differ"));
    return j; };
  ops["sort"] = [](Ctx&, const J& o) { segs_t a(segs(o["reg"])); BlockIndex::sort(a); return J::obj().set("list", jsegs(a)); };
  ops["cardinal"] = [](Ctx&, const J& o) { segs_t a(segs(o["reg"])); return J::obj().set("nb", J((long)BlockIndex::cardinal(a))); };
  ops["add"] = [](Ctx&, const J& o) { segs_t a(segs(o["reg"])); BlockIndex::add(a, seg(o["seg"]));
    J j = J::obj(); j.set("list", jsegs(a)); BlockIndex::shrink(a); j.set("set", setOf(a)); return j; };
  ops["addList"] = [](Ctx&, const J& o) { segs_t a(segs(o["reg"])); BlockIndex::add(a, segs(o["list"]));
    J j = J::obj(); j.set("list", jsegs(a)); BlockIndex::shrink(a); j.set("set", setOf(a)); return j; };
  ops["diffSeg"] = [](Ctx&, const J& o) { return J::obj().set("flat", flat(BlockIndex::difference(segs(o["reg"]), seg(o["seg"])))); };
  ops["diffFrom"] = [](Ctx&, const J& o) { return J::obj().set("flat", flat(BlockIndex::difference(seg(o["seg"]), segs(o["reg"])))); };
  ops["diffList"] = [](Ctx&, const J& o) { return J::obj().set("flat", flat(BlockIndex::difference(segs(o["reg"]), segs(o["list"])))); };
  ops["complement"] = [](Ctx&, const J& o) { return J::obj().set("flat", flat(BlockIndex::difference(seg_t(0, o["n"].i()), segs(o["reg"])))); };
  ops["split"] = [](Ctx&, const J& o) { segs_t a(segs(o["reg"])); segs_t f = BlockIndex::split(a, o["k"].i());
    return J::obj().set("first", flat(f)).set("rest", flat(a)); };
  ops["extract"] = [](Ctx&, const J& o) { return J::obj().set("flat", flat(BlockIndex::extract(segs(o["reg"]), o["s"].i(), o["k"].i()))); };
  ops["pair"] = [](Ctx&, const J& o) {
    seg_t a(seg(o["a"])), b(seg(o["b"])); J j = J::obj();
    segs_t s(BlockIndex::sum(a, b));
    j.set("overlap", J(BlockIndex::overlap(a, b))).set("diff", flat(BlockIndex::difference(a, b))).set("sum", setOf(s));
    j.set("exact", o["exp"]["exact"]).set("sumNormal", o["exp"]["exact"].b ? jsegs(s) : J::arr());
    return j; };
  ops["logical"] = [](Ctx&, const J& o) {
    Eigen::Array<bool, Eigen::Dynamic, 1> m((long)o["mask"].size());
    for (size_t i = 0; i < o["mask"].size(); ++i) m[(long)i] = o["mask"][i].b;
    return J::obj().set("normal", jsegs(BlockIndex::fromLogicalExpression(m))); };
  // --------------------------------------------------------------- Views
  ops["select"] = [](Ctx& x, const J& o) { x.sel(o); return J::obj(); };
  ops["read"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    onSel(x, [&](auto& b) { Mat v(b.rview(x.m).eval()); j.set("val", jm(v)); j.set("dims", J::arr().push(J((long)b.rview(x.m).rows())).push(J((long)b.rview(x.m).cols())));
      Mat w; b.lview(x.m).writeTo(w); Mat u(b.lview(x.m)); Mat y; y = b.rview(x.m);
      if (w != v || u != v || y != v) j.set("val", J("eval, writeTo, construction and assignment differ"));
      if (b.nbIndices() != (x.kind == "cols" ? v.cols() : v.rows())) j.set("dims", J("nbIndices")); });
    return j; };
  ops["readT"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj(); Mat t(x.m.transpose());
    onSel(x, [&](auto& b) { j.set("val", jm(b.transpose().rview(t).eval())); }); return j; };
  ops["keepRows"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    if (x.kind == "both") { MB b(x.r, x.c); j.set("val", jm(b.keepRows().rview(x.m).eval())); }
    else { RowBlockIndices b(x.r); j.set("val", jm(b.keepRows().rview(x.m).eval())); } return j; };
  ops["keepCols"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    if (x.kind == "both") { MB b(x.r, x.c); j.set("val", jm(b.keepCols().rview(x.m).eval())); }
    else { ColBlockIndices b(x.c); j.set("val", jm(b.keepCols().rview(x.m).eval())); } return j; };
  ops["block"] = [](Ctx& x, const J& o) { x.sel(o); MB b(x.r, x.c); return J::obj().set("val", jm(b.block(o["i"].i(), o["j"].i(), o["ni"].i(), o["nj"].i()).rview(x.m).eval())); };
  ops["midRows"] = [](Ctx& x, const J& o) { x.sel(o); MB b(x.r, x.c); return J::obj().set("val", jm(b.middleRows(o["i"].i(), o["ni"].i()).rview(x.m).eval())); };
  ops["midCols"] = [](Ctx& x, const J& o) { x.sel(o); MB b(x.r, x.c); return J::obj().set("val", jm(b.middleCols(o["j"].i(), o["nj"].i()).rview(x.m).eval())); };
  ops["write"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    onSel(x, [&](auto& b) { Mat X(shaped(o["x"], b.rview(x.m).rows(), b.rview(x.m).cols())); b.lview(x.m) = X; j.set("m", jm(x.m)); j.set("val", jm(b.rview(x.m).eval())); }); return j; };
  ops["writeT"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj(); Mat t(x.m.transpose());
    onSel(x, [&](auto& b) { Mat X(shaped(o["x"], b.rview(x.m).cols(), b.rview(x.m).rows())); b.transpose().lview(t) = X; });
    x.m = t.transpose(); j.set("m", jm(x.m)); return j; };
  ops["copy"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj(); Mat n(o["n"].m());
    onSel(x, [&](auto& b) { b.lview(x.m) = b.rview(n); }); j.set("m", jm(x.m)); return j; };
  ops["sum"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    onSel(x, [&](auto& b) { Mat X(shaped(o["x"], b.rview(x.m).rows(), b.rview(x.m).cols())); Mat r1, r2, r3; auto b2(b);
      r1.resizeLike(X); r2.resizeLike(X); r3.resizeLike(X);
      r1 = b.rview(x.m) + X; r2 = X - b.rview(x.m); r3 = b.rview(x.m) + b2.rview(x.m);
      j.set("mv", jm(r1)).set("mmv", jm(r2)).set("vv", jm(r3)); }); return j; };
  ops["readVec"] = [](Ctx& x, const J& o) { x.sel(o); VectorXd v(x.m.col(0)); RowBlockIndices b(x.r); VectorXd w(b.rview(v).eval()); return J::obj().set("val", J::vec(w)); };
  ops["writeVec"] = [](Ctx& x, const J& o) { x.sel(o); VectorXd v(x.m.col(0)); RowBlockIndices b(x.r); VectorXd X(o["x"].v()); b.lview(v) = X; x.m.col(0) = v; return J::obj().set("col", J::vec(v)); };
  ops["zero"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    onSel(x, [&](auto& b) { b.lview(x.m).setZero(); j.set("m", jm(x.m)); j.set("isZero", J(b.rview(x.m).isZero())); }); return j; };
  ops["isZero"] = [](Ctx& x, const J& o) { x.sel(o); J j = J::obj();
    onSel(x, [&](auto& b) { j.set("isZero", J(b.rview(x.m).isZero())); }); return j; };
  return driverMain<Ctx>(ops);
}
