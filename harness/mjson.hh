// A small JSON value, parser and writer for the conformance drivers.
#ifndef VERIF_MJSON_HH
#define VERIF_MJSON_HH
#include <cmath>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Core>

struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J> > o;
  J() {}
  J(bool v) : t(BOOL), b(v) {}
  J(int v) : t(NUM), n(v) {}
  J(long v) : t(NUM), n((double)v) {}
  J(unsigned long v) : t(NUM), n((double)v) {}
  J(double v) : t(NUM), n(v) {}
  J(const char* v) : t(STR), s(v) {}
  J(const std::string& v) : t(STR), s(v) {}
  static J arr() { J j; j.t = ARR; return j; }
  static J obj() { J j; j.t = OBJ; return j; }
  template <typename D>
  static J vec(const Eigen::MatrixBase<D>& v_) {
    Eigen::VectorXd v(v_);
    J j = arr();
    for (Eigen::Index i = 0; i < v.size(); ++i) j.a.push_back(J((double)v[i]));
    return j;
  }
  template <typename D>
  static J mat(const Eigen::MatrixBase<D>& m_) {
    Eigen::MatrixXd m(m_);
    J j = arr();
    for (Eigen::Index i = 0; i < m.rows(); ++i) {
      J r = arr();
      for (Eigen::Index k = 0; k < m.cols(); ++k) r.a.push_back(J((double)m(i, k)));
      j.a.push_back(r);
    }
    return j;
  }
  J& push(const J& v) { a.push_back(v); return *this; }
  J& set(const std::string& k, const J& v) {
    t = OBJ;
    for (auto& p : o) if (p.first == k) { p.second = v; return *this; }
    o.push_back(std::make_pair(k, v));
    return *this;
  }
  bool has(const std::string& k) const {
    for (auto& p : o) if (p.first == k) return true;
    return false;
  }
  const J& operator[](const std::string& k) const {
    for (auto& p : o) if (p.first == k) return p.second;
    throw std::runtime_error("HARNESS missing key " + k);
  }
  const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
  const J& operator[](size_t i) const { return a.at(i); }
  const J& operator[](int i) const { return a.at((size_t)i); }
  size_t size() const { return t == OBJ ? o.size() : a.size(); }
  long i() const { return (long)std::llround(n); }
  Eigen::VectorXd v() const {
    Eigen::VectorXd r((Eigen::Index)a.size());
    for (size_t k = 0; k < a.size(); ++k) r[(Eigen::Index)k] = a[k].n;
    return r;
  }
  Eigen::MatrixXd m(long cols = -1) const {
    long c = a.empty() ? std::max(0L, cols) : (long)a[0].a.size();
    Eigen::MatrixXd r((long)a.size(), c);
    for (size_t k = 0; k < a.size(); ++k)
      for (size_t l = 0; l < a[k].a.size(); ++l) r((long)k, (long)l) = a[k].a[l].n;
    return r;
  }
  std::vector<long> il() const {
    std::vector<long> r;
    for (auto& x : a) r.push_back(x.i());
    return r;
  }
  void write(std::ostream& os) const {
    switch (t) {
      case NUL: os << "null"; break;
      case BOOL: os << (b ? "true" : "false"); break;
      case NUM: {
        if (std::isnan(n)) { os << "\"nan\""; break; }
        if (std::isinf(n)) { os << (n > 0 ? "\"inf\"" : "\"-inf\""); break; }
        char buf[40];
        if (std::fabs(n) < 1e15 && n == std::floor(n)) snprintf(buf, 40, "%.0f", n == 0 ? 0. : n);
        else snprintf(buf, 40, "%.17g", n);
        os << buf;
        break;
      }
      case STR:
        os << '"';
        for (char c : s) {
          if (c == '"' || c == '\\') os << '\\' << c;
          else if ((unsigned char)c < 32) os << ' ';
          else os << c;
        }
        os << '"';
        break;
      case ARR:
        os << '[';
        for (size_t k = 0; k < a.size(); ++k) { if (k) os << ','; a[k].write(os); }
        os << ']';
        break;
      case OBJ:
        os << '{';
        for (size_t k = 0; k < o.size(); ++k) {
          if (k) os << ',';
          os << '"' << o[k].first << "\":";
          o[k].second.write(os);
        }
        os << '}';
        break;
    }
  }
};

struct JParser {
  const std::string& s;
  size_t p = 0;
  JParser(const std::string& str) : s(str) {}
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
  J parse() {
    ws();
    char c = s.at(p);
    J j;
    if (c == '{') {
      j.t = J::OBJ; ++p; ws();
      if (s.at(p) == '}') { ++p; return j; }
      while (true) {
        ws(); J k = parse(); ws();
        if (s.at(p) != ':') throw std::runtime_error("HARNESS json");
        ++p;
        j.o.push_back(std::make_pair(k.s, parse()));
        ws();
        if (s.at(p) == ',') { ++p; continue; }
        ++p; return j;
      }
    }
    if (c == '[') {
      j.t = J::ARR; ++p; ws();
      if (s.at(p) == ']') { ++p; return j; }
      while (true) {
        j.a.push_back(parse()); ws();
        if (s.at(p) == ',') { ++p; continue; }
        ++p; return j;
      }
    }
    if (c == '"') {
      j.t = J::STR; ++p;
      while (s.at(p) != '"') { if (s[p] == '\\') ++p; j.s += s[p++]; }
      ++p; return j;
    }
    if (s.compare(p, 4, "true") == 0) { p += 4; return J(true); }
    if (s.compare(p, 5, "false") == 0) { p += 5; return J(false); }
    if (s.compare(p, 4, "null") == 0) { p += 4; return J(); }
    size_t q = p;
    while (q < s.size() && (isdigit((unsigned char)s[q]) || strchr("+-.eE", s[q]))) ++q;
    j.t = J::NUM; j.n = strtod(s.substr(p, q - p).c_str(), 0); p = q;
    return j;
  }
};

// Runs the driver: one JSON test per line on stdin, one JSON answer per line.
// same answers, up to rounding
inline bool close(const J& a, const J& b) {
  if (a.t != b.t) return false;
  if (a.t == J::NUM) return a.n == b.n || (a.n != a.n && b.n != b.n) || std::fabs(a.n - b.n) <= 1e-9 * std::max(1., std::fabs(a.n));
  if (a.t == J::BOOL) return a.b == b.b;
  if (a.t == J::STR) return a.s == b.s;
  if (a.a.size() != b.a.size() || a.o.size() != b.o.size()) return false;
  for (size_t i = 0; i < a.a.size(); ++i) if (!close(a.a[i], b.a[i])) return false;
  for (size_t i = 0; i < a.o.size(); ++i) if (a.o[i].first != b.o[i].first || !close(a.o[i].second, b.o[i].second)) return false;
  return true;
}
template <typename Ctx>
int driverMain(const std::map<std::string, std::function<J(Ctx&, const J&)> >& ops) {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    JParser ps(line);
    J test = ps.parse();
    J obs = J::arr();
    {
      Ctx ctx(test);
      for (auto& op : test["ops"].a) {
        J r;
        try {
          auto it = ops.find(op["op"].s);
          if (it == ops.end()) throw std::runtime_error("HARNESS unknown op " + op["op"].s);
          r = it->second(ctx, op);
        } catch (const std::exception& e) {
          std::string w(e.what());
          if (w.compare(0, 7, "HARNESS") == 0) { std::cerr << w << std::endl; return 97; }
          r = J::obj();
          r.set("exc", w.substr(0, 200));
        }
        obs.push(r);
      }
    }
    std::ostringstream os;
    J ans = J::obj();
    ans.set("id", test["id"]);
    ans.set("obs", obs);
    ans.write(os);
    os << "\n";
    std::fputs(os.str().c_str(), stdout);
    std::fflush(stdout);
  }
  return 0;
}
#endif
