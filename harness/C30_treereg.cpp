#include "env.hpp"
#include "begin.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
#include "util.hpp"
using namespace openml;
using Tree = decision_tree::DecisionTreeRegressor<double>;
using I = std::vector<int>;
struct Cfg { bool abs = false; int minSplit = 2, minLeaf = 0, depth = 4; double minDec = 1e-7, minStd = 1e-3; };
static double mean(const Vec& y, const I& s) { double t(0); for (int i : s) t += y(i); return t / double((int)s.size()); }
// mean squared deviation from the mean / mean absolute deviation from the median
static double spread(const Vec& y, const I& s, bool ab) {
  double n((int)s.size()), t(0); if (!ab) { double m = mean(y, s); for (int i : s) t += (y(i) - m) * (y(i) - m); return t / n; }
  I o = s; for (size_t a = 1; a < o.size(); ++a) for (size_t b = a; b > 0 && vf::holds(vf::lt(y(o[b]), y(o[b - 1]))); --b) std::swap(o[b], o[b - 1]);
  for (size_t a = 0; a < o.size() / 2; ++a) t += y(o[o.size() - 1 - a]) - y(o[a]); return t / n;
}
struct Cut { int f; double t, gain; I l, r; };
static std::vector<Cut> cuts(const Mat& X, const Vec& y, const I& s, const Cfg& c) {
  std::vector<Cut> out; double n((int)s.size()), S = spread(y, s, c.abs);
  for (int f = 0; f < X.cols(); ++f) { I o = s; for (size_t a = 1; a < o.size(); ++a) for (size_t b = a; b > 0 && vf::holds(vf::lt(X(o[b], f), X(o[b - 1], f))); --b) std::swap(o[b], o[b - 1]);
    for (size_t a = 0; a + 1 < o.size(); ++a) if (vf::holds(vf::lt(X(o[a], f), X(o[a + 1], f)))) { Cut u; u.f = f; u.t = (X(o[a], f) + X(o[a + 1], f)) / double(2); u.l.assign(o.begin(), o.begin() + a + 1); u.r.assign(o.begin() + a + 1, o.end());
      u.gain = S - double((int)u.l.size()) / n * spread(y, u.l, c.abs) - double((int)u.r.size()) / n * spread(y, u.r, c.abs); out.push_back(u); } }
  return out;
}
// p is the mean target of a leaf which the query may reach when every split is one of maximal gain
static SB admissible(const Mat& X, const Vec& y, const I& s, const RVec& q, const double& p, int depth, const Cfg& c) {
  SB leaf = vf::eq(p, mean(y, s)); if ((int)s.size() < c.minSplit || depth >= c.depth) return leaf; if (vf::holds(vf::le(spread(y, s, false), c.minStd * c.minStd))) return leaf;
  auto cs = cuts(X, y, s, c); SB r(false), none(true);
  for (auto& u : cs) { bool top = true; for (auto& w : cs) if (!vf::holds(vf::ge(u.gain, w.gain))) { top = false; break; } if (!top) continue; if (vf::holds(vf::le(u.gain, c.minDec)) || vf::holds(vf::le(u.gain, double(0)))) return leaf;
    none = SB(false); if ((int)u.l.size() < c.minLeaf || (int)u.r.size() < c.minLeaf) r = r | leaf; else r = r | admissible(X, y, vf::holds(vf::le(q(u.f), u.t)) ? u.l : u.r, q, p, depth + 1, c); }
  return r | (none & leaf);
}
static void verify(Tree& t, const Mat& X, const Vec& y, const Mat& Q, const Cfg& c) {
  Vec p = t.predict(Q); vf::check("one-prediction-per-row", p.size() == Q.rows()); if (p.size() != Q.rows()) return; I all(X.rows()); for (int i = 0; i < X.rows(); ++i) all[i] = i;
  for (int r = 0; r < Q.rows(); ++r) { vf::check("mean-of-a-best-split-leaf", admissible(X, y, all, Q.row(r), p(r), 0, c)); vf::out("p", p(r)); }
}
static void run(const Mat& X, const Vec& y, Cfg c, int nq, bool again = false) {
  vf::encodes("decision_tree::DecisionTreeRegressor::fit, build_tree, compute_impurity, compute_node_value, predict; DecisionTree::best_split, choose_feature_threshold; data::divide_on_feature; math::var, math::median");
  int d = X.cols(); Tree t(c.abs ? "absolute_error" : "squared_error", c.minSplit, c.minLeaf, c.depth, c.minDec, c.minStd); if (again) { Mat A(3, d); Vec b(3); for (int i = 0; i < 3; ++i) { b(i) = i * i; for (int j = 0; j < d; ++j) A(i, j) = double(i + j); } t.fit(A, b); }
  t.fit(X, y); verify(t, X, y, symMat("q", nq, d), c); vf::reach("end");
}
static Mat fix1(int n) { Mat X(n, 1); static const int A[5] = {2, 0, 3, 1, 3}; for (int i = 0; i < n; ++i) X(i, 0) = A[i]; return X; }
static Mat fix2(int n) { static const int A[5][2] = {{0, 3}, {2, 1}, {1, 1}, {3, 0}, {1, 4}}; Mat X(n, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) X(i, j) = A[i][j]; return X; }
static Vec fixy(int n) { Vec y(n); static const int A[5] = {4, -2, 7, 0, 1}; for (int i = 0; i < n; ++i) y(i) = A[i]; return y; }
// m arbitrary targets, the others fixed
static Vec mixy(int n, int m, int at = 0) { Vec y = fixy(n); for (int i = 0; i < m; ++i) y((at + i) % n) = vf::real("y" + std::to_string(i), -8, 8); return y; }
static Cfg cf(bool ab, int ms, int ml, int d, double md = 1e-7, double sd = 1e-3) { Cfg c; c.abs = ab; c.minSplit = ms; c.minLeaf = ml; c.depth = d; c.minDec = md; c.minStd = sd; return c; }
static void dflt() { Mat X = fix2(4); Vec y = fixy(4); Tree t; t.fit(X, y); verify(t, X, y, symMat("q", 1, 2), Cfg()); vf::reach("end"); }
static void bad() { Mat X = fix2(3); Vec y = fixy(3); Tree t("gini", 2, 0, 4, 0.0, 0.0); checkThrows<std::invalid_argument>("unknown-criterion-rejected", [&] { t.fit(X, y); }); vf::reach("end"); }
VFQ("y3", run(fix1(3), mixy(3, 2), cf(false, 2, 0, 1, 0.25), 1), "3 fixed positions, two arbitrary targets, any query, squared error") VFQ("y4", run(fix1(4), mixy(4, 1), cf(false, 2, 0, 4), 1), "4 positions, one arbitrary target") VFQ("y4b", run(fix1(4), mixy(4, 1, 3), cf(false, 2, 0, 4), 1), "4 positions, another arbitrary target") VFQ("a3", run(fix1(3), symVec("y", 3), cf(true, 2, 0, 4), 1), "absolute error, three arbitrary targets") VFQ("a4", run(fix1(4), mixy(4, 2), cf(true, 2, 0, 4), 1), "absolute error, two of four targets arbitrary")
VFQ("x3", run(symMat("x", 3, 1), fixy(3), cf(false, 2, 0, 4), 1), "any 3 positions, fixed targets") VFQ("x4", run(symMat("x", 4, 1), fixy(4), cf(false, 2, 0, 4), 1), "any 4 positions") VFQ("xa", run(symMat("x", 4, 1), fixy(4), cf(true, 2, 0, 4), 1), "any 4 positions, absolute error") VFQ("xy", run(symMat("x", 2, 1), symVec("y", 2), cf(false, 2, 0, 4), 1), "any two samples")
VFQ("ms", run(symMat("x", 4, 1), fixy(4), cf(false, 3, 0, 4), 1), "at least 3 samples to split") VFQ("ml", run(symMat("x", 4, 1), fixy(4), cf(false, 2, 2, 4), 1), "at least 2 samples per leaf") VFQ("f2", run(fix2(4), mixy(4, 1, 1), cf(false, 2, 0, 4), 1), "two features, one level") VFQ("md", run(fix2(4), fixy(4), cf(false, 2, 0, 4, vf::real("minDec", 0, 20)), 1), "any minimal decrease") VFQ("sd", run(fix2(4), fixy(4), cf(false, 2, 0, 4, 1e-7, vf::real("minStd", 0, 8)), 1), "any minimal deviation") VFQ("re", run(fix1(3), mixy(3, 1), cf(false, 2, 0, 4), 1, true), "second fit") VFQ("dflt", dflt(), "default settings") VFQ("bad", bad(), "unknown criterion") VFQ("n1", run(symMat("x", 1, 2), symVec("y", 1), cf(false, 2, 0, 4), 1), "one sample")
VFT("y4d", run(fix1(4), symVec("y", 4), cf(false, 2, 0, 4), 1), "4 positions, any targets, full depth") VFT("x5", run(symMat("x", 5, 1), fixy(5), cf(false, 2, 0, 2), 1), "any 5 positions") VFT("f5", run(fix2(5), fixy(5), cf(true, 2, 0, 4), 2), "5 fixed samples, two queries") VFT("xy3", run(symMat("x", 3, 1), symVec("y", 3), cf(false, 2, 0, 1), 1), "any three samples, one level")
