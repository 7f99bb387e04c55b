#include "env.hpp"
#include "begin.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "util.hpp"
using namespace openml;
using Tree = decision_tree::DecisionTreeClassifier<double>;
using I = std::vector<int>;
using D = decltype(0.0);
static const int LBL[3] = {-1, 2, 5};
struct Cfg { bool ent = false; int minSplit = 2, minLeaf = 0, depth = 4; double minDec = 1e-7; };
static double impurity(const I& k, const I& s, bool ent) {
  std::map<int, int> c; for (int i : s) c[k[i]]++; double r(ent ? 0 : 1); for (auto& e : c) { double p = double(e.second) / double((int)s.size()); if (ent) r -= p * std::log2(p); else r -= p * p; } return r;
}
struct Cut { int f; double t, gain; I l, r; };
// every threshold halfway between neighbouring distinct values of a feature
static std::vector<Cut> cuts(const Mat& X, const I& k, const I& s, const Cfg& c) {
  std::vector<Cut> out;
  for (int f = 0; f < X.cols(); ++f) { I o = s; for (size_t a = 1; a < o.size(); ++a) for (size_t b = a; b > 0 && vf::holds(vf::lt(X(o[b], f), X(o[b - 1], f))); --b) std::swap(o[b], o[b - 1]);
    for (size_t a = 0; a + 1 < o.size(); ++a) if (vf::holds(vf::lt(X(o[a], f), X(o[a + 1], f)))) { Cut u; u.f = f; u.t = (X(o[a], f) + X(o[a + 1], f)) / double(2); u.l.assign(o.begin(), o.begin() + a + 1); u.r.assign(o.begin() + a + 1, o.end());
      double n((int)s.size()); u.gain = impurity(k, s, c.ent) - double((int)u.l.size()) / n * impurity(k, u.l, c.ent) - double((int)u.r.size()) / n * impurity(k, u.r, c.ent); out.push_back(u); } }
  return out;
}
// the sample sets of the leaves a query may reach when every split is one of maximal gain
static void leaves(const Mat& X, const I& k, const I& s, const RVec& q, int depth, const Cfg& c, std::set<I>& out) {
  I sorted = s; std::sort(sorted.begin(), sorted.end());
  if ((int)s.size() < c.minSplit || depth >= c.depth) { out.insert(sorted); return; }
  auto cs = cuts(X, k, s, c); double best(0); for (auto& u : cs) if (vf::holds(vf::lt(best, u.gain))) best = u.gain;
  if (!vf::holds(vf::lt(double(1e-12), best)) || !vf::holds(vf::lt(c.minDec, best))) { out.insert(sorted); return; }
  for (auto& u : cs) if (vf::holds(vf::le(best - double(1e-12), u.gain))) {
    if ((int)u.l.size() < c.minLeaf || (int)u.r.size() < c.minLeaf) out.insert(sorted);
    else leaves(X, k, vf::holds(vf::le(q(u.f), u.t)) ? u.l : u.r, q, depth + 1, c, out); }
}
static void verify(Tree& t, const Mat& X, const I& k, int C, const Mat& Q, const Cfg& c, const SVec& lbl) {
  Mat P = t.predict_prob(Q); if (!shapeIs("one-probability-per-class", P, Q.rows(), C)) return; Vec p = t.predict(Q); vf::check("one-prediction-per-row", p.size() == Q.rows()); if (p.size() != Q.rows()) return;
  I all(X.rows()); for (int i = 0; i < X.rows(); ++i) all[i] = i;
  for (int r = 0; r < Q.rows(); ++r) { std::set<I> ls; leaves(X, k, all, Q.row(r), 0, c, ls); SB ok(false), lab(false);
    for (auto& s : ls) { I n(C, 0); for (int i : s) n[k[i]]++; SB e(true); for (int j = 0; j < C; ++j) e = e & vf::eq(P(r, j), double(n[j]) / double((int)s.size())); ok = ok | e; int b = 0; for (int j = 1; j < C; ++j) if (n[j] > n[b]) b = j; lab = lab | (e & vf::eq(p(r), lbl[b])); }
    vf::check("class-shares-of-a-best-split-leaf", ok); vf::check("predicts-most-frequent-label", lab); for (int j = 0; j < C; ++j) vf::out("P", P(r, j)); vf::out("p", p(r)); }
}
static I labels(int n, int C) { I k(n); std::set<int> seen; for (int i = 0; i < n; ++i) { k[i] = vf::choose("class" + std::to_string(i), C); seen.insert(k[i]); } if ((int)seen.size() != C) vf::skip(); return k; }
static Vec lab(const I& k, const SVec& l) { Vec y(k.size()); for (size_t i = 0; i < k.size(); ++i) y(i) = l[k[i]]; return y; }
static void run(const Mat& X, int C, Cfg c, int nq, bool again = false, bool symLab = false) {
  vf::encodes("decision_tree::DecisionTreeClassifier::fit, build_tree, compute_impurity, compute_node_value, predict_prob, predict; DecisionTree::best_split, choose_feature_threshold; data::divide_on_feature; math::gini, math::entropy");
  int n = X.rows(), d = X.cols(); I k = labels(n, C); SVec l; for (int j = 0; j < C; ++j) l.push_back(symLab ? vf::real("label" + std::to_string(j), -8, 8) : double(LBL[j])); for (int j = 1; j < C; ++j) vf::assume(vf::lt(l[j - 1], l[j]));
  Tree t(c.ent ? "entropy" : "gini", c.minSplit, c.minLeaf, c.depth, c.minDec); if (again) { Mat A(3, d); for (int i = 0; i < 3; ++i) for (int j = 0; j < d; ++j) A(i, j) = double(i + j); t.fit(A, lab({0, 1, 2}, {-7, 2, 9})); }
  t.fit(X, lab(k, l)); verify(t, X, k, C, symMat("q", nq, d), c, l); vf::reach("end");
}
static Mat fix2(int n) { static const int A[6][2] = {{0, 3}, {2, 1}, {1, 1}, {3, 0}, {1, 4}, {4, 2}}; Mat X(n, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) X(i, j) = A[i][j]; return X; }
static void dflt() { I k = labels(4, 2); Mat X = fix2(4); SVec l{-1, 2}; Tree t; t.fit(X, lab(k, l)); verify(t, X, k, 2, symMat("q", 1, 2), Cfg(), l); vf::reach("end"); }
static void bad() { Mat X = fix2(3); Vec y(3); y << 0, 1, 0; Tree t("mse", 2, 0, 4, 0.0); checkThrows<std::invalid_argument>("unknown-criterion-rejected", [&] { t.fit(X, y); }); vf::reach("end"); }
static Cfg cf(bool ent, int ms, int ml, int d, double md = 1e-7) { Cfg c; c.ent = ent; c.minSplit = ms; c.minLeaf = ml; c.depth = d; c.minDec = md; return c; }
VFQ("g3", run(symMat("x", 3, 1), 2, cf(false, 2, 0, 4), 1), "any 3 values of one feature, every labelling, any query, gini") VFQ("g4", run(symMat("x", 4, 1), 2, cf(false, 2, 0, 4), 1), "any 4 values") VFQ("e3", run(symMat("x", 3, 1), 3, cf(true, 2, 0, 4), 1), "entropy, 3 classes")
VFQ("d1", run(symMat("x", 4, 1), 2, cf(false, 2, 0, 1), 1), "one level only") VFQ("d0", run(symMat("x", 2, 1), 2, cf(false, 2, 0, 0), 1), "no level at all") VFQ("ms", run(symMat("x", 4, 1), 2, cf(false, 3, 0, 4), 1), "at least 3 samples to split") VFQ("ml", run(symMat("x", 4, 1), 2, cf(false, 2, 2, 4), 1), "at least 2 samples per leaf")
VFQ("f2", run(fix2(4), 2, cf(false, 2, 0, 4), 1), "4 fixed samples of two features, every labelling, any query") VFQ("f5", run(fix2(5), 2, cf(false, 2, 0, 2), 1), "5 fixed samples, 2 levels") VFQ("e5", run(fix2(5), 3, cf(true, 2, 0, 4), 1), "5 fixed samples, 3 classes, entropy") VFQ("x2", run(symMat("x", 2, 2), 2, cf(false, 2, 0, 4), 1), "any 2x2 data")
VFQ("md", run(fix2(4), 2, cf(false, 2, 0, 4, vf::real("minDec", 0, 1)), 1), "any minimal impurity decrease") VFQ("mde", run(fix2(5), 2, cf(true, 2, 0, 4, 0.25), 1), "entropy with minimal decrease 1/4") VFQ("re", run(symMat("x", 3, 1), 2, cf(false, 2, 0, 4), 1, true), "second fit, other classes before") VFQ("lab", run(fix2(3), 2, cf(false, 2, 0, 4), 2, false, true), "any two labels, two queries") VFQ("dflt", dflt(), "default settings") VFQ("bad", bad(), "unknown criterion") VFQ("n1", run(symMat("x", 1, 2), 1, cf(false, 2, 0, 4), 1), "one sample")
VFT("g5", run(symMat("x", 5, 1), 2, cf(false, 2, 0, 4), 1), "any 5 values") VFT("x3", run(symMat("x", 3, 2), 2, cf(false, 2, 0, 4), 1), "any 3x2 data") VFT("f6", run(fix2(6), 3, cf(false, 2, 0, 3), 1), "6 fixed samples, 3 classes") VFT("e4", run(symMat("x", 4, 1), 2, cf(true, 2, 0, 4), 1), "any 4 values, entropy")
