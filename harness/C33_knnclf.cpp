#include "env.hpp"
#include "begin.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
#include "util.hpp"
#include "points.hpp"
using namespace openml;
static double d2(const Mat& a, int i, const Mat& b, int j, int ord) { double s(0); for (int k = 0; k < a.cols(); ++k) { double d = a(i, k) - b(j, k); s += ord == 2 ? d * d : vabs(d); } return s; }
static void run(const Mat& X, const Mat& Q, int k, const char* solver, int ord, std::vector<int> lab, int classes, bool again = false, int leaf = 1) {
  vf::encodes("neighbors::KNearestNeighbors::fit, predict, brute_force; tree::KDTree::query; math::mode"); int n = X.rows(); if (lab.empty()) for (int i = 0; i < n; ++i) lab.push_back(vf::choose("y" + std::to_string(i), classes));
  Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(lab[i] * 2 - 1); neighbors::KNearestNeighbors<double> c(leaf, k, solver, mname(ord));
  if (again) { Vec z = Vec::Constant(n + 1, double(9)); Mat W = Mat::Constant(n + 1, X.cols(), double(1)); c.fit(W, z); } c.fit(X, y); Vec p = c.predict(Q); vf::check("one-label-per-row", p.size() == Q.rows()); if (p.size() != Q.rows()) return;
  for (int r = 0; r < Q.rows(); ++r) {
    vf::out("p", p(r)); SVec d; for (int i = 0; i < n; ++i) d.push_back(d2(X, i, Q, r, ord)); SB any(false);
    for (int m = 0; m < (1 << n); ++m) if (__builtin_popcount(m) == k) { std::map<int, int> f; int top = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) top = std::max(top, ++f[lab[i]]); SB win(false), in(true); for (auto& e : f) if (e.second == top) win = win | vf::eq(p(r), double(e.first * 2 - 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((m >> i & 1) && !(m >> j & 1)) in = in & vf::le(d[i], d[j]); any = any | (win & in); }
    vf::check("label-is-majority-of-nearest", any); }
  vf::reach("end");
}
static void bad() { neighbors::KNearestNeighbors<double> c(2, 1, "brute", "cosine"); c.fit(symMat("x", 2, 1), symVec("y", 2)); checkThrows<std::invalid_argument>("unknown-metric-rejected", [&] { c.predict(symMat("q", 1, 1)); }); vf::reach("end"); }
VFQ("b1", run(symMat("x", 3, 1), symMat("q", 1, 1), 3, "brute", 2, {}, 2), "3 arbitrary points, 3 neighbours, every labelling") VFQ("b2", run(symMat("x", 3, 1), symMat("q", 1, 1), 2, "brute", 1, {1, 0, 1}, 2), "2 neighbours, Manhattan") VFQ("b11", run(symMat("x", 4, 1), symMat("q", 1, 1), 3, "brute", 1, {1, 0, 1, 0}, 2), "4 points, 3 neighbours")
VFQ("bq", run(grid(3), symMat("q", 1, 2), 3, "brute", 2, {0, 1, 2, 1, 0, 0}, 3), "fixed point sets, any query") VFQ("bq2", run(grid(0, 3), symMat("q", 2, 2), 1, "brute", 1, {0, 1, 1, 2}, 3), "two queries, 1 neighbour") VFQ("bre", run(grid(0, 3), symMat("q", 1, 2), 3, "brute", 2, {}, 2, true), "second fit, every labelling")
VFQ("t1", run(symMat("x", 3, 1), symMat("q", 1, 1), 3, "kdtree", 2, {}, 2), "KD-tree, 3 arbitrary points, 3 neighbours, every labelling") VFQ("t2", run(symMat("x", 3, 1), symMat("q", 1, 1), 2, "kdtree", 1, {1, 0, 1}, 2), "2 neighbours, Manhattan") VFQ("t11", run(symMat("x", 4, 1), symMat("q", 1, 1), 3, "kdtree", 1, {1, 0, 1, 0}, 2, false, 2), "4 points, 3 neighbours")
VFQ("tq", run(grid(3), symMat("q", 1, 2), 3, "kdtree", 1, {0, 1, 2, 1, 0, 0}, 3), "fixed point sets, any query") VFQ("tqc", run(grid(0, 2), symMat("q", 1, 2), 3, "kdtree", 1, {0, 1, 2, 1, 0, 0}, 3, false, 3), "leaf 3") VFQ("tqq", run(grid(0, 3), symMat("q", 2, 2), 1, "kdtree", 1, {0, 1, 1, 2}, 3), "two queries, 1 neighbour") VFQ("tre", run(grid(0, 3), symMat("q", 1, 2), 3, "kdtree", 1, {}, 2, true), "second fit, every labelling")
static void few(const char* solver) { vf::encodes("neighbors::KNearestNeighbors::fit, predict"); neighbors::KNearestNeighbors<double> c(1, 3, solver, "manhattan"); Mat X = symMat("x", 2, 1); Vec y(2); y << 0, 1; checkThrows<std::exception>("more-neighbours-than-samples-rejected", [&] { c.fit(X, y); c.predict(symMat("q", 1, 1)); }); vf::reach("end"); }
VFQ("bad", bad(), "unknown metric") VFQ("fewb", few("brute"), "more neighbours than samples") VFQ("fewt", few("kdtree"), "more neighbours than samples, KD-tree")
VFT("b4", run(symMat("x", 4, 1), symMat("q", 1, 1), 3, "brute", 2, {}, 2), "4 arbitrary points, every labelling") VFT("tq2", run(grid(3), symMat("q", 1, 2), 3, "kdtree", 2, {0, 1, 2, 1, 0, 0}, 3), "fixed point sets, Euclidean") VFT("t4", run(symMat("x", 4, 1), symMat("q", 1, 1), 3, "kdtree", 2, {}, 2), "4 arbitrary points, every labelling")
