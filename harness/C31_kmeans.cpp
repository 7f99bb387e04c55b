#include "env.hpp"
#include "begin.hpp"
#include "methods/cluster/kmeans.hpp"
#include "util.hpp"
using namespace openml;
using KM = cluster::KMeans<double>;
using I = std::vector<int>;
static double d2(const RVec& a, const RVec& b) { double t(0); for (int j = 0; j < a.size(); ++j) t += (a(j) - b(j)) * (a(j) - b(j)); return t; }
static int nearest(const RVec& x, const Mat& c) { int b = 0; for (int j = 1; j < c.rows(); ++j) if (vf::holds(vf::lt(d2(x, c.row(j)), d2(x, c.row(b))))) b = j; return b; }
// Lloyd's algorithm from the given samples as centroids
static Mat lloyd(const Mat& X, const I& start, int iters, const double& tol) {
  int k = start.size(), d = X.cols(); Mat c(k, d); for (int j = 0; j < k; ++j) c.row(j) = X.row(start[j]);
  for (int it = 0; it < iters; ++it) { std::vector<I> g(k); for (int i = 0; i < X.rows(); ++i) g[nearest(X.row(i), c)].push_back(i); double eps(0); Mat m = c;
    for (int j = 0; j < k; ++j) if (!g[j].empty()) { for (int f = 0; f < d; ++f) { double t(0); for (int i : g[j]) t += X(i, f); m(j, f) = t / double((int)g[j].size()); } eps += std::sqrt(d2(m.row(j), c.row(j))); }
    c = m; if (vf::holds(vf::lt(eps, tol))) break; }
  return c;
}
// label j means: centroid j is nearest (the first one on ties)
static SB labelled(const Vec& p, const Mat& Q, const Mat& c) { SB r(true); for (int i = 0; i < Q.rows(); ++i) { SB o(false); for (int j = 0; j < c.rows(); ++j) { SB b = vf::eq(p(i), double(j)); for (int q = 0; q < c.rows(); ++q) if (q != j) b = b & (q < j ? vf::gt(d2(Q.row(i), c.row(q)), d2(Q.row(i), c.row(j))) : vf::ge(d2(Q.row(i), c.row(q)), d2(Q.row(i), c.row(j)))); o = o | b; } r = r & o; } return r; }
// starts the random source determines: the first k of a permutation; kmeans++ sampling by squared distance with the best of 2 + floor(log k) candidates
static I hintRandom(int n, int k) { I h; if (vf::shuflog().size() == 1 && (int)vf::shuflog()[0].size() == n) h.assign(vf::shuflog()[0].begin(), vf::shuflog()[0].begin() + k); return h; }
static I plusplus(const Mat& X, int k) {
  I s; int n = X.rows(), L = 2 + (k > 2); if (vf::intlog().size() != 1 || (int)vf::unilog().size() != L * (k - 1)) return s; s.push_back(vf::intlog()[0]); SVec D; for (int i = 0; i < n; ++i) D.push_back(d2(X.row(i), X.row(s[0])));
  for (int c = 1; c < k; ++c) { double pot(0); for (auto& e : D) pot += e; int best = -1; double bp(0); SVec bd;
    for (int t = 0; t < L; ++t) { double r = vf::unilog()[(c - 1) * L + t] * pot, cum(0); int pick = n - 1; for (int i = 0; i < n; ++i) { cum += D[i]; if (vf::holds(vf::ge(cum, r))) { pick = i; break; } }
      SVec e; double np(0); for (int i = 0; i < n; ++i) { e.push_back(vmin(D[i], d2(X.row(i), X.row(pick)))); np += e.back(); } if (best < 0 || vf::holds(vf::lt(np, bp))) best = pick, bp = np, bd = e; }
    s.push_back(best); D = bd; }
  return s;
}
static void starts(int n, int k, bool distinct, I cur, std::vector<I>& out) { if ((int)cur.size() == k) { out.push_back(cur); return; } for (int i = 0; i < n; ++i) if (!distinct || std::find(cur.begin(), cur.end(), i) == cur.end()) { I c = cur; c.push_back(i); starts(n, k, distinct, c, out); } }
static void verify(KM& m, const Mat& X, const char* init, int k, int iters, const double& tol, const Mat& Q) {
  bool rnd = std::string(init) == "random"; Vec p = m.predict(Q); vf::check("one-label-per-row", p.size() == Q.rows()); if (p.size() != Q.rows()) return; for (int i = 0; i < p.size(); ++i) vf::out("p", p(i));
  I h = rnd ? hintRandom(X.rows(), k) : plusplus(X, k); if (!h.empty()) { SB ok = labelled(p, Q, lloyd(X, h, iters, tol)); if (!rnd) { vf::check("nearest-lloyd-centroid-from-plusplus-start", ok); vf::reach("end"); return; } if (vf::holds(ok)) { vf::reach("end"); return; } }
  std::vector<I> all; starts(X.rows(), k, rnd, {}, all); SB any(false); for (auto& s : all) any = any | labelled(p, Q, lloyd(X, s, iters, tol)); vf::check("nearest-lloyd-centroid-from-sample-start", any); vf::reach("end");
}
static void run(const Mat& X, const char* init, int k, int iters, const double& tol, const Mat& Q, bool again = false) {
  vf::encodes("cluster::KMeans::fit, init_centroid, kmeans_plusplus, kmeans_lloyd, predict_label; math::row_norms, math::cumsum; random::permutation, random::randint, random::rand");
  KM m(init, 1, k, iters, tol); if (again) { Mat A(k, X.cols()); for (int i = 0; i < k; ++i) for (int j = 0; j < X.cols(); ++j) A(i, j) = double(i * i + j); m.fit(A); } vf::shuflog().clear(); vf::intlog().clear(); vf::unilog().clear(); m.fit(X); verify(m, X, init, k, iters, tol, Q);
}
static Mat fx(int n, int d) { static const int A[6][2] = {{0, 0}, {1, 3}, {5, 4}, {6, 1}, {2, 7}, {1, 1}}; Mat X(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = A[i][j]; return X; }
static void dflt() { KM m; vf::shuflog().clear(); vf::intlog().clear(); vf::unilog().clear(); Mat X = fx(3, 1); m.fit(X); verify(m, X, "kmeans++", 3, 300, double(1e-4), symMat("q", 1, 1)); }
VFQ("s1", run(symMat("x", 3, 1), "random", 2, 1, 1e-4, symMat("q", 1, 1)), "any 3 samples in 1-D, 2 clusters, one iteration, any query") VFQ("s2", run(symMat("x", 3, 1), "random", 2, 3, 1e-4, fx(1, 1)), "any 3 samples in 1-D, 2 clusters, up to 3 iterations") VFQ("f42", run(fx(4, 2), "random", 2, 10, 1e-4, symMat("q", 1, 2)), "4 fixed samples in 2-D, every start, any query") VFQ("f53", run(fx(5, 2), "random", 3, 10, 1e-4, symMat("q", 1, 2)), "5 fixed samples, 3 clusters")
VFQ("tol", run(fx(5, 1), "random", 2, 5, vf::real("tol", 0, 10), symMat("q", 1, 1)), "any tolerance") VFQ("it", run(fx(5, 2), "random", 2, 1 + vf::choose("iters", 3), 1e-4, symMat("q", 2, 2)), "1 to 3 iterations, two queries") VFQ("pp2", run(fx(4, 2), "kmeans++", 2, 10, 1e-4, symMat("q", 1, 2)), "kmeans++ from every random draw, 4 fixed samples") VFQ("pp3", run(fx(3, 1), "kmeans++", 3, 10, 1e-4, symMat("q", 1, 1)), "kmeans++, 3 clusters") VFQ("re", run(fx(4, 2), "random", 2, 10, 1e-4, symMat("q", 1, 2), true), "second fit") VFQ("dflt", dflt(), "default settings") VFQ("one", run(symMat("x", 3, 2), "random", 1, 5, 1e-4, symMat("q", 1, 2)), "one cluster")
VFQ("sc", run(symMat("x", 2, 2), "random", 2, 2, 1e-4, fx(2, 2)), "any two samples in 2-D")
VFT("ppx", run(symMat("x", 3, 1), "kmeans++", 2, 1, 1e-4, fx(1, 1)), "kmeans++ on any 3 samples")
VFT("s4", run(symMat("x", 4, 1), "random", 2, 2, 1e-4, fx(1, 1)), "any 4 samples") VFT("pp5", run(fx(5, 2), "kmeans++", 2, 10, 1e-4, symMat("q", 2, 2)), "kmeans++, 5 samples") VFT("f63", run(fx(6, 2), "random", 3, 10, 1e-4, symMat("q", 1, 2)), "6 samples, 3 clusters")
