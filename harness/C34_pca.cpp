#include "env.hpp"
#include "begin.hpp"
#include "util.hpp"
#include "svd.hpp"
#include "methods/decomposition/pca.hpp"
using namespace openml;
static void run(const Mat& V, const SVec& s, int k, const Mat& mean, const Mat& Q, bool again = false, bool zero = false) {
  vf::encodes("decomposition::PCA::fit, transform, score, get_covariance, get_precision; math::exact_svd, svd_flip, center, pinv, logdet"); int n = 4, d = V.rows(); facts().clear(); vf::exp_whole(true); fewSigns() = V.rows() > 4;
  Fact f{left4(), V, s}; Mat Y = product(f), X(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = Y(i, j) + mean(0, j); facts().push_back(f);
  int rk = std::min(n, d); SVec var; double tot(0), noise(0); for (int j = 0; j < rk; ++j) { var.push_back(s[j] * s[j] / double(n - 1)); tot += var[j]; if (j >= k) noise += var[j] / double(rk - k); }
  Fact c{V, V, var}; c.s.resize(d); for (int j = k; j < d; ++j) c.s[j] = noise; facts().push_back(c);
  decomposition::PCA<double> p("svd", k); if (again) { Fact o{left4(), right(d), {}}; for (int j = 0; j < d; ++j) o.s.push_back(double(d - j)); facts().push_back(o); Fact oc{o.V, o.V, {}}; double on(0); for (int j = 0; j < d; ++j) { oc.s.push_back(o.s[j] * o.s[j] / double(3)); if (j >= k) on += oc.s[j] / double(d - k); } for (int j = k; j < d; ++j) oc.s[j] = on; facts().push_back(oc); p.fit(product(o)); }
  p.fit(X); double sc(0); if (Q.rows() && !zero) sc = p.score(Q);
  Mat C = p.get_components(); Vec ev = p.get_explained_var(), er = p.get_explained_var_ratio(), sv = p.get_singular_values(); if (!shapeIs("one-row-per-component", C, k, d)) return; vf::check("one-value-per-component", ev.size() == k && er.size() == k && sv.size() == k); if (ev.size() != k || er.size() != k || sv.size() != k) return;
  for (int a = 0; a < k; ++a) { vf::out("sv", sv(a)); vf::check("singular-values", vf::eq(sv(a), s[a])); vf::check("explained-variance", vf::eq(ev(a), var[a])); vf::check("explained-share", vf::eq(er(a) * tot, var[a]));
    for (int b = 0; b <= a; ++b) { double t(0); for (int j = 0; j < d; ++j) t += C(a, j) * C(b, j); vf::check("components-orthonormal", vf::eq(t, double(a == b ? 1 : 0))); }
    for (int i = 0; i < d; ++i) { double t(0); for (int j = 0; j < d; ++j) { double cv(0); for (int r = 0; r < n; ++r) cv += Y(r, i) * Y(r, j); t += cv / double(n - 1) * C(a, j); } vf::check("components-are-covariance-directions", vf::eq(t, var[a] * C(a, i))); } }
  Mat Z = p.transform(X); if (!shapeIs("one-row-per-sample", Z, n, k)) return;
  for (int a = 0; a < k; ++a) { SB any(false); for (int i = 0; i < n; ++i) { SB top = vf::ge(Z(i, a), double(0)); for (int o = 0; o < n; ++o) top = top & vf::ge(Z(i, a), Z(o, a)) & vf::ge(Z(i, a), -Z(o, a)); any = any | top; } vf::check("largest-score-is-positive", any); for (int i = 0; i < n; ++i) { double t(0); for (int j = 0; j < d; ++j) t += Y(i, j) * C(a, j); vf::check("training-projection", vf::eq(Z(i, a), t)); } }
  Mat cov = p.get_covariance(), pr = p.get_precision(); if (!shapeIs("covariance-shape", cov, d, d) || !shapeIs("precision-shape", pr, d, d)) return;
  for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { double t = i == j ? noise : double(0); for (int a = 0; a < k; ++a) t += C(a, i) * (var[a] - noise) * C(a, j); vf::check("model-covariance", vf::eq(cov(i, j), t)); if (zero) continue; double u(0); for (int m = 0; m < d; ++m) u += cov(i, m) * pr(m, j); vf::check("precision-inverts-covariance", vf::eq(u, double(i == j ? 1 : 0))); }
  if (Q.rows()) { Mat P = p.transform(Q); if (!shapeIs("one-row-per-query", P, Q.rows(), k)) return; double q(0); for (int r = 0; r < Q.rows(); ++r) { for (int a = 0; a < k; ++a) { double t(0); for (int j = 0; j < d; ++j) t += (Q(r, j) - mean(0, j)) * C(a, j); vf::check("projection-uses-training-mean", vf::eq(P(r, a), t)); } if (!zero) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q += (Q(r, i) - mean(0, i)) * pr(i, j) * (Q(r, j) - mean(0, j)); }
    if (!zero) { double ld(0); for (int j = 0; j < d; ++j) ld += std::log(c.s[j]); vf::out("score", sc); vf::check("score-is-mean-log-likelihood", vf::eq(sc, (double(d) * double(std::log(2 * M_PI)) + ld + q / double((int)Q.rows())) / double(-2))); } }
  vf::reach("end");
}
// more features than samples: centred data have rank 3 at most
static SVec wide() { SVec s = singular(3); s.push_back(double(0)); return s; }
static Mat mean(int d) { return symMat("m", 1, d, -4, 4); }
VFQ("d1", run(right(1), singular(1), 1, mean(1), symMat("q", 1, 1)), "4 samples, 1 feature") VFQ("d2", run(right(2), singular(2), 2, mean(2), symMat("q", 1, 2)), "2 features, both kept") VFQ("d21", run(right(2, 2), singular(2), 1, mean(2), symMat("q", 2, 2)), "2 features, 1 kept, two queries")
VFQ("axis", run(right(2, 1), singular(2), 2, mean(2), symMat("q", 1, 2)), "axis-aligned") VFQ("turn", run(turn(vf::real("t", -4, 4)), singular(2), 1, mean(2), Mat(0, 2)), "any rotation") VFQ("d3", run(right(3), singular(3), 2, mean(3), Mat(0, 3)), "3 features, 2 kept") VFQ("d31", run(right(3), singular(3), 1, mean(3), Mat(0, 3)), "3 features, 1 kept")
VFQ("wide2", run(house(5), wide(), 2, mean(5), symMat("q", 1, 5)), "4 samples, 5 features, 2 kept") VFQ("wide1", run(house(5), wide(), 1, mean(5), Mat(0, 5)), "4 samples, 5 features, 1 kept") VFQ("rank", run(right(2), {vf::real("s", 0.25, 8), double(0)}, 1, mean(2), symMat("q", 1, 2), false, true), "one direction without spread") VFQ("rank2", run(right(2), {vf::real("s", 0.25, 8), double(0)}, 2, mean(2), symMat("q", 1, 2), false, true), "the same, both kept")
VFQ("re", run(right(2), singular(2), 1, mean(2), symMat("q", 1, 2), true), "second fit")
