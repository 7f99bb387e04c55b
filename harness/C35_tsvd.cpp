#include "env.hpp"
#include "begin.hpp"
#include "util.hpp"
#include "svd.hpp"
#include "methods/decomposition/truncated_svd.hpp"
using namespace openml;
// the sketch V * R0 with R0 upper triangular, in the order the draws are made (column by column)
static void sketch(const Mat& V, int w, int r0) { static const int C[3][3] = {{1, 1, -1}, {0, 1, 2}, {0, 0, 1}}; vf::unifix().clear(); for (int j = 0; j < w; ++j) for (int i = 0; i < V.rows(); ++i) { double t(0); for (int m = 0; m <= j; ++m) t += V(i, m) * double(m == j ? 1 : r0 ? C[m][j] : 0); vf::unifix().push_back(t); } }
static void run(const Mat& V, const SVec& s, int k, int over, int iters, const char* norm, const Mat& Q, int r0 = 1, bool again = false) {
  vf::encodes("decomposition::TruncatedSVD::fit, transform; math::randomized_svd, lu, qr, exact_svd, svd_flip, var"); vf::eps_zero(); int n = 4, d = V.rows(), w = k + over; facts().clear(); Fact f{left4u(), V, s}; facts().push_back(f); Mat X = product(f);
  decomposition::TruncatedSVD<double> t(k, over, iters, "randomized", norm); if (again) { Fact o{left4u(), V, {}}; for (int j = 0; j < d; ++j) o.s.push_back(double(d - j)); facts().push_back(o); sketch(V, w, r0); t.fit(product(o)); }
  sketch(V, w, r0); t.fit(X);
  Mat C = t.get_components(); Vec ev = t.get_explained_var(), er = t.get_explained_var_ratio(), sv = t.get_singular_values(); if (!shapeIs("one-row-per-component", C, k, d)) return; vf::check("one-value-per-component", ev.size() == k && er.size() == k && sv.size() == k); if (ev.size() != k || er.size() != k || sv.size() != k) return;
  auto variance = [&](const SVec& c) { double m(0), q(0); for (auto& e : c) { m += e / double(n); q += e * e / double(n); } return q - m * m; }; double full(0); for (int j = 0; j < d; ++j) { SVec c; for (int i = 0; i < n; ++i) c.push_back(X(i, j)); full += variance(c); }
  Mat Z = t.transform(X); if (!shapeIs("one-row-per-sample", Z, n, k)) return;
  for (int a = 0; a < k; ++a) { vf::out("sv", sv(a)); vf::check("leading-singular-values", vf::eq(sv(a), s[a])); for (int b = 0; b <= a; ++b) { double u(0); for (int j = 0; j < d; ++j) u += C(a, j) * C(b, j); vf::check("components-orthonormal", vf::eq(u, double(a == b ? 1 : 0))); }
    for (int i = 0; i < d; ++i) { double u(0); for (int j = 0; j < d; ++j) { double g(0); for (int r = 0; r < n; ++r) g += X(r, i) * X(r, j); u += g * C(a, j); } vf::check("components-are-right-singular-vectors", vf::eq(u, s[a] * s[a] * C(a, i))); }
    SVec c; for (int i = 0; i < n; ++i) { double u(0); for (int j = 0; j < d; ++j) u += X(i, j) * C(a, j); vf::check("training-projection", vf::eq(Z(i, a), u)); c.push_back(u); }
    vf::check("explained-variance", vf::eq(ev(a), variance(c))); vf::check("explained-share", vf::eq(er(a) * full, variance(c)));
    SB any(false); for (int i = 0; i < n; ++i) { SB top = vf::ge(Z(i, a), double(0)); for (int o = 0; o < n; ++o) top = top & vf::ge(Z(i, a), Z(o, a)) & vf::ge(Z(i, a), -Z(o, a)); any = any | top; } vf::check("largest-score-is-positive", any); }
  if (Q.rows()) { Mat P = t.transform(Q); if (!shapeIs("one-row-per-query", P, Q.rows(), k)) return; for (int r = 0; r < Q.rows(); ++r) for (int a = 0; a < k; ++a) { double u(0); for (int j = 0; j < d; ++j) u += Q(r, j) * C(a, j); vf::check("projection", vf::eq(P(r, a), u)); } }
  vf::reach("end");
}
static void bad(int k, int over, const char* norm) { vf::encodes("math::randomized_svd"); decomposition::TruncatedSVD<double> t(k, over, 1, "randomized", norm); Mat X = symMat("x", 3, 2); checkThrows<std::invalid_argument>("invalid-request-rejected", [&] { t.fit(X); }); vf::reach("end"); }
VFQ("q0", run(right(2), singular(2), 1, 1, 0, "None", symMat("q", 1, 2)), "2 features, no power iteration") VFQ("lu1", run(right(2), singular(2), 1, 1, 1, "LU", symMat("q", 1, 2)), "LU-normalised iteration") VFQ("qr1", run(right(2), singular(2), 2, 0, 1, "QR", symMat("q", 2, 2)), "QR-normalised iteration, both components") VFQ("no1", run(right(2, 2), singular(2), 1, 1, 1, "None", Mat(0, 2)), "plain power iteration")
VFQ("wide", run(house(5), singular(4), 1, 1, 0, "None", symMat("q", 1, 5)), "4 samples, 5 features") VFQ("w3", run(right(3), singular(3), 1, 1, 0, "None", symMat("q", 1, 3)), "3 features, a sketch of width 2") VFQ("lu3", run(right(3), singular(3), 1, 1, 1, "LU", Mat(0, 3)), "3 features, LU")
VFQ("few", bad(2, 1, "LU"), "sketch wider than the data") VFQ("name", bad(1, 1, "none"), "unknown normaliser")
