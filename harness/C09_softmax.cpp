#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
using namespace openml;
static void sig(int r, int c, int lim) {
  vf::encodes("math::sigmoid, common::fmin"); vf::exp_guard(true);
  Mat X = symMat("x", r, c, -lim, lim); Mat S = math::sigmoid<Mat>(X); if (!shapeIs("shape", S, r, c)) return;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { vf::check("finite", vf::is_finite(S(i, j))); vf::check("range", vf::ge(S(i, j), double(0)) & vf::le(S(i, j), double(1))); vf::out("s", S(i, j));
    if (lim <= 30) { vf::exp_guard(false); double e = std::exp(X(i, j)); vf::check("definition", vf::eq(S(i, j) * (double(1) + e), e)); } }
  vf::reach("end");
}
static void soft(int r, int c, int axis, int lim) {
  vf::encodes("math::softmax"); vf::exp_guard(true);
  Mat X = symMat("x", r, c, -lim, lim); Mat S = math::softmax<Mat>(X, axis); if (!shapeIs("shape", S, r, c)) return;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { vf::check("finite", vf::is_finite(S(i, j))); vf::check("nonnegative", vf::ge(S(i, j), double(0))); vf::out("s", S(i, j)); }
  int n = axis == -1 ? 1 : axis == 0 ? c : r;
  if (lim <= 30) { vf::exp_guard(false);
    for (int i = 0; i < n; ++i) { double t(0), se(0); SVec s, x; for (int p = 0; p < r; ++p) for (int q = 0; q < c; ++q) if (axis == -1 || (axis == 0 ? q : p) == i) { s.push_back(S(p, q)); x.push_back(X(p, q)); }
      for (size_t k = 0; k < s.size(); ++k) { t += s[k]; se += std::exp(x[k]); } vf::check("sums-to-one", vf::eq(t, double(1)));
      for (size_t k = 0; k < s.size(); ++k) vf::check("definition", vf::eq(s[k] * se, std::exp(x[k]))); } }
  vf::reach("end");
}
static void lse(int r, int c, int axis, int lim) {
  vf::encodes("math::logsumexp"); vf::exp_guard(true);
  Mat X = symMat("x", r, c, -lim, lim); Vec L = math::logsumexp<Mat, Vec>(X, axis); int n = axis == -1 ? 1 : axis == 0 ? c : r;
  vf::check("shape", L.size() == n); if (L.size() != n) return;
  for (int i = 0; i < n; ++i) vf::check("finite", vf::is_finite(L(i)));
  if (lim <= 30) { vf::exp_guard(false);
    for (int i = 0; i < n; ++i) { double se(0); for (int p = 0; p < r; ++p) for (int q = 0; q < c; ++q) if (axis == -1 || (axis == 0 ? q : p) == i) se += std::exp(X(p, q));
      vf::check("definition", vf::eq(std::exp(L(i)), se)); vf::out("l", L(i)); } }
  vf::reach("end");
}
// rows (axis 1) or columns of very different size, exp underflowing to zero below -746: neighbouring entries of a line
// differ by at least one, so a line whose probabilities were lost cannot look right by accident
static void soft_under(int r, int c, int axis, bool lg) {
  vf::encodes("math::softmax, math::logsumexp"); vf::exp_guard(true); vf::exp_flush(true);
  Mat X = symMat("x", r, c, -2000, 2000); int n = axis ? r : c, m = axis ? c : r; auto at = [&](const Mat& A, int i, int k) { return axis ? A(i, k) : A(k, i); };
  for (int i = 0; i < n; ++i) for (int k = 1; k < m; ++k) vf::assume(vf::ge(at(X, i, k), at(X, i, k - 1) + double(1)) & vf::le(at(X, i, k), at(X, i, k - 1) + double(3)));
  Mat S; Vec L; if (lg) { L = math::logsumexp<Mat, Vec>(X, axis); if (L.size() != n) { vf::fail("shape"); return; } } else { S = math::softmax<Mat>(X, axis); if (!shapeIs("shape", S, r, c)) return; }
  for (int i = 0; i < n; ++i) { double se(0); double top = at(X, i, m - 1); for (int k = 0; k < m; ++k) se += std::exp(at(X, i, k) - top);
    if (lg) { vf::check("finite", vf::is_finite(L(i))); vf::check("definition", vf::eq(L(i) - top, std::log(se))); }
    else for (int k = 0; k < m; ++k) { vf::check("finite", vf::is_finite(at(S, i, k))); vf::check("definition", vf::eq(at(S, i, k) * se, std::exp(at(X, i, k) - top))); } }
  vf::reach("end");
}
static void gauss() {
  vf::encodes("math::gaussian_fn");
  double x = vf::real("x", -3, 3), u = vf::real("u", -3, 3), v = vf::real("v", 0, 4); vf::assume(vf::ge(v, double(0.01)));
  double g = math::gaussian_fn<double>(x, u, v);
  vf::check("log-density", vf::eq(g + double(0.5) * std::log(double(2.0 * M_PI) * v), -(x - u) * (x - u) / (double(2.0) * v))); vf::reach("end");
}
static void bad() { Mat a = symMat("a", 1, 3), b = symMat("b", 3, 1); checkThrows<std::invalid_argument>("one-dimensional-rejected", [&] { math::softmax<Mat>(a, 0); }); checkThrows<std::invalid_argument>("one-dimensional-rejected", [&] { math::softmax<Mat>(b, 1); }); vf::reach("end"); }
VFQ("sig", sig(1, 2, 20), "1x2, |x|<=20") VFQ("sig_big", sig(1, 2, 2000), "1x2, |x|<=2000: no exp overflow")
VFQ("soft1", soft(2, 2, 1, 20), "2x2 axis 1") VFQ("soft0", soft(2, 2, 0, 20), "2x2 axis 0") VFQ("softall", soft(2, 2, -1, 20), "2x2 whole matrix") VFQ("softallw", soft(2, 3, -1, 20), "2x3 whole matrix") VFQ("softallt", soft(3, 2, -1, 20), "3x2 whole matrix") VFQ("lseallw", lse(2, 3, -1, 20), "2x3 whole") VFQ("soft1w", soft(2, 3, 1, 20), "2x3 axis 1")
VFQ("soft1_big", soft(2, 2, 1, 2000), "2x2 axis 1, |x|<=2000: no exp overflow") VFQ("soft0_big", soft(2, 2, 0, 2000), "axis 0, |x|<=2000") VFQ("softall_big", soft(2, 2, -1, 2000), "whole, |x|<=2000")
VFQ("lse1", lse(2, 3, 1, 20), "2x3 axis 1") VFQ("lse0", lse(3, 2, 0, 20), "3x2 axis 0") VFQ("lseall", lse(2, 2, -1, 20), "2x2 whole") VFQ("lse_c1", lse(2, 1, 1, 20), "2x1 axis 1")
VFQ("lse1_big", lse(2, 2, 1, 2000), "2x2 axis 1, |x|<=2000") VFQ("lse0_big", lse(2, 2, 0, 2000), "axis 0") VFQ("lseall_big", lse(2, 2, -1, 2000), "whole") VFQ("gauss", gauss(), "x,u in [-3,3], v in [0.01,4]") VFQ("bad", bad(), "single row or column")
VFQ("soft_row", soft(1, 3, 1, 20), "a single row, axis 1") VFQ("soft_col", soft(3, 1, 0, 20), "a single column, axis 0")
VFQ("soft1_uf", soft_under(2, 2, 1, false), "2x2 axis 1, |x|<=2000, with underflow") VFQ("soft0_uf", soft_under(2, 2, 0, false), "2x2 axis 0, |x|<=2000, with underflow") VFQ("lse1_uf", soft_under(2, 2, 1, true), "log-sum-exp, 2x2 axis 1, |x|<=2000, with underflow") VFQ("lse0_uf", soft_under(2, 2, 0, true), "log-sum-exp, 2x2 axis 0, |x|<=2000, with underflow")
