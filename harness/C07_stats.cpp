#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "core/math/ops.hpp"
#include "util.hpp"
using namespace openml;
static double mean(const SVec& v) { double s(0); for (auto& e : v) s += e; return s / double((int)v.size()); }
static double var(const SVec& v) { double m = mean(v), s(0); for (auto& e : v) s += (e - m) * (e - m); return s / double((int)v.size()); }
static SVec all(const Mat& X) { SVec v; for (int i = 0; i < X.rows(); ++i) for (int j = 0; j < X.cols(); ++j) v.push_back(X(i, j)); return v; }
static SVec ln(const Mat& X, int axis, int i) { return axis == -1 ? all(X) : line(X, axis, i); }
static void moments(int r, int c, int axis) {
  vf::encodes("math::mean, math::var, math::sum, math::cumsum, math::norm2");
  Mat X = symMat("x", r, c); Mat m = math::mean<Mat>(X, axis), v = math::var<Mat>(X, axis), s = math::sum<Mat>(X, axis), cs = math::cumsum<Mat, Vec>(X, axis);
  int n = axis == -1 ? 1 : axis == 0 ? c : r, R = axis == 1 ? r : 1, C = axis == 0 ? c : 1;
  if (!shapeIs("mean-shape", m, R, C) || !shapeIs("var-shape", v, R, C) || !shapeIs("sum-shape", s, R, C)) return;
  if (axis == -1 ? cs.size() != r * c : cs.rows() != r || cs.cols() != c) { vf::fail("cumsum-shape"); return; }
  for (int i = 0; i < n; ++i) {
    SVec l = ln(X, axis, i); double t(0); for (auto& e : l) t += e;
    vf::check("sum", vf::eq(s(i), t)); vf::check("mean", vf::eq(m(i), mean(l))); vf::check("var", vf::eq(v(i), var(l))); vf::out("var", v(i));
    double acc(0); for (int k = 0; k < (int)l.size(); ++k) { acc += l[k]; vf::check("cumsum", vf::eq(axis == -1 ? cs(k) : axis == 0 ? cs(k, i) : cs(i, k), acc)); }
    if (axis >= 0) { Vec nn = math::norm2<Mat, Vec>(X, axis); double q(0); for (auto& e : l) q += e * e; vf::check("norm2", vf::eq(nn(i) * nn(i), q) & vf::ge(nn(i), double(0))); }
  }
  vf::reach("end");
}
static void covar(int r, int c) {
  vf::encodes("math::cov, math::center, math::abs, math::power, math::sign");
  Mat X = symMat("x", r, c); Mat C = math::cov<Mat>(X), Z = math::center<Mat>(X);
  if (!shapeIs("cov-shape", C, c, c) || !shapeIs("center-shape", Z, r, c)) return;
  for (int i = 0; i < c; ++i) { SVec a = line(X, 0, i); double ma = mean(a); for (int k = 0; k < r; ++k) vf::check("center", vf::eq(Z(k, i), a[k] - ma));
    for (int j = 0; j < c; ++j) { SVec b = line(X, 0, j); double mb = mean(b), s(0); for (int k = 0; k < r; ++k) s += (a[k] - ma) * (b[k] - mb); vf::check("cov", vf::eq(C(i, j), s / double(r - 1))); } }
  vf::reach("end");
}
static void elementwise(int r, int c) {
  vf::encodes("math::abs, math::power, math::sign");
  Mat X = symMat("x", r, c); Mat A = math::abs<Mat>(X), P = math::power<Mat>(X, 3.0), S = math::sign<Mat>(X);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { double x = X(i, j); vf::check("abs", vf::eq(A(i, j), vabs(x))); vf::check("power", vf::eq(P(i, j), x * x * x));
    vf::check("sign", (vf::gt(x, double(0)) & vf::eq(S(i, j), double(1))) | (vf::eq(x, double(0)) & vf::eq(S(i, j), double(0))) | (vf::lt(x, double(0)) & vf::eq(S(i, j), double(-1)))); }
  vf::reach("end");
}
static void med(int r, int c, int axis) {
  vf::encodes("math::median");
  Mat X = symMat("x", r, c); Vec m = math::median<Mat, Vec>(X, axis); int n = axis == -1 ? 1 : axis == 0 ? c : r;
  vf::check("shape", m.size() == n); if (m.size() != n) return;
  for (int i = 0; i < n; ++i) {
    SVec l = ln(X, axis, i); int k = l.size();
    // order statistics by counting: a is the j-th smallest iff #(< a) <= j < #(<= a)
    auto stat = [&](const double& a, int j) { double lt(0), le(0); for (auto& e : l) { lt += one(vf::lt(e, a)); le += one(vf::le(e, a)); } return vf::le(lt, double(j)) & vf::gt(le, double(j)); };
    SB ok(false);
    if (k % 2) { for (auto& a : l) ok = ok | (vf::eq(m(i), a) & stat(a, k / 2)); }
    else for (auto& a : l) for (auto& b : l) ok = ok | (vf::eq(m(i), (a + b) / 2) & stat(a, k / 2 - 1) & stat(b, k / 2));
    vf::check("median", ok); vf::out("m", m(i));
  }
  vf::reach("end");
}
static void mode(int r, int c, int axis) {
  vf::encodes("math::mode");
  Mat X = symMat("x", r, c, 0, 3); auto t = math::mode<Mat>(X, axis); Mat m = std::get<0>(t), k = std::get<1>(t);
  int n = axis == 0 ? c : r; if (!shapeIs("shape", m, axis ? r : 1, axis ? 1 : c) || !shapeIs("shape", k, axis ? r : 1, axis ? 1 : c)) return;
  for (int i = 0; i < n; ++i) { SVec l = line(X, axis, i); vf::check("count-of-mode", vf::eq(k(i), countEq(l, m(i)))); vf::check("mode-occurs", vf::ge(k(i), double(1)));
    for (auto& e : l) vf::check("most-frequent", vf::le(countEq(l, e), k(i)));
    SB distinct = vf::eq(k(i), double(1)); for (auto& e : l) vf::check("all-distinct-gives-minimum", vf::imp(distinct, vf::le(m(i), e))); }
  vf::reach("end");
}
static void bad() { Mat X = symMat("x", 2, 2); checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { math::mean<Mat>(X, 2); }); checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { math::sum<Mat>(X, 3); }); checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { math::var<Mat>(X, -2); }); vf::reach("end"); }
VFQ("mom0", moments(3, 2, 0), "3x2 axis 0") VFQ("mom1", moments(2, 3, 1), "2x3 axis 1") VFQ("momall", moments(2, 3, -1), "2x3 flattened") VFQ("mom0b", moments(5, 2, 0), "5x2 axis 0") VFQ("mom1r", moments(4, 3, 1), "4x3 axis 1") VFQ("mom01", moments(1, 2, 0), "1x2 axis 0")
VFQ("cov32", covar(3, 2), "3x2") VFQ("cov43", covar(4, 3), "4x3") VFQ("elem", elementwise(2, 2), "2x2")
VFQ("med0o", med(3, 2, 0), "3x2 axis 0") VFQ("med0e", med(4, 1, 0), "4x1 axis 0") VFQ("med1o", med(1, 5, 1), "1x5 axis 1") VFQ("med1e", med(2, 2, 1), "2x2 axis 1") VFQ("medall_o", med(1, 3, -1), "1x3 flattened") VFQ("medall_e", med(2, 2, -1), "2x2 flattened") VFQ("med1f", med(1, 4, 1), "1x4 axis 1")
VFQ("mode0", mode(3, 2, 0), "3x2 axis 0, entries in [0,3]") VFQ("mode1", mode(1, 4, 1), "1x4 axis 1") VFQ("mode0b", mode(4, 1, 0), "4x1 axis 0") VFQ("mode1b", mode(2, 3, 1), "2x3 axis 1") VFQ("bad", bad(), "invalid axes")
VFT("med5", med(5, 1, 0), "5x1") VFT("med6", med(1, 6, 1), "1x6") VFT("mode5", mode(5, 1, 0), "5x1")
