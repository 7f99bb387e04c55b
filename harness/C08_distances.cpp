#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
using namespace openml;
static double ref(const SVec& a, const SVec& b, int p) { double s(0); for (size_t k = 0; k < a.size(); ++k) { double d = vabs(a[k] - b[k]); if (p == 2) s += d * d; else if (p == 1) s += d; else s = vmax(s, d); } return s; }
static SVec sv(const Vec& v) { SVec r; for (int i = 0; i < v.size(); ++i) r.push_back(v(i)); return r; }
static void mink(int d, int p) {
  vf::encodes("metric::minkowski_distance");
  Vec a = symVec("a", d), b = symVec("b", d); double x = metric::minkowski_distance<Vec>(a, b, p), y = metric::minkowski_distance<Vec>(b, a, p), r = ref(sv(a), sv(b), p);
  vf::check("value", p == 2 ? vf::eq(x * x, r) & vf::ge(x, double(0)) : vf::eq(x, r)); vf::check("symmetric", vf::eq(x, y)); vf::check("zero-to-itself", vf::eq(metric::minkowski_distance<Vec>(a, a, p), double(0)));
  SB same(true); for (int i = 0; i < d; ++i) same = same & vf::eq(a(i), b(i)); vf::check("zero-only-if-equal", vf::imp(vf::eq(x, double(0)), same));
  vf::out("d", x); vf::reach("end");
}
static void triangle(int d, int p) {
  vf::encodes("metric::minkowski_distance");
  Vec a = symVec("a", d), b = symVec("b", d), c = symVec("c", d);
  vf::check("triangle", vf::le(metric::minkowski_distance<Vec>(a, c, p), metric::minkowski_distance<Vec>(a, b, p) + metric::minkowski_distance<Vec>(b, c, p))); vf::reach("end");
}
static void vecs(int d) {
  vf::encodes("metric::euclidean_distance, metric::manhattan_distance");
  SVec a = symSV("a", d), b = symSV("b", d); double e = metric::euclidean_distance<double>(a, b), m = metric::manhattan_distance<double>(a, b);
  vf::check("euclidean", vf::eq(e * e, ref(a, b, 2)) & vf::ge(e, double(0))); vf::check("manhattan", vf::eq(m, ref(a, b, 1))); vf::out("e", e); vf::reach("end");
}
static void norms(int r, int c, int axis, int p) {
  vf::encodes("common::norm, math::row_norms");
  Mat X = symMat("x", r, c); Mat N = common::norm<Mat>(X, axis, p); if (!shapeIs("shape", N, axis ? r : 1, axis ? 1 : c)) return;
  for (int i = 0; i < N.size(); ++i) { SVec l = line(X, axis, i), z(l.size(), double(0)); double q = ref(l, z, p); vf::check("norm", p == 2 ? vf::eq(N(i) * N(i), q) & vf::ge(N(i), double(0)) : vf::eq(N(i), q)); }
  if (axis == 1 && p == 2) { Mat a = math::row_norms<Mat, Vec>(X, false), b = math::row_norms<Mat, Vec>(X, true); if (!shapeIs("shape", a, r, 1) || !shapeIs("shape", b, r, 1)) return;
    for (int i = 0; i < r; ++i) { SVec l = line(X, 1, i), z(l.size(), double(0)); double q = ref(l, z, 2); vf::check("row_norms", vf::eq(a(i) * a(i), q) & vf::ge(a(i), double(0))); vf::check("row_norms-squared", vf::eq(b(i), q)); } }
  vf::reach("end");
}
static void scores(int n) {
  vf::encodes("metric::mean_absolute_error, metric::explained_variance_score");
  Vec y = symVec("y", n), p = symVec("p", n); double s(0); for (int i = 0; i < n; ++i) s += (y(i) - p(i)) * (y(i) - p(i));
  vf::check("mean-squared-error", vf::eq(metric::mean_absolute_error<Vec>(y, p), s / double(n)));
  auto var = [&](const Vec& v) { double m(0), q(0); for (int i = 0; i < n; ++i) m += v(i); m = m / double(n); for (int i = 0; i < n; ++i) q += (v(i) - m) * (v(i) - m); return q / double(n); };
  double vy = var(y); vf::assume(vf::gt(vy, double(0))); Vec d = p - y;
  double e = metric::explained_variance_score<Vec>(y, p); vf::check("explained-variance", vf::eq((double(1) - e) * vy, var(d))); vf::check("perfect-is-1", vf::eq(metric::explained_variance_score<Vec>(y, y), double(1)));
  vf::reach("end");
}
static void bad() {
  Vec a = symVec("a", 2), b = symVec("b", 3); Vec c = symVec("c", 2);
  checkThrows<std::invalid_argument>("length-mismatch-rejected", [&] { metric::minkowski_distance<Vec>(a, b, 2); });
  checkThrows<std::invalid_argument>("unknown-order-rejected", [&] { metric::minkowski_distance<Vec>(a, c, 3); });
  Mat m = a, t = a.transpose(); checkThrows<std::invalid_argument>("shape-mismatch-rejected", [&] { metric::minkowski_distance<Mat>(m, t, 1); }); vf::reach("end");
}
const int INF = Eigen::Infinity;
VFQ("m1", mink(3, 1), "L1, 3 components") VFQ("m2", mink(3, 2), "L2, 3 components") VFQ("minf", mink(3, INF), "Linf, 3 components") VFQ("vecs", vecs(3), "3 components")
VFQ("tri1", triangle(2, 1), "L1 triangle, 2-D") VFQ("triinf", triangle(2, INF), "Linf triangle, 2-D") VFQ("tri2", triangle(1, 2), "L2 triangle, 1-D")
VFQ("n11", norms(2, 3, 1, 1), "row L1 norms 2x3") VFQ("n12", norms(2, 3, 1, 2), "row L2 norms") VFQ("n1i", norms(2, 3, 1, INF), "row Linf") VFQ("n01", norms(3, 2, 0, 1), "column L1") VFQ("n02", norms(3, 2, 0, 2), "column L2") VFQ("n0i", norms(3, 2, 0, INF), "column Linf")
VFQ("scores", scores(3), "3 samples") VFQ("bad", bad(), "rejected arguments")
