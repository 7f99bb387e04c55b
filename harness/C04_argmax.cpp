#include "env.hpp"
#include "begin.hpp"
#include "core/common.hpp"
#include "util.hpp"
using namespace openml;
static void arg(bool mx, int r, int c, int axis) {
  vf::encodes("common::argmax, common::argmin, common::flatten(matrix)");
  Mat X = symMat("x", r, c);
  IdxVec a = mx ? common::argmax<Mat, Vec, IdxVec>(X, axis) : common::argmin<Mat, Vec, IdxVec>(X, axis);
  int n = axis == -1 ? 1 : axis == 1 ? r : c;
  vf::check("one-index-per-line", a.size() == n); if (a.size() != n) return;
  for (int i = 0; i < n; ++i) {
    SVec l; if (axis == -1) { for (int p = 0; p < r; ++p) for (int q = 0; q < c; ++q) l.push_back(X(p, q)); } else l = line(X, axis, i);
    long j = a(i); bool ok = j >= 0 && j < (long)l.size(); vf::check("in-range", ok); if (!ok) return;
    vf::out("i", double((int)j));
    for (auto& e : l) vf::check("extreme", mx ? vf::ge(l[j], e) : vf::le(l[j], e));
    for (long k = 0; k < j; ++k) vf::check("first-of-ties", vf::ne(l[k], l[j]));
  }
  vf::reach("end");
}
static void clipFmin(int r, int c) {
  vf::encodes("common::clip, common::fmin");
  Mat X = symMat("x", r, c); double lo = vf::real("lo", -4, 4), hi = vf::real("hi", -4, 4); vf::assume(vf::le(lo, hi));
  Mat C = common::clip<Mat>(X, hi, lo); Mat F = common::fmin<Mat>(X, hi);
  if (!shapeIs("shape", C, r, c) || !shapeIs("shape", F, r, c)) return;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { vf::check("clip", vf::eq(C(i, j), vmax(lo, vmin(hi, X(i, j))))); vf::check("fmin", vf::eq(F(i, j), vmin(X(i, j), hi))); }
  outMat("c", C); vf::reach("end");
}
static void where(int n) {
  vf::encodes("common::where");
  Vec x = symVec("x", n, 0, 2); double t = vf::real("t", 0, 2);
  Eigen::Matrix<bool, Eigen::Dynamic, 1> m = (x.array() > t).matrix();
  IdxVec w = common::where<Eigen::Matrix<bool, Eigen::Dynamic, 1>, IdxVec>(m);
  long p = 0;
  for (int i = 0; i < n; ++i) { bool in = p < w.size() && w(p) == i; vf::check("selects-exactly", in ? vf::gt(x(i), t) : vf::le(x(i), t)); if (in) ++p; }
  vf::check("nothing-else", p == w.size()); vf::reach("end");
}
static void bad() { Mat X = symMat("x", 2, 2);
  checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { common::argmax<Mat, Vec, IdxVec>(X, 2); });
  checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { common::argmin<Mat, Vec, IdxVec>(X, -2); }); vf::reach("end"); }
static void maxel(int n) {
  vf::encodes("common::max_element");
  std::map<int, double> m; for (int i = 0; i < n; ++i) m[i * 3] = vf::real("v" + std::to_string(i), -4, 4);
  auto p = common::max_element(m);
  vf::check("key-of-map", m.count(p.first) == 1); vf::check("value-of-key", vf::eq(m[p.first], p.second));
  for (auto& e : m) vf::check("extreme", vf::ge(p.second, e.second));
  vf::reach("end");
}
VFQ("max0", arg(true, 3, 3, 0), "argmax 3x3 axis 0") VFQ("max1", arg(true, 3, 3, 1), "argmax 3x3 axis 1") VFQ("maxall", arg(true, 2, 3, -1), "argmax 2x3 flattened")
VFQ("min0", arg(false, 3, 3, 0), "argmin 3x3 axis 0") VFQ("min1", arg(false, 3, 3, 1), "argmin 3x3 axis 1") VFQ("minall", arg(false, 2, 3, -1), "argmin 2x3 flattened")
VFQ("max0t", arg(true, 4, 2, 0), "argmax 4x2 axis 0") VFQ("min1t", arg(false, 2, 4, 1), "argmin 2x4 axis 1")
VFQ("max1c1", arg(true, 3, 1, 1), "argmax 3x1 axis 1") VFQ("min0r1", arg(false, 1, 3, 0), "argmin 1x3 axis 0")
VFQ("clip", clipFmin(2, 2), "clip and fmin of a 2x2 matrix, arbitrary limits lo<=hi") VFQ("where", where(5), "mask of 5") VFQ("bad", bad(), "invalid axes") VFQ("maxel", maxel(4), "map of 4 entries")
