#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
using namespace openml;
// rows (axis 1) or columns (axis 0) of the result are a rearrangement of those of the input
static void shuf(int r, int c, int axis, bool alias) {
  vf::encodes("random::shuffle_data"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = double(10 * i + j); Mat V = symMat("x", r, c), S; Mat tag = X;
  // symbolic payload: entry value = symbol; identity found by running with the first line concrete
  int n = axis == 0 ? c : r; Mat Y = V; for (int k = 0; k < n; ++k) (axis == 0 ? Y(0, k) : Y(k, 0)) = double(1000 + k);
  if (alias) { S = Y; random::shuffle_data<Mat>(S, S, axis); } else random::shuffle_data<Mat>(Y, S, axis);
  if (!shapeIs("shape", S, r, c)) return; std::set<int> seen;
  for (int k = 0; k < n; ++k) { double t = axis == 0 ? S(0, k) : S(k, 0); int id = -1; for (int q = 0; q < n; ++q) if (t == double(1000 + q)) id = q; vf::check("lines-are-permuted", id >= 0 && seen.insert(id).second); if (id < 0) return; for (int q = 0; q < (axis == 0 ? r : c); ++q) vf::check("lines-stay-intact", vf::eq(axis == 0 ? S(q, k) : S(k, q), axis == 0 ? Y(q, id) : Y(id, q))); }
  vf::reach("end");
}
static void shufxy(int n, int c, bool alias) {
  vf::encodes("random::shuffle_data"); Mat X = symMat("x", n, c), S; Vec y(n), t; for (int i = 0; i < n; ++i) y(i) = double(100 + i);
  if (alias) { S = X; t = y; random::shuffle_data<Mat, Vec>(S, t, S, t); } else random::shuffle_data<Mat, Vec>(X, y, S, t);
  if (!shapeIs("shape", S, n, c)) return; vf::check("shape", t.size() == n); if (t.size() != n) return; std::set<int> seen;
  for (int k = 0; k < n; ++k) { int id = -1; for (int q = 0; q < n; ++q) if (t(k) == double(100 + q)) id = q; vf::check("each-sample-once", id >= 0 && seen.insert(id).second); if (id < 0) return; for (int j = 0; j < c; ++j) vf::check("label-follows-features", vf::eq(S(k, j), X(id, j))); }
  vf::reach("end");
}
static void perm(int n) { vf::encodes("random::permutation"); IdxVec p = random::permutation<IdxVec>(n); vf::check("length", p.size() == n); std::set<long> s; for (int i = 0; i < p.size(); ++i) vf::check("bijection", p(i) >= 0 && p(i) < n && s.insert((long)p(i)).second); vf::reach("end"); }
static void uni(int r, int c) { vf::encodes("random::rand"); double lo = vf::real("lo", -8, 8), hi = vf::real("hi", -8, 8); vf::assume(vf::lt(lo, hi)); Mat m = random::rand<Mat>(r, c, lo, hi); if (!shapeIs("shape", m, r, c)) return; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { vf::check("within-low-high", vf::ge(m(i, j), lo) & vf::le(m(i, j), hi)); vf::out("r", m(i, j)); }
  Mat u = random::rand<Mat>(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) vf::check("default-range", vf::ge(u(i, j), double(0)) & vf::le(u(i, j), double(1))); vf::reach("end"); }
static void ints(int r, int c, int lo, int hi) { vf::encodes("random::randint"); auto m = random::randint<int>(r, c, lo, hi); vf::check("shape", m.rows() == r && m.cols() == c); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) { vf::check("within-low-high", m(i, j) >= lo && m(i, j) <= hi); if (m(i, j) == lo) vf::reach("low"); if (m(i, j) == hi) vf::reach("high"); } vf::reach("end"); }
static void nrm() { vf::encodes("random::randn"); Mat m = random::randn<Mat>(2, 3); shapeIs("shape", m, 2, 3); vf::reach("end"); }
VFQ("rows", shuf(3, 2, 1, false), "3x2 rows, every shuffle") VFQ("cols", shuf(2, 3, 0, false), "2x3 columns") VFQ("rows_alias", shuf(3, 2, 1, true), "in place") VFQ("cols_alias", shuf(2, 3, 0, true), "in place") VFQ("rect", shuf(4, 2, 1, false), "4x2 rows") VFQ("rectc", shuf(4, 2, 0, false), "4x2 columns") VFQ("xy", shufxy(3, 2, false), "3 samples") VFQ("xy_alias", shufxy(3, 2, true), "3 samples in place") VFQ("perm", perm(4), "permutation(4)") VFQ("uni", uni(2, 2), "any bounds") VFQ("ints", ints(2, 1, -1, 2), "integers -1..2") VFQ("nrm", nrm(), "shape")
VFT("perm6", perm(6), "permutation(6)") VFT("xy5", shufxy(5, 1, true), "5 samples in place")
