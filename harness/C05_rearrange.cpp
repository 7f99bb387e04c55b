#include "env.hpp"
#include "begin.hpp"
#include "core/common.hpp"
#include "util.hpp"
using namespace openml;
static void stack() {
  vf::encodes("common::hstack, common::vstack");
  Mat A = symMat("a", 2, 3), B = symMat("b", 2, 2), C = symMat("c", 1, 3);
  Mat H = common::hstack<Mat>(A, B), V = common::vstack<Mat>(A, C);
  if (!shapeIs("hstack-shape", H, 2, 5) || !shapeIs("vstack-shape", V, 3, 3)) return;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 5; ++j) vf::check("hstack", vf::eq(H(i, j), j < 3 ? A(i, j) : B(i, j - 3)));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf::check("vstack", vf::eq(V(i, j), i < 2 ? A(i, j) : C(i - 2, j)));
  checkThrows<std::invalid_argument>("mismatch-rejected", [&] { common::hstack<Mat>(A, C); });
  checkThrows<std::invalid_argument>("mismatch-rejected", [&] { common::vstack<Mat>(A, B); });
  vf::reach("end");
}
static void flat() {
  vf::encodes("common::flatten, common::vec2mat");
  Mat A = symMat("a", 2, 3); Vec f = common::flatten<Mat, Vec>(A);
  vf::check("flatten-size", f.size() == 6); if (f.size() != 6) return;
  for (int i = 0; i < 6; ++i) vf::check("flatten-row-major", vf::eq(f(i), A(i / 3, i % 3)));
  SRows v = symRows("v", 3, 2); SVec g = common::flatten(v); vf::check("flatten-size", g.size() == 6); if (g.size() != 6) return;
  for (int i = 0; i < 6; ++i) vf::check("flatten-rows", vf::eq(g[i], v[i / 2][i % 2]));
  Mat M = common::vec2mat<Mat, double>(v); if (!shapeIs("vec2mat-shape", M, 3, 2)) return;
  for (int i = 0; i < 6; ++i) vf::check("vec2mat", vf::eq(M(i / 2, i % 2), v[i / 2][i % 2]));
  Vec w = common::vec2mat<Vec, double>(g); vf::check("vec2mat-shape", w.size() == 6); if (w.size() != 6) return;
  for (int i = 0; i < 6; ++i) vf::check("vec2mat", vf::eq(w(i), g[i]));
  v[2].push_back(double(1)); checkThrows<std::invalid_argument>("ragged-rejected", [&] { common::vec2mat<Mat, double>(v); });
  v[2].resize(1); checkThrows<std::invalid_argument>("ragged-rejected", [&] { common::vec2mat<Mat, double>(v); });
  vf::reach("end");
}
static void rep(int r, int c, int k, int axis) {
  vf::encodes("common::repeat");
  Mat A = symMat("a", r, c); Mat B = common::repeat<Mat>(A, k, axis);
  if (!shapeIs("repeat-shape", B, axis == 0 ? r * k : r, axis == 0 ? c : c * k)) return;
  for (int i = 0; i < B.rows(); ++i) for (int j = 0; j < B.cols(); ++j) vf::check("repeat-tiles", vf::eq(B(i, j), A(i % r, j % c)));
  vf::reach("end");
}
// slice of a 2d vector: inclusive ranges, every range inside the array accepted, every other one rejected
static void slice2(int r, int c) {
  vf::encodes("common::slice(2d)");
  SRows v = symRows("v", r, c);
  int a = vf::choose("r0", r + 1), b = vf::choose("r1", r + 1), d = vf::choose("c0", c + 1), e = vf::choose("c1", c + 1);
  bool valid = a <= b && b < r && d <= e && e < c, thrown = false; SRows s;
  try { s = common::slice<double>(v, a, b, d, e); } catch (const std::invalid_argument&) { thrown = true; }
  vf::check("rejects-exactly-invalid", thrown == !valid);
  if (valid && !thrown) {
    vf::check("slice-shape", (int)s.size() == b - a + 1); if ((int)s.size() != b - a + 1) return;
    for (int i = 0; i < (int)s.size(); ++i) { vf::check("slice-shape", (int)s[i].size() == e - d + 1); if ((int)s[i].size() != e - d + 1) return; for (int j = 0; j < (int)s[i].size(); ++j) vf::check("slice", vf::eq(s[i][j], v[a + i][d + j])); }
  }
  vf::reach("end");
}
static void slice1(int n) {
  vf::encodes("common::slice(1d)");
  SVec v = symSV("v", n); int a = vf::choose("a", n + 1), b = vf::choose("b", n + 1); bool valid = a <= b && b < n, thrown = false; SVec s;
  try { s = common::slice<double>(v, a, b); } catch (const std::invalid_argument&) { thrown = true; }
  vf::check("rejects-exactly-invalid", thrown == !valid);
  if (valid && !thrown) { vf::check("slice-shape", (int)s.size() == b - a + 1); if ((int)s.size() != b - a + 1) return; for (int i = 0; i < (int)s.size(); ++i) vf::check("slice", vf::eq(s[i], v[a + i])); }
  vf::reach("end");
}
static void merge(int n, int m) {
  vf::encodes("common::merge");
  SVec a = symSV("a", n), b = symSV("b", m); SVec r = common::merge<double>(a, b);
  vf::check("merge-size", (int)r.size() == n + m); if ((int)r.size() != n + m) return;
  int i = 0, j = 0, k = 0; while (i < n && j < m) { vf::check("merge-alternates", vf::eq(r[k++], a[i++])); vf::check("merge-alternates", vf::eq(r[k++], b[j++])); }
  while (i < n) vf::check("merge-rest", vf::eq(r[k++], a[i++])); while (j < m) vf::check("merge-rest", vf::eq(r[k++], b[j++]));
  vf::reach("end");
}
VFQ("stack", stack(), "2x3 with 2x2 and 1x3") VFQ("flat", flat(), "2x3 matrix, 3x2 vector of vectors, ragged inputs")
VFQ("rep0", rep(2, 3, 3, 0), "2x3 repeated 3 times, axis 0") VFQ("rep1", rep(2, 3, 2, 1), "2x3 repeated 2 times, axis 1") VFQ("rep_row", rep(1, 3, 4, 0), "1x3 repeated 4 times") VFQ("rep_col", rep(3, 1, 4, 1), "3x1 repeated 4 times")
VFQ("slice23", slice2(2, 3), "2x3, every start/end in range and one past it") VFQ("slice32", slice2(3, 2), "3x2, every start/end") VFQ("slice1", slice1(4), "vector of 4, every start/end")
VFQ("merge23", merge(2, 3), "sizes 2 and 3") VFQ("merge31", merge(3, 1), "sizes 3 and 1") VFQ("merge22", merge(2, 2), "sizes 2 and 2") VFQ("merge02", merge(0, 2), "sizes 0 and 2")
