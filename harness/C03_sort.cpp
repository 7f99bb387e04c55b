#include "env.hpp"
#include "begin.hpp"
#include "core/common.hpp"
#include "util.hpp"
using namespace openml;

static void sorted(const SVec& s, bool rev) { for (size_t i = 1; i < s.size(); ++i) vf::check("ordered", rev ? vf::ge(s[i - 1], s[i]) : vf::le(s[i - 1], s[i])); }
static void sortMat(int r, int c, int axis, bool rev) {
  vf::encodes("common::sort(matrix)");
  Mat X = symMat("x", r, c);
  Mat S = common::sort<Mat>(X, axis, rev);
  if (!shapeIs("shape", S, r, c)) return;
  for (int i = 0; i < (axis ? r : c); ++i) { SVec s = line(S, axis, i), x = line(X, axis, i); sorted(s, rev); checkSameBag("same-multiset", s, x); }
  outMat("s", S); vf::reach("end");
}
static void argsortMat(int r, int c, int axis, bool rev) {
  vf::encodes("common::argsort(matrix)");
  Mat X = symMat("x", r, c);
  IdxMat A = common::argsort<Mat, IdxMat, IdxVec>(X, axis, rev);
  vf::check("shape", A.rows() == r && A.cols() == c);
  if (A.rows() != r || A.cols() != c) return;
  int n = axis ? c : r;
  for (int i = 0; i < (axis ? r : c); ++i) {
    std::vector<bool> used(n, false); SVec s; std::vector<long> ix;
    for (int k = 0; k < n; ++k) { long j = axis ? A(i, k) : A(k, i); bool ok = j >= 0 && j < n && !used[j]; vf::check("bijection", ok); if (!ok) return; used[j] = true; ix.push_back(j); s.push_back(axis ? X(i, j) : X(j, i)); vf::out("i", double((int)j)); }
    sorted(s, rev);
    if ((axis ? r : c) == 1) for (int k = 1; k < n; ++k) if (ix[k - 1] > ix[k]) vf::check("ties-keep-order", vf::ne(s[k - 1], s[k]));
  }
  vf::reach("end");
}
static void argsortVec(int n, bool rev) {
  vf::encodes("common::argsort(std::vector)");
  SVec x = symSV("x", n);
  auto ix = common::argsort<double>(x, rev);
  vf::check("size", ix.size() == (size_t)n); if (ix.size() != (size_t)n) return;
  std::vector<bool> used(n, false); SVec s;
  for (auto j : ix) { bool ok = j < (size_t)n && !used[j]; vf::check("bijection", ok); if (!ok) return; used[j] = true; s.push_back(x[j]); }
  sorted(s, rev);
  for (int k = 1; k < n; ++k) if (ix[k - 1] > ix[k]) vf::check("ties-keep-order", vf::ne(s[k - 1], s[k]));
  vf::reach("end");
}
static void sortRows2(int r, int c, int axis, bool rev) {      // vector-of-vector sort: every column (row) sorted on its own
  vf::encodes("common::sort(vector<vector>)");
  SRows X = symRows("x", r, c); SRows S = common::sort<double>(X, axis, rev);
  vf::check("shape", S.size() == (size_t)r); if (S.size() != (size_t)r) return;
  for (auto& q : S) { vf::check("shape", q.size() == (size_t)c); if (q.size() != (size_t)c) return; }
  for (int i = 0; i < (axis ? r : c); ++i) { SVec s, x; for (int k = 0; k < (axis ? c : r); ++k) { s.push_back(axis ? S[i][k] : S[k][i]); x.push_back(axis ? X[i][k] : X[k][i]); } sorted(s, rev); checkSameBag("same-multiset", s, x); }
  vf::reach("end");
}
static void sortrows(int r, int c, bool rev) {
  vf::encodes("common::sortrows");
  SRows X = symRows("x", r, c, 0, 3); SRows S = common::sortrows<double>(X, rev);
  vf::check("shape", S.size() == (size_t)r); if (S.size() != (size_t)r) return;
  for (int i = 1; i < r; ++i) { SB lex(false), pre(true); for (int k = 0; k < c; ++k) { lex = lex | (pre & (rev ? vf::gt(S[i - 1][k], S[i][k]) : vf::lt(S[i - 1][k], S[i][k]))); pre = pre & vf::eq(S[i - 1][k], S[i][k]); } vf::check("lexicographic", lex | pre); }
  for (auto& q : X) vf::check("same-rows", vf::eq(countRow(S, q), countRow(X, q)));
  vf::reach("end");
}
static void badAxis() {
  Mat X = symMat("x", 2, 2);
  checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { common::sort<Mat>(X, 2); });
  checkThrows<std::invalid_argument>("bad-axis-rejected", [&] { common::argsort<Mat, IdxMat, IdxVec>(X, 2); });
  vf::reach("end");
}
// a long line forces introsort's partitioning: all but two entries concrete
static void longSort(int n, bool rev) {
  vf::encodes("common::sort(matrix), common::argsort(matrix)");
  Mat X(n, 1); for (int i = 0; i < n; ++i) X(i, 0) = double((i * 7) % n);
  X(1, 0) = vf::real("a", -1, n); X(n / 2, 0) = vf::real("b", -1, n);
  Mat S = common::sort<Mat>(X, 0, rev); if (!shapeIs("shape", S, n, 1)) return;
  SVec s = line(S, 0, 0); sorted(s, rev); SVec x = line(X, 0, 0); vf::check("same-multiset", vf::eq(countEq(s, x[1]), countEq(x, x[1])) & vf::eq(countEq(s, x[n / 2]), countEq(x, x[n / 2])) & vf::eq(countEq(s, x[0]), countEq(x, x[0])));
  IdxMat A = common::argsort<Mat, IdxMat, IdxVec>(X, 0, rev); std::vector<bool> used(n, false); SVec t;
  for (int k = 0; k < n; ++k) { long j = A(k, 0); bool ok = j >= 0 && j < n && !used[j]; vf::check("bijection", ok); if (!ok) return; used[j] = true; t.push_back(X(j, 0)); } sorted(t, rev);
  vf::reach("end");
}
VFQ("sort_c_asc", sortMat(4, 1, 0, false), "4x1, axis 0, entries any real in [-8,8]")
VFQ("sort_c_desc", sortMat(4, 1, 0, true), "4x1, axis 0, descending")
VFQ("sort_r_asc", sortMat(1, 4, 1, false), "1x4, axis 1")
VFQ("sort_r_desc", sortMat(1, 4, 1, true), "1x4, axis 1, descending")
VFQ("sort_m_asc", sortMat(2, 3, 1, false), "2x3, axis 1")
VFQ("sort_m0_desc", sortMat(3, 2, 0, true), "3x2, axis 0, descending")
VFQ("asort_c_asc", argsortMat(4, 1, 0, false), "4x1, axis 0")
VFQ("asort_c_desc", argsortMat(4, 1, 0, true), "4x1, axis 0, descending")
VFQ("asort_r_asc", argsortMat(1, 4, 1, false), "1x4, axis 1")
VFQ("asort_r_desc", argsortMat(1, 4, 1, true), "1x4, axis 1, descending")
VFQ("asort_m_asc", argsortMat(2, 3, 1, false), "2x3, axis 1")
VFQ("asort_m0_desc", argsortMat(3, 2, 0, true), "3x2, axis 0, descending")
VFQ("asort_m0_asc", argsortMat(3, 2, 0, false), "3x2, axis 0")
VFQ("asort_m1_desc", argsortMat(2, 3, 1, true), "2x3, axis 1, descending")
VFQ("asort_1", argsortMat(1, 1, 0, false), "1x1")
VFQ("asort_2", argsortMat(2, 1, 0, false), "2x1")
VFQ("asortv_asc", argsortVec(4, false), "vector of 4")
VFQ("asortv_desc", argsortVec(4, true), "vector of 4, descending")
VFQ("vv0_asc", sortRows2(3, 2, 0, false), "vector<vector> 3x2, axis 0")
VFQ("vv0_desc", sortRows2(3, 2, 0, true), "vector<vector> 3x2, axis 0, descending")
VFQ("vv1_asc", sortRows2(2, 3, 1, false), "vector<vector> 2x3, axis 1")
VFQ("vv1_desc", sortRows2(2, 3, 1, true), "vector<vector> 2x3, axis 1, descending")
VFQ("rows_asc", sortrows(3, 2, false), "3 rows of 2, entries in [0,3]")
VFQ("rows_desc", sortrows(3, 2, true), "3 rows of 2, entries in [0,3], descending")
VFQ("badaxis", badAxis(), "axis 2")
VFQ("long_asc", longSort(20, false), "20 entries, 18 concrete and 2 arbitrary in [-1,20]")
VFQ("long_desc", longSort(20, true), "20 entries, 18 concrete and 2 arbitrary, descending")
VFT("sort5", sortMat(5, 1, 0, false), "5x1, axis 0")
VFT("asort5", argsortMat(5, 1, 0, false), "5x1, axis 0")
VFT("rows43", sortrows(4, 2, false), "4 rows of 2")
VFT("vv43", sortRows2(3, 3, 0, false), "3x3")
