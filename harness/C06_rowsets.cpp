#include "env.hpp"
#include "begin.hpp"
#include "core/common.hpp"
#include "util.hpp"
using namespace openml;
static SB inV(const SVec& v, const double& x) { SB r(false); for (auto& e : v) r = r | vf::eq(e, x); return r; }
static SB inR(const SRows& v, const SVec& x) { SB r(false); for (auto& e : v) r = r | rowEq(e, x); return r; }
static void uniq(int n) {
  vf::encodes("common::unique");
  Vec x = symVec("x", n, 0, 4); auto t = common::unique<Vec>(x); Vec v = std::get<0>(t), ix = std::get<1>(t);
  vf::check("one-index-per-value", v.size() == ix.size()); if (v.size() != ix.size()) return;
  SVec vs; for (int i = 0; i < v.size(); ++i) { vs.push_back(v(i)); if (i) vf::check("values-distinct-ascending", vf::lt(v(i - 1), v(i))); }
  SVec xs; for (int i = 0; i < n; ++i) { xs.push_back(x(i)); vf::check("every-element-present", inV(vs, x(i))); }
  for (int i = 0; i < v.size(); ++i) { int j = (int)ix(i); bool ok = j >= 0 && j < n; vf::check("index-in-range", ok); if (!ok) return; vf::check("index-gives-value", vf::eq(x(j), v(i))); vf::out("v", v(i)); }
  vf::reach("end");
}
static void dedup(int r, int c) {
  vf::encodes("common::remove_duplicate_rows");
  SRows X = symRows("x", r, c, 0, 3); SRows U = common::remove_duplicate_rows<double>(X);
  for (size_t i = 0; i < U.size(); ++i) { vf::check("row-of-input", inR(X, U[i])); for (size_t j = 0; j < i; ++j) vf::check("rows-distinct", !rowEq(U[i], U[j])); }
  for (auto& q : X) vf::check("every-row-present", inR(U, q));
  // first occurrences in input order
  size_t k = 0; for (int i = 0; i < r; ++i) { SB first(true); for (int j = 0; j < i; ++j) first = first & !rowEq(X[i], X[j]); if (vf::holds(first)) { if (k < U.size()) vf::check("first-occurrence-order", rowEq(U[k], X[i])); ++k; } }
  vf::check("number-of-rows", k == U.size());
  vf::reach("end");
}
static void diff(int n, int m, bool doSort) {
  vf::encodes("common::difference");
  SVec a = symSV("a", n, 0, 4), b = symSV("b", m, 0, 4);
  if (!doSort) { for (int i = 1; i < n; ++i) vf::assume(vf::le(a[i - 1], a[i])); for (int i = 1; i < m; ++i) vf::assume(vf::le(b[i - 1], b[i])); }
  SVec d = common::difference<double>(a, b, doSort);
  for (size_t i = 0; i < d.size(); ++i) { vf::check("in-first", inV(a, d[i])); vf::check("not-in-second", !inV(b, d[i])); if (i) vf::check("ascending-distinct", vf::lt(d[i - 1], d[i])); }
  for (auto& e : a) vf::check("nothing-missing", inV(b, e) | inV(d, e));
  vf::reach("end");
}
static void sub(int n, int m) {
  vf::encodes("common::contains, common::is_equal");
  SVec a = symSV("a", n, 0, 3), b = symSV("b", m, 0, 3);
  bool c = common::contains<double>(a, b); SB all(true); for (auto& e : a) all = all & inV(b, e); vf::check("contains-iff-subset", vf::iff(SB(c), all));
  bool q = common::is_equal<double>(a, b); vf::check("equal-iff-same", vf::iff(SB(q), rowEq(a, b)));
  SVec a2 = a; vf::check("equal-reflexive", common::is_equal<double>(a, a2));
  vf::reach("end");
}
static void comb(int n, int k) {
  vf::encodes("common::combinations");
  SVec x = symSV("x", n); SRows c = common::combinations<double>(x, k); SRows want;
  for (int m = 0; m < (1 << n); ++m) if (__builtin_popcount(m) == k) { SVec v; for (int i = 0; i < n; ++i) if (m >> i & 1) v.push_back(x[i]); want.push_back(v); }
  vf::check("count", c.size() == want.size()); if (c.size() != want.size()) return;
  for (auto& q : c) { vf::check("length", (int)q.size() == k); if ((int)q.size() != k) return; }
  for (auto& w : want) vf::check("each-combination-once", vf::eq(countRow(c, w), countRow(want, w)));
  vf::reach("end");
}
static void empt() {
  SRows e; checkThrows<std::invalid_argument>("empty-rejected", [&] { common::remove_duplicate_rows<double>(e); });
  vf::reach("end");
}
VFQ("uniq3", uniq(3), "3 entries in [0,4]") VFQ("uniq4", uniq(4), "4 entries in [0,4]") VFQ("dedup31", dedup(3, 1), "3x1") VFQ("dedup32", dedup(3, 2), "3x2 entries in [0,3]") VFQ("dedup41", dedup(4, 1), "4x1") VFQ("dedup1", dedup(1, 2), "1x2") VFQ("dedup2", dedup(2, 2), "2x2")
VFQ("diff_s", diff(3, 2, true), "3 and 2 entries, sorted by the function") VFQ("diff_u", diff(3, 3, false), "3 and 3 entries, sorted inputs") VFQ("diff_e", diff(2, 0, true), "2 and 0 entries") VFQ("sub32", sub(3, 2), "3 and 2 entries") VFQ("sub23", sub(2, 3), "2 and 3 entries") VFQ("sub33", sub(3, 3), "3 and 3") VFQ("sub03", sub(0, 3), "0 and 3")
VFQ("comb53", comb(5, 3), "5 choose 3") VFQ("comb52", comb(5, 2), "5 choose 2") VFQ("comb44", comb(4, 4), "4 choose 4") VFQ("comb41", comb(4, 1), "4 choose 1") VFQ("comb25", comb(2, 5), "k greater than n") VFQ("comb64", comb(6, 4), "6 choose 4") VFQ("comb40", comb(4, 0), "4 choose 0") VFQ("empty", empt(), "no rows")
VFT("dedup42", dedup(4, 2), "4x2") VFT("uniq5", uniq(5), "5 entries") VFT("diff43", diff(4, 3, true), "4 and 3")
