#include "env.hpp"
#include "begin.hpp"
#include "core/preprocessing/transaction_encoder.hpp"
#include "util.hpp"
using namespace openml;
static SB has(const SVec& v, const double& x) { SB r(false); for (auto& e : v) r = r | vf::eq(e, x); return r; }
static void run(const std::vector<int>& lens) {
  vf::encodes("preprocessing::TransactionEncoder::fit_transform"); SRows X; SVec all;
  for (size_t i = 0; i < lens.size(); ++i) { X.push_back(symSV("t" + std::to_string(i) + "_", lens[i])); for (auto& e : X.back()) all.push_back(e); }
  SRows copy = X; preprocessing::TransactionEncoder<double> e; auto S = e.fit_transform(X); int n = X.size(), c = S.cols();
  vf::check("one-row-per-transaction", S.rows() == n); if (S.rows() != n) return;
  double distinct(0); for (size_t i = 0; i < all.size(); ++i) { SB fresh(true); for (size_t j = 0; j < i; ++j) fresh = fresh & !vf::eq(all[i], all[j]); distinct += one(fresh); } vf::check("one-column-per-distinct-item", vf::eq(distinct, double(c)));
  // item of a column: every stored entry of it has that value
  std::vector<SVec> col(c), row(n); for (int i = 0; i < S.outerSize(); ++i) for (typename std::decay<decltype(S)>::type::InnerIterator it(S, i); it; ++it) { col[it.col()].push_back(it.value()); row[it.row()].push_back(it.value()); vf::out("v", it.value()); }
  for (int j = 0; j < c; ++j) { vf::check("column-has-an-item", !col[j].empty()); if (col[j].empty()) return; for (auto& v : col[j]) vf::check("column-holds-one-item", vf::eq(v, col[j][0])); if (j) vf::check("columns-ascend", vf::lt(col[j - 1][0], col[j][0])); }
  for (int i = 0; i < n; ++i) { for (auto& v : row[i]) vf::check("stored-item-is-in-the-transaction", has(X[i], v)); for (auto& x : X[i]) vf::check("item-stored-once", vf::eq(countEq(row[i], x), double(1))); }
  Mat D = S; for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) vf::check("dense-value-is-the-item", vf::eq(D(i, j), vf::ite(has(X[i], col[j][0]), col[j][0], double(0))));
  for (int i = 0; i < n; ++i) vf::check("input-unchanged", rowEq(X[i], copy[i])); vf::reach("end");
}
VFQ("r2", run({2, 2}), "two transactions of 2 arbitrary items (any reals, repeats allowed)") VFQ("r31", run({3, 1}), "3 and 1 items") VFQ("r111", run({1, 1, 1}), "single items") VFQ("r4", run({4}), "one transaction of 4") VFQ("e", run({0, 2, 0}), "empty transactions") VFQ("none", run({}), "no transactions") VFQ("r22", run({2, 2, 1}), "three transactions")
VFT("r32", run({3, 2}), "3 and 2 items") VFT("r33", run({3, 3}), "3 and 3 items") VFT("r2211", run({2, 2, 1, 1}), "four transactions")
