#include "env.hpp"
#include "begin.hpp"
#include "methods/rule_model/apriori.hpp"
#include "util.hpp"
using namespace openml;
using Db = SRows;
static Db db(const std::string& n, const std::vector<int>& lens, int lo, int hi) { Db t; for (size_t i = 0; i < lens.size(); ++i) { SVec v; for (int j = 0; j < lens[i]; ++j) v.push_back(vf::integer(n + std::to_string(i) + "_" + std::to_string(j), lo, hi)); t.push_back(v); } return t; }
static Db fixed(std::vector<std::vector<int>> x) { Db t; for (auto& r : x) { SVec v; for (int e : r) v.push_back(double(e)); t.push_back(v); } return t; }
static SB has(const SVec& v, const double& x) { SB r(false); for (auto& e : v) r = r | vf::eq(e, x); return r; }
static SVec sub(const SVec& u, int m) { SVec r; for (size_t i = 0; i < u.size(); ++i) if (m >> i & 1) r.push_back(u[i]); return r; }
static double support(const Db& x, const SVec& s) { double c(0); for (auto& t : x) { SB all(true); for (auto& e : s) all = all & has(t, e); c += one(all); } return c; }
static SB setEq(const SVec& v, const SVec& s) { if (v.size() != s.size()) return SB(false); SB r(true); for (auto& e : s) r = r & vf::eq(countEq(v, e), double(1)); return r; }
// x: transactions over the items lo..hi; ms/mc negative: arbitrary
static void run(const Db& x, int lo, int hi, decltype(0.0) ms_, decltype(0.0) mc_, const Db* before = nullptr) {
  vf::encodes("rule_model::Apriori::fit_transform, fit_data, transform_data; tree::HashTree; preprocessing::TransactionEncoder; common::combinations, difference, sortrows");
  double ms = ms_ < 0 ? vf::real("ms", 0, 1.25) : double(ms_), mc = mc_ < 0 ? vf::real("mc", 0, 1.25) : double(mc_);
  SVec u; for (int i = lo; i <= hi; ++i) u.push_back(double(i)); int n = x.size(), S = 1 << u.size(); std::vector<double> cnt; for (int m = 0; m < S; ++m) cnt.push_back(support(x, sub(u, m)));
  SB any(false); for (int m = 1; m < S; m += m) any = any | (vf::ge(cnt[m], double(1)) & vf::gt(cnt[m], double(n) * ms - double(1)));
  rule_model::Apriori<double> a(ms, mc);
  if (before) { try { a.fit_transform(*before); } catch (const std::runtime_error&) {} }
  bool thrown = false; try { a.fit_transform(x); } catch (const std::runtime_error&) { thrown = true; }
  vf::check("rejected-exactly-when-no-item-is-frequent", thrown ? !any : any); if (thrown) { vf::reach("end"); return; }
  auto rules = a.get_rules(); SB valid(true), complete(true); vf::out("rules", double((int)rules.size()));
  std::vector<std::pair<int, int>> cand; for (int A = 1; A < S; ++A) for (int B = 1; B < S; ++B) if (!(A & B)) cand.push_back({A, B});
  std::vector<double> found(cand.size(), double(0));
  for (auto& r : rules) { SB ok(false);
    for (size_t i = 0; i < cand.size(); ++i) { auto [A, B] = cand[i]; SB same = setEq(std::get<0>(r), sub(u, A)) & setEq(std::get<1>(r), sub(u, B)); found[i] += one(same); ok = ok | (same & vf::eq(std::get<2>(r) * cnt[A], cnt[A | B])); }
    valid = valid & ok; }
  vf::check("every-rule-has-its-confidence", valid);
  for (size_t i = 0; i < cand.size(); ++i) { auto [A, B] = cand[i]; const double& c = cnt[A | B]; SB want = vf::ge(c, double(1)) & vf::gt(c, double(n) * ms - double(1)) & vf::ge(c, mc * cnt[A]); complete = complete & vf::eq(found[i], one(want)); }
  vf::check("rules-are-exactly-the-frequent-confident-ones-once", complete);
  vf::reach("end");
}
static void twice() { Db b = db("b", {2, 1}, 0, 1); run(db("t", {2, 2}, 0, 1), 0, 1, 0.5, -1, &b); }
static void twice2() { Db b = fixed({{0, 1, 2}, {0, 1, 2}, {1, 2}}); run(db("t", {2, 3}, 0, 2), 0, 2, 0.5, 0.6, &b); }
VFQ("pairs", run(db("t", {2, 2, 1}, 0, 2), 0, 2, -1, 0.5), "transactions of 2, 2 and 1 arbitrary items of 3 (repeats allowed), any support")
VFQ("conf", run(db("t", {2, 2, 1}, 1, 2), 1, 2, 0.34, -1), "any confidence") VFQ("both", run(db("t", {2, 2}, 0, 2), 0, 2, -1, -1), "any support and confidence")
VFQ("triples", run(db("t", {3, 3}, 0, 2), 0, 2, 0.5, 0.7), "two transactions of 3 items") VFQ("one", run(db("t", {3, 1}, 0, 2), 0, 2, 1, -1), "support 1") VFQ("empty", run(db("t", {0, 2}, 0, 2), 0, 2, -1, 0.5), "an empty transaction") VFQ("none", run(Db(), 0, 1, -1, -1), "no transactions")
VFQ("set4", run(fixed({{3, 1, 0}, {0, 1, 2, 3}, {2, 3, 1}, {1, 0}}), 0, 3, -1, -1), "fixed transactions of 4 items, any support and confidence") VFQ("set4b", run(fixed({{3, 0}, {2, 0}, {1, 0}, {3, 2, 1}}), 0, 3, -1, -1), "fixed sparse transactions") VFQ("set5", run(fixed({{4, 1, 0, 2}, {0, 1, 2, 3, 4}, {2, 4, 3, 1, 0}}), 0, 4, -1, -1), "fixed transactions of 5 items")
VFQ("late", [] { Db x = fixed({{5, 2, 7}, {7, 5, 2}, {2, 7}}); SVec v; v.push_back(vf::integer("e", 2, 7)); v.push_back(double(5)); v.push_back(vf::integer("f", 2, 7)); x.push_back(v); run(x, 2, 7, 0.5, 0.75); }(), "fixed transactions and one with arbitrary items of 6")
VFQ("again", twice(), "second fit with arbitrary transactions before") VFQ("again2", twice2(), "second fit after longer itemsets")
VFT("pairs2", run(db("t", {2, 2, 2}, 0, 2), 0, 2, -1, 0.6), "three transactions of 2 items, any support") VFT("tri3", run(db("t", {3, 3, 1}, 0, 2), 0, 2, 0.67, 0.5), "transactions of 3, 3 and 1 items") VFT("four", run(db("t", {2, 2, 2, 1}, 0, 2), 0, 2, 0.5, -1), "4 transactions") VFT("quad", run(db("t", {4, 4}, 0, 3), 0, 3, 0.6, 0.5), "two transactions of 4 items of 4")
