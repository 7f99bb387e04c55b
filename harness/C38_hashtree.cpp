#include "env.hpp"
#include "begin.hpp"
#include "core/tree/hash_tree.hpp"
#include "util.hpp"
using namespace openml;
// the node type the Apriori miner uses
struct Node { bool is_leaf = true; std::size_t index = 0; std::map<std::vector<double>, std::size_t> bucket; std::map<std::size_t, std::shared_ptr<Node>> children; };
static SVec items(const std::string& n, int len, int hi) { SVec v; for (int i = 0; i < len; ++i) v.push_back(vf::integer(n + std::to_string(i), 0, hi)); return v; }
// a history of operations: 'b' builds a new arbitrary itemset in, 'a' counts an arbitrary one, 'q' queries with an arbitrary support
static void run(const std::string& ops, int len, int leaf, int child, int hi, int sup) {
  vf::encodes("tree::HashTree::build_tree, insert, add_support, compute_frequency_itemsets, dfs");
  tree::HashTree<Node, double> t(leaf, child); SRows in; std::vector<double> cnt; int k = 0;
  for (char o : ops) {
    std::string id = std::to_string(k++);
    if (o == 'b') { SVec s = items("b" + id + "_", len, hi); double old(0); for (size_t i = 0; i < in.size(); ++i) old = vf::ite(rowEq(in[i], s), cnt[i], old); in.push_back(s); cnt.push_back(old); t.build_tree(s); }
    if (o == 'a') { SVec s = items("a" + id + "_", len, hi); for (size_t i = 0; i < in.size(); ++i) cnt[i] += one(rowEq(in[i], s)); t.add_support(s); }
    if (o == 'q') {
      int m = vf::choose("s" + id, sup + 1); std::vector<std::size_t> c; SRows r; t.compute_frequency_itemsets(m, c, r);
      vf::check("one-count-per-itemset", c.size() == r.size()); if (c.size() != r.size()) return; vf::out("found", double((int)r.size()));
      for (size_t i = 0; i < in.size(); ++i) vf::check("listed-once-exactly-when-frequent", vf::eq(countRow(r, in[i]), one(vf::ge(cnt[i], double(m)))));
      for (size_t j = 0; j < r.size(); ++j) { SB ok(false); for (size_t i = 0; i < in.size(); ++i) ok = ok | (rowEq(r[j], in[i]) & vf::eq(double((int)c[j]), cnt[i])); vf::check("count-is-number-of-additions", ok); }
    }
  }
  vf::reach("end");
}
VFQ("p12", run("bbaaq", 2, 2, 2, 2, 2), "2 pairs, 2 additions, leaf 2, fan-out 2") VFQ("p11", run("bbaq", 2, 1, 1, 3, 1), "leaf 1, fan-out 1") VFQ("p3", run("bbbaq", 2, 3, 3, 2, 1), "3 pairs, leaf 3") VFQ("mix", run("babaqbq", 1, 2, 2, 3, 2), "builds between additions and repeated queries, single items")
VFQ("mix2", run("babaq", 2, 2, 2, 1, 2), "builds between additions, pairs") VFQ("deep", run("bbaq", 3, 2, 2, 1, 1), "triples, leaf 2") VFQ("deep3", run("bbbaq", 3, 2, 2, 1, 1), "3 triples") VFQ("leaf4", run("bbbaaq", 1, 4, 2, 3, 2), "tree that never splits") VFQ("empty", run("aq", 2, 3, 3, 2, 1), "nothing inserted") VFQ("def", run("bbbaq", 1, 3, 3, 5, 1), "3 items of 6, leaf 3, fan-out 3")
VFT("p3l2", run("bbbaq", 2, 2, 2, 2, 1), "3 pairs of 3 items, leaf 2") VFT("p22", run("bbbaaq", 2, 2, 3, 1, 2), "3 pairs, 2 additions") VFT("four", run("bbbbaq", 2, 3, 2, 1, 1), "4 pairs of 2 items, leaf 3")
