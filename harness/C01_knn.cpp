#include "env.hpp"
#include "begin.hpp"
#include "core/tree/kd_tree.hpp"
#include "util.hpp"
#include "points.hpp"
using namespace openml;
static void knn(const Mat& X, const Mat& Q, int k, int leaf, int ord) {
  vf::encodes("tree::KDTree::KDTree, build_tree, find_partition_axis, query, query_single_data, compute_distance, check_intersection; common::argsort; common::norm; metric::minkowski_distance");
  int n = X.rows(), nq = Q.rows(); tree::KDTree<double> t(X, leaf, mname(ord)); auto res = t.query(Q, k);
  vf::check("shape", res.first.rows() == nq && res.first.cols() == k && res.second.rows() == nq && res.second.cols() == k); if (res.first.rows() != nq || res.first.cols() != k) return;
  for (int r = 0; r < nq; ++r) {
    std::vector<bool> used(n, false);
    for (int j = 0; j < k; ++j) {
      long idx = res.second(r, j); vf::check("index-valid-distinct", idx >= 0 && idx < n && !used[idx]); if (idx < 0 || idx >= n) return;
      used[idx] = true; vf::out("dist", res.first(r, j));
      vf::check("distance-exact", vf::eq(res.first(r, j), dist(X, idx, Q, r, ord)));
      if (j) vf::check("sorted", vf::le(res.first(r, j - 1), res.first(r, j)));
    }
    for (int i = 0; i < n; ++i) if (!used[i]) vf::check("nearest", vf::le(res.first(r, k - 1), dist(X, i, Q, r, ord)));
  }
  vf::reach("end");
}
static void bad(int n, int leaf) {
  vf::encodes("tree::KDTree::KDTree, query"); Mat X = symMat("x", n, 1), Q = symMat("q", 1, 1);
  for (auto m : {"cosine", "", "minkowski"}) checkThrows<std::invalid_argument>("unknown-metric-rejected", [&] { tree::KDTree<double> t(X, leaf, m); });
  tree::KDTree<double> t(X, leaf, "manhattan"), d(X); checkThrows<std::exception>("more-neighbours-than-points-rejected", [&] { t.query(Q, n + 1); }); checkThrows<std::exception>("more-neighbours-than-points-rejected", [&] { d.query(Q, n + 3); }); vf::reach("end"); }
VFQ("bad", bad(3, 1), "unknown metric, more neighbours than points") VFQ("e1", knn(symMat("x", 3, 1), symMat("q", 1, 1), 1, 1, 2), "3 arbitrary points on a line, Euclidean, 1 neighbour, leaf 1") VFQ("m1", knn(symMat("x", 4, 1), symMat("q", 1, 1), 2, 1, 1), "4 arbitrary points on a line, 2 neighbours") 
VFQ("q2m", knn(grid(5), symMat("q", 1, 2), 1, 1, 1), "5 fixed point sets in the plane, any query, Manhattan, leaf 1") VFQ("q2c", knn(grid(5), symMat("q", 1, 2), 2, 1, Eigen::Infinity), "the same, Chebyshev, 2 neighbours") VFQ("q2e", knn(grid(5), symMat("q", 1, 2), 1, 2, 2), "the same, Euclidean, leaf 2")
VFQ("s2m", knn(stripe(3), symMat("q", 1, 2), 1, 1, 1), "3 points, second coordinate arbitrary, Manhattan")
VFQ("all2", knn(grid(5), symMat("q", 1, 2), 4, 1, 1), "the fixed sets, 4 neighbours") VFQ("one", knn(symMat("x", 1, 2), symMat("q", 1, 2), 1, 1, 1), "a single point") VFQ("two", knn(symMat("x", 2, 1), symMat("q", 2, 1), 2, 10, 2), "2 points in one leaf, 2 queries") VFQ("dfl", knn(grid(3, 5), symMat("q", 1, 2), 3, 2, 1), "7 fixed points, 3 neighbours, leaf 2")
VFT("m1l", knn(symMat("x", 5, 1), symMat("q", 1, 1), 2, 2, 1), "5 arbitrary points on a line, leaf 2") VFT("s2m4", knn(stripe(4), symMat("q", 1, 2), 2, 1, 1), "4 points, second coordinate arbitrary, 2 neighbours") VFT("s2e", knn(stripe(3), symMat("q", 1, 2), 1, 1, 2), "3 points, second coordinate arbitrary, Euclidean") VFT("x2m", knn(symMat("x", 3, 2), symMat("q", 1, 2), 1, 1, 1), "3 arbitrary points in the plane, Manhattan") VFT("x2c", knn(symMat("x", 3, 2), symMat("q", 1, 2), 1, 1, Eigen::Infinity), "3 arbitrary points in the plane, Chebyshev")
VFT("q2e7", knn(grid(0, 5), symMat("q", 1, 2), 2, 1, 2), "7 fixed points, Euclidean, 2 neighbours") VFT("q2m7", knn(grid(0, 5), symMat("q", 1, 2), 3, 1, 1), "7 fixed points, Manhattan, 3 neighbours")
