#include "env.hpp"
#include "begin.hpp"
#include "core/tree/kd_tree.hpp"
#include "util.hpp"
#include "points.hpp"
using namespace openml;
static void radius(const Mat& X, const Mat& Q, int leaf, int ord, const double& r0) {
  vf::encodes("tree::KDTree::KDTree, build_tree, find_partition_axis, query_radius, query_radius_single_data, check_intersection; common::argsort; common::norm; metric::minkowski_distance");
  int n = X.rows(), nq = Q.rows(); double rad = r0; tree::KDTree<double> t(X, leaf, mname(ord)); auto res = t.query_radius(Q, rad);
  vf::check("one-answer-per-query", (int)res.size() == nq); if ((int)res.size() != nq) return;
  for (int q = 0; q < nq; ++q) {
    std::vector<bool> used(n, false);
    for (auto& p : res[q]) { long idx = (long)p.second; vf::check("index-valid-distinct", idx >= 0 && idx < n && !used[idx]); if (idx < 0 || idx >= n) return; used[idx] = true; vf::out("dist", p.first); vf::check("distance-exact", vf::eq(p.first, dist(X, idx, Q, q, ord))); vf::check("within-radius", vf::le(p.first, rad)); }
    for (int i = 0; i < n; ++i) if (!used[i]) vf::check("nothing-missing", vf::gt(dist(X, i, Q, q, ord), rad));
  }
  vf::reach("end");
}
static double anyR() { return vf::real("radius", 0, 8); }
VFQ("e1", radius(symMat("x", 3, 1), symMat("q", 1, 1), 1, 2, anyR()), "3 arbitrary points on a line, any radius, leaf 1") VFQ("m1", radius(symMat("x", 4, 1), symMat("q", 1, 1), 1, 1, anyR()), "4 arbitrary points on a line") VFQ("q2m", radius(grid(5), symMat("q", 1, 2), 1, 1, anyR()), "5 fixed point sets in the plane, any query and radius, Manhattan") VFQ("q2c", radius(grid(5), symMat("q", 1, 2), 1, Eigen::Infinity, anyR()), "the same, Chebyshev")
VFQ("q2e", radius(grid(5), symMat("q", 1, 2), 1, 2, double(5)), "the same, Euclidean, radius 5") VFQ("s2m", radius(stripe(3), symMat("q", 1, 2), 1, 1, anyR()), "3 points, second coordinate arbitrary") VFQ("nq", radius(symMat("x", 2, 1), symMat("q", 2, 1), 1, 1, anyR()), "2 queries") VFQ("one", radius(symMat("x", 1, 2), symMat("q", 1, 2), 3, 1, anyR()), "a single point")
VFT("m1l", radius(symMat("x", 5, 1), symMat("q", 1, 1), 2, 1, anyR()), "5 arbitrary points on a line, leaf 2") VFT("s2m4", radius(stripe(4), symMat("q", 1, 2), 1, 1, anyR()), "4 points, second coordinate arbitrary") VFT("x2m", radius(symMat("x", 3, 2), symMat("q", 1, 2), 1, 1, anyR()), "3 arbitrary points in the plane") VFT("q2ea", radius(grid(5), symMat("q", 1, 2), 1, 2, anyR()), "fixed point sets, Euclidean, any radius")
