#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "core/tree/kd_tree.hpp"
#include "methods/cluster/kmeans.hpp"
#include "methods/decomposition/pca.hpp"
#include "methods/decomposition/truncated_svd.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
#include "util.hpp"
#include "probe.hpp"
#include "refuse.hpp"
using namespace openml;
// options given by name
static void kd() { vf::encodes("tree::KDTree::query"); vf::Str m = unlisted("metric", {"manhattan", "euclidean", "chebyshev"}); refused([&] { tree::KDTree<double> t(two(), 2, m); t.query(two(), 1); }); }
static void knnm(const char* solver) { vf::encodes("neighbors::KNearestNeighbors::fit, predict"); bool kdt = std::string(solver) == "kdtree"; vf::Str m = kdt ? unlisted("metric", {"manhattan", "euclidean", "chebyshev"}) : unlisted("metric", {"manhattan", "euclidean"}); refused([&] { neighbors::KNearestNeighbors<double> c(2, 1, solver, m); c.fit(two(), lab()); c.predict(two()); }); }
static void knns() { vf::encodes("neighbors::KNearestNeighbors::fit, predict"); vf::Str s = unlisted("solver", {"kdtree", "brute"}); refused([&] { neighbors::KNearestNeighbors<double> c(2, 1, s, "euclidean"); c.fit(two(), lab()); c.predict(two()); }); }
static void tclf() { vf::encodes("decision_tree::DecisionTreeClassifier::fit"); vf::Str s = unlisted("criterion", {"gini", "entropy"}); refused([&] { decision_tree::DecisionTreeClassifier<double> t(s, 2, 0, 4, 0.0); t.fit(two(), lab()); }); }
static void treg() { vf::encodes("decision_tree::DecisionTreeRegressor::fit"); vf::Str s = unlisted("criterion", {"squared_error", "absolute_error"}); refused([&] { decision_tree::DecisionTreeRegressor<double> t(s, 2, 0, 4, 0.0, 0.0); t.fit(two(), lab(false)); }); }
static void kminit() { vf::encodes("cluster::KMeans::fit, init_centroid"); vf::Str s = unlisted("init", {"random", "kmeans++"}); refused([&] { cluster::KMeans<double> k(s, 1, 2, 2, 0.1); k.fit(two()); }); }
static void gmmcov() { vf::encodes("mixture_model::GaussianMixture::fit"); vf::Str s = unlisted("covariance_type", {"full", "tied"}); refused([&] { mixture_model::GaussianMixture<double> g(2, 1, 2, "random", s, 1.0, 1.0); g.fit(two()); }); }
static void gmminit() { vf::encodes("mixture_model::GaussianMixture::fit"); vf::Str s = unlisted("init_params", {"random"}); refused([&] { mixture_model::GaussianMixture<double> g(2, 1, 2, s, "full", 1.0, 1.0); g.fit(two()); }); }
static void pcas() { vf::encodes("decomposition::PCA::fit"); vf::Str s = unlisted("solver", {"svd"}); refused([&] { decomposition::PCA<double> p(s, 1); p.fit(two()); }); }
static void tsvds() { vf::encodes("decomposition::TruncatedSVD::fit"); vf::Str s = unlisted("solver", {"randomized"}); refused([&] { decomposition::TruncatedSVD<double> t(1, 1, 1, s, "LU"); t.fit(two()); }); }
static void tsvdn() { vf::encodes("math::randomized_svd"); vf::Str s = unlisted("normalizer", {"LU", "QR", "None"}); refused([&] { decomposition::TruncatedSVD<double> t(1, 1, 1, "randomized", s); t.fit(two()); }); }
static void lbfgs() { vf::encodes("optimizer::LBFGS::optimize"); plog.clear(); pdim = 1; vf::Str s = unlisted("policy", {"backtracking", "bracketing"}); Vec w(1); w(0) = double(1);
  refused([&] { optimizer::LBFGS<double, Probe, optimizer::LineSearchParams<double>> o(w, Probe(), optimizer::LineSearchParams<double>(0.1, 0.9, 2, "ARMIJO"), 2, 2, 0, 1e-3, 0.1, s, false, false); o.optimize(tagX(2, 1), tagY(2)); }); }
using LR = linear_model::LogisticRegression<double>;
static void lrpen() { vf::encodes("linear_model::LogisticRegression::fit"); vf::Str p = unlisted("penalty", {"l1", "l2", "None"}), s = vf::option("solver"); refused([&] { LR r(0.5, 0, 1000, 2, 3, 0, s, p, false, false); r.fit(two(), lab()); }); }
static void lrsol(const char* pen) { vf::encodes("linear_model::LogisticRegression::fit"); bool l1 = std::string(pen) == "l1"; vf::Str s = l1 ? unlisted("solver", {"scd"}) : unlisted("solver", {"sgd", "sag", "lbfgs"}); refused([&] { LR r(0.5, 0, 1000, 2, 3, 0, s, pen, false, false); r.fit(two(), lab()); }); }
VFQ("kd", kd(), "any other metric") VFQ("knnb", knnm("brute"), "any other metric, brute force") VFQ("knnt", knnm("kdtree"), "any other metric, tree") VFQ("knns", knns(), "any other solver") VFQ("tclf", tclf(), "any other criterion") VFQ("treg", treg(), "any other criterion") VFQ("kminit", kminit(), "any other initialisation") VFQ("gmmcov", gmmcov(), "any other covariance type") VFQ("gmminit", gmminit(), "any other initialisation") VFQ("pcas", pcas(), "any other solver") VFQ("tsvds", tsvds(), "any other solver") VFQ("tsvdn", tsvdn(), "any other normaliser") VFQ("lbfgs", lbfgs(), "any other line search") VFQ("lrpen", lrpen(), "any other penalty, any solver") VFQ("lrsol2", lrsol("l2"), "any other solver for l2") VFQ("lrsol1", lrsol("l1"), "any other solver for l1") VFQ("lrsoln", lrsol("None"), "any other solver without penalty")
