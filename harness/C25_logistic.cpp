#include "env.hpp"
#include "begin.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
using LogReg = linear_model::LogisticRegression<double>;
static double sig(const double& s) { return vf::holds(vf::ge(s, double(0))) ? double(1) / (double(1) + std::exp(-s)) : std::exp(s) / (double(1) + std::exp(s)); }
static Vec start(int m) { Vec W = Vec::Zero(m); vf::check("one-random-weight-per-column", (int)vf::envlog().size() == m); if ((int)vf::envlog().size() == m) for (int j = 0; j < m; ++j) W(j) = vf::envlog()[j]; return W; }
static Vec labels(int n) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("label" + std::to_string(i), 2)); return y; }
static Vec grad(const Mat& D, const Vec& y, const Vec& W, int b, int B, const double& la) { Vec g(W.size()); for (int j = 0; j < W.size(); ++j) g(j) = la * W(j) / double(B); for (int r = 0; r < B; ++r) { int i = b * B + r; Vec sc(1); sc(0) = dotRow(D, i, W); double e = math::sigmoid<Vec>(sc)(0) - y(i); for (int j = 0; j < W.size(); ++j) g(j) += D(i, j) * e / double(B); } return g; }
static void predictions(const LogReg& lr, const Mat& Q, const Vec& W) {
  Mat DQ = design(Q, true); Vec p = lr.predict(Q); Mat P = lr.predict_prob(Q); vf::check("one-prediction-per-row", p.size() == Q.rows()); if (p.size() != Q.rows() || !shapeIs("two-probabilities-per-row", P, Q.rows(), 2)) return;
  for (int i = 0; i < Q.rows(); ++i) { double s = dotRow(DQ, i, W), q = sig(s);
    vf::check("probability-of-class-1-is-sigmoid-of-score", vf::eq(P(i, 1), q)); vf::check("probabilities-sum-to-one", vf::eq(P(i, 0) + P(i, 1), double(1))); vf::check("predicts-1-iff-score-positive", vf::eq(p(i), vf::ite(vf::gt(s, double(0)), double(1), double(0)))); vf::out("p", P(i, 1)); }
}
// arbitrary weights (the random start, no training step): decision rule alone
static void rule(int d, int nq, int lim) {
  vf::encodes("linear_model::LogisticRegression::predict, predict_prob, BaseLinearModel::predict_label, math::sigmoid"); vf::envlog().clear();
  LogReg lr(0, 0, 1000, 2, 3, 0, "sgd", "l2", false, false); lr.fit(fixedX(2, d), labels(2)); Vec W = start(d + 1); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, d + 1, 1)) return; for (int j = 0; j <= d; ++j) vf::check("zero-learning-rate-keeps-start", vf::eq(w(j, 0), W(j)));
  predictions(lr, symMat("q", nq, d, -lim, lim), W); vf::reach("end");
}
// the same decision rule after the other solvers, run so that the random start is kept
static void rule2(bool scd) {   // labels 1, 0 for L-BFGS
  vf::encodes("linear_model::LogisticRegression::fit, predict, predict_prob"); vf::envlog().clear(); Mat X = fixedX(2, 1); Vec y = Vec::Zero(2); y(0) = double(1); if (scd) y = labels(2);
  LogReg lr = scd ? LogReg(0, 0.5, 0, "scd", "l1", false, false) : LogReg(1e6, 0.0001, 0.5, 0.9, 3, 2, 0, 1, "lbfgs", "l2", "backtracking", "ARMIJO", false, false); lr.fit(X, y); Vec W = start(2); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, 2, 1)) return; for (int j = 0; j < 2; ++j) vf::check("keeps-start", vf::eq(w(j, 0), W(j)));
  predictions(lr, symMat("q", 1, 1, -20, 20), W); vf::reach("end");
}
// one epoch of training, SGD or SAG
static void train(int n, int B, bool sag, bool l2, bool shuffle, int d) {
  vf::encodes("linear_model::LogisticRegression::fit, predict_prob; optimizer::SGD::optimize, optimizer::SAG::optimize; loss::LogLoss::gradient, evaluate"); vf::envlog().clear(); Mat X = fixedX(n, d); Vec y = labels(n); double al = vf::real("alpha", 0, 1), la = l2 ? vf::real("lambda", 0, 1) : double(0);
  LogReg lr(al, la, 1000, B, 3, 0, sag ? "sag" : "sgd", l2 ? "l2" : "None", shuffle, false); lr.fit(X, y); Vec W0 = start(d + 1); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, d + 1, 1)) return;
  Mat D = design(X, true); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; SB any(false);
  do { Mat E = D; Vec t = y; for (int i = 0; i < n; ++i) { E.row(i) = D.row(perm[i]); t(i) = y(perm[i]); }
    Vec W = W0; int nb = n / B; Vec avg = Vec::Zero(d + 1);
    for (int b = 0; b < nb; ++b) { Vec g = grad(E, t, W, b, B, la); for (int j = 0; j <= d; ++j) { avg(j) += g(j) / double(nb); W(j) = W(j) - al * (sag ? avg(j) : g(j)); } }
    SB same(true); for (int j = 0; j <= d; ++j) same = same & vf::eq(w(j, 0), W(j)); any = any | same;
  } while (shuffle && std::next_permutation(perm.begin(), perm.end()));
  vf::check(sag ? "weights-follow-average-gradient-steps" : "weights-follow-gradient-steps", any); for (int j = 0; j <= d; ++j) vf::out("w", w(j, 0)); vf::reach("end");
}
static void descend() {   // plain coordinate descent (lambda 0): one step along the steepest coordinate
  vf::encodes("linear_model::LogisticRegression::fit; optimizer::SCD::optimize"); vf::envlog().clear(); Mat X = fixedX(2, 1); Vec y = labels(2); LogReg lr(0, 0.5, 1, "scd", "l1", false, false); lr.fit(X, y); Vec W = start(2); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, 2, 1)) return;
  Vec g = grad(design(X, true), y, W, 0, 2, 0); SB r(false); for (int j = 0; j < 2; ++j) { SB s = vf::ge(g(j) * g(j), g(1 - j) * g(1 - j)); for (int i = 0; i < 2; ++i) s = s & vf::eq(w(i, 0), i == j ? W(i) - double(2) * g(i) : W(i)); r = r | s; }
  vf::check("one-coordinate-step-along-largest-gradient", r); vf::reach("end");
}
static void quasi(int iters, bool stop, const char* policy, const char* cond) {   // the L-BFGS solver, same parameters handed to the optimizer directly
  vf::encodes("linear_model::LogisticRegression::fit; optimizer::LBFGS::optimize"); vf::envlog().clear(); Mat X = stop ? fixedX(2, 1) : Mat(Mat::Zero(2, 1)); Vec y(2); y << double(1), double(0); double tol = stop ? 1e6 : 1e-5, ftol = 0.0001, delta = 0.5, wolfe = 0.9;
  LogReg lr(tol, ftol, delta, wolfe, iters, 2, 0, 1, "lbfgs", "l2", policy, cond, false, false); bool t1 = false, t2 = false; Mat w; try { lr.fit(X, y); w = lr.get_coef(); } catch (const std::runtime_error&) { t1 = true; } Vec W = start(2);
  optimizer::LBFGS<double, loss::LogLoss<double>, optimizer::LineSearchParams<double>> o(W, loss::LogLoss<double>(0), optimizer::LineSearchParams<double>(ftol, wolfe, 1, cond), iters, 2, 0, tol, delta, policy, false, false); Mat v; try { o.optimize(design(X, true), y); v = o.get_coef(); } catch (const std::runtime_error&) { t2 = true; }
  vf::check("same-outcome-as-optimizer-on-full-design", t1 == t2); if (t1 || t2) { vf::reach("end"); return; } checkMatEq("same-weights-as-optimizer-on-full-design", w, v); if (stop) for (int j = 0; j < 2; ++j) vf::check("returns-start-when-gradient-is-small", vf::eq(w(j, 0), W(j))); vf::reach("end");
}
static void bad() {
  vf::encodes("linear_model::LogisticRegression::fit"); const char* sol[] = {"sgd", "sag", "lbfgs", "scd", "newton"}; const char* pen[] = {"l2", "None", "l1", "l3"}; int s = vf::choose("solver", 5), p = vf::choose("penalty", 4); bool ok = p < 2 ? s < 3 : p == 2 && s == 3; if (ok) vf::skip();
  LogReg lr(0.5, 0, 1000, 2, 3, 0, sol[s], pen[p], false, false); checkThrows<std::invalid_argument>("unsupported-solver-or-penalty-rejected", [&] { lr.fit(fixedX(2, 1), labels(2)); }); vf::reach("end");
}
VFQ("rule1", rule(1, 2, 20), "any weights in [-1,1], any 2 queries, 1 feature") VFQ("rule2", rule(2, 1, 20), "2 features") VFQ("rulebig", rule(1, 1, 1000), "queries up to 1000")
VFQ("sgd1", train(2, 1, false, true, false, 1), "2 samples, batch 1, any labels, alpha, lambda, start") VFQ("sgd2", train(2, 2, false, true, false, 1), "batch 2") VFQ("sag1", train(2, 1, true, true, false, 1), "SAG, batch 1") VFT("sag2", train(4, 2, true, false, false, 1), "SAG, 4 samples, batch 2, no penalty") VFQ("shuf", train(2, 1, false, false, true, 1), "every shuffle")
VFQ("scd", descend(), "coordinate descent, one iteration") VFQ("lbfgs0", quasi(3, true, "backtracking", "Armijo"), "L-BFGS with a large tolerance") VFQ("lbfgs1", quasi(1, false, "backtracking", "Armijo"), "L-BFGS, one iteration, one trial") VFQ("rulescd", rule2(true), "coordinate descent without iterations") VFQ("rulelbfgs", rule2(false), "L-BFGS with a large tolerance") VFQ("bad", bad(), "every unsupported solver/penalty pair")
VFT("sgd22", train(2, 2, false, true, false, 2), "batch 2, 2 features") VFT("sgd3", train(3, 1, false, true, false, 2), "3 samples, 2 features, batch 1") VFT("sag3", train(3, 1, true, true, false, 1), "SAG, 3 batches")  VFT("rule3", rule(3, 2, 20), "3 features, 2 queries")
