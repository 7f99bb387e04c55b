#include "env.hpp"
#include "begin.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
static double descent(const double& w, const double& g, const double& z, const double& beta, const double& lam) { double e = z - w; return -(e * g) - beta / double(2) * e * e - lam * vabs(z) + lam * vabs(w); }
// coordinate descent on the mean squared error of the design with intercept column, from zero weights
static void lasso(const Mat& X, const Vec& y, int iters, bool intercept, const double& beta, const double& lam0) {
  vf::encodes("linear_model::LassoRegression::fit, predict, get_coef; optimizer::SCD::optimize; loss::MSE::gradient"); double lam = lam0; int n = X.rows(), d = X.cols(); Mat D = design(X, intercept); int m = D.cols();
  linear_model::LassoRegression<double> lr(iters, lam, beta, false, false, intercept); lr.fit(X, y); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, m, 1)) return;
  std::vector<SVec> reach{SVec(m, double(0))};               // states an iteration may end in (best coordinate; ties allowed)
  SB some(false); std::function<SB(SVec, int)> go = [&](SVec W, int left) -> SB {
    if (!left) { SB r(true); for (int j = 0; j < m; ++j) r = r & vf::eq(w(j, 0), W[j]); return r; }
    Vec wv(m); for (int j = 0; j < m; ++j) wv(j) = W[j]; SVec z(m), dec(m); SB r(false);
    for (int j = 0; j < m; ++j) { double g(0); for (int i = 0; i < n; ++i) g += D(i, j) * (dotRow(D, i, wv) - y(i)); g = g / double(n); double v = W[j] - g / beta, th = lam / beta; if (vf::holds(vf::gt(v, th))) z[j] = v - th; else if (vf::holds(vf::lt(v, -th))) z[j] = v + th; else z[j] = double(0); dec[j] = descent(W[j], g, z[j], beta, lam); }
    for (int j = 0; j < m; ++j) { SB best(true); for (int i = 0; i < m; ++i) best = best & vf::ge(dec[j], dec[i]); if (!vf::holds(best)) continue; SVec V = W; V[j] = z[j]; r = r | go(V, left - 1); }
    return r; };
  vf::check("weights-follow-soft-thresholded-descent", go(SVec(m, double(0)), iters));
  Vec wv(m); for (int j = 0; j < m; ++j) { wv(j) = w(j, 0); vf::out("w", wv(j)); } Mat Q = symMat("q", 1, d); Vec p = lr.predict(Q); vf::check("one-prediction-per-row", p.size() == 1); if (p.size() != 1) return; vf::check("prediction-is-linear-score", vf::eq(p(0), dotRow(design(Q, intercept), 0, wv)));
  vf::reach("end");
}
// one epoch of mini-batch subgradient steps on max(0, -t w.x) from the initial weights, labels mapped to -1 / +1
static void perc(const Mat& X, int B, bool intercept, bool pm, const double& al0, const double& la0) {
  vf::encodes("linear_model::Perceptron::fit, predict, get_coef; optimizer::SGD::optimize; loss::HingeLoss::gradient, evaluate"); double al = al0, la = la0; int n = X.rows(), d = X.cols(); Mat D = design(X, intercept); int m = D.cols();
  Vec y(n), t(n); for (int i = 0; i < n; ++i) { int c = vf::choose("label" + std::to_string(i), 2); y(i) = c ? double(1) : double(pm ? -1 : 0); t(i) = double(c ? 1 : -1); }
  vf::envlog().clear(); linear_model::Perceptron<double> pc(al, la, 1000, B, 1, 0, "l2", intercept, false, false); pc.fit(X, y); Mat w = pc.get_coef(); if (!shapeIs("one-weight-per-column", w, m, 1)) return;
  vf::check("one-random-weight-per-column", (int)vf::envlog().size() == m); if ((int)vf::envlog().size() != m) return;
  Vec W(m); for (int j = 0; j < m; ++j) W(j) = vf::envlog()[j];
  for (int b = 0; b < n / B; ++b) { Vec g(m); for (int j = 0; j < m; ++j) g(j) = la * W(j) / double(B); for (int r = 0; r < B; ++r) { int i = b * B + r; if (vf::holds(vf::le(t(i) * dotRow(D, i, W), double(0)))) for (int j = 0; j < m; ++j) g(j) -= t(i) * D(i, j); } for (int j = 0; j < m; ++j) W(j) = W(j) - al * g(j); }
  for (int j = 0; j < m; ++j) { vf::check("weights-follow-perceptron-rule", vf::eq(w(j, 0), W(j))); vf::out("w", w(j, 0)); }
  Mat Q = symMat("q", 2, d, -4, 4); Vec p = pc.predict(Q); vf::check("one-prediction-per-row", p.size() == 2); if (p.size() != 2) return; Mat DQ = design(Q, intercept); for (int i = 0; i < 2; ++i) vf::check("predicts-1-iff-score-positive", vf::eq(p(i), vf::ite(vf::gt(dotRow(DQ, i, W), double(0)), double(1), double(0))));
  vf::reach("end");
}
VFQ("l1", lasso(symMat("x", 2, 1, -4, 4), symVec("y", 2, -4, 4), 1, false, 1, 0.5), "2x1 no intercept, 1 iteration") VFQ("l1i", lasso(fixedX(3, 1), symVec("y", 3, -4, 4), 1, true, 1, vf::real("lambda", 0, 2)), "fixed 3x1 with intercept, any targets and lambda") VFQ("l2i", lasso(fixedX(2, 1), symVec("y", 2, -4, 4), 2, true, 2, 0.5), "fixed 2x1 with intercept, 2 iterations") VFQ("l22", lasso(fixedX(3, 2), symVec("y", 3, -4, 4), 1, true, 2, vf::real("lambda", 0, 2)), "fixed 3x2 with intercept")
VFQ("p", perc(fixedX(2, 1), 1, true, false, 0.5, 0), "fixed 2x1 with intercept, labels 0/1, batch 1, any initial weights and query") VFQ("ppm", perc(fixedX(2, 2), 2, false, true, 0.25, 1), "fixed 2x2, labels -1/1, batch 2, penalty 1") VFQ("px", perc(symMat("x", 2, 1, -4, 4), 1, false, false, 0.5, 0.5), "any 2x1 data, penalty 1/2") VFQ("pal", perc(fixedX(2, 1), 1, true, false, vf::real("alpha", 0, 1), 0), "any learning rate")
VFT("px2", perc(symMat("x", 2, 1, -4, 4), 1, true, false, 0.5, 0.5), "any 2x1 data with intercept") VFT("p3", perc(fixedX(4, 2), 2, true, false, vf::real("alpha", 0, 1), 0.5), "fixed 4x2 with intercept, batch 2, any learning rate")
VFT("l22x", lasso(symMat("x", 2, 2, -4, 4), symVec("y", 2, -4, 4), 1, false, 2, 0.5), "any 2x2 data, 1 iteration") VFT("l3i", lasso(fixedX(3, 1), symVec("y", 3, -4, 4), 3, true, 2, 0.5), "3 iterations")
