#include "env.hpp"
#include "begin.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
static void run(const Mat& X, const Vec& y, bool intercept) {
  vf::encodes("linear_model::RidgeRegression::fit, predict, get_coef; BaseLinearModel::predict_label"); int n = X.rows(), d = X.cols(); Mat D = design(X, intercept); int m = D.cols();
  double lam = vf::real("lambda", 0, 4); vf::assume(vf::gt(lam, double(0)));
  linear_model::RidgeRegression<double> lr(lam, intercept); lr.fit(X, y); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, m, 1)) return;
  Vec wv(m); for (int i = 0; i < m; ++i) wv(i) = w(i, 0);
  for (int j = 0; j < m; ++j) { double s = lam * wv(j); for (int i = 0; i < n; ++i) s += D(i, j) * (dotRow(D, i, wv) - y(i)); vf::check("gradient-of-penalised-squares-is-zero", vf::eq(s, double(0))); vf::out("w", wv(j)); }
  Mat Q = symMat("q", 2, d); Vec p = lr.predict(Q); vf::check("one-prediction-per-row", p.size() == 2); if (p.size() != 2) return; Mat DQ = design(Q, intercept); for (int i = 0; i < 2; ++i) vf::check("prediction-is-linear-score", vf::eq(p(i), dotRow(DQ, i, wv)));
  vf::reach("end");
}
static void dflt() { Mat X = fixedX(3, 1); Vec y = symVec("y", 3); linear_model::RidgeRegression<double> a, b(0.5, true); a.fit(X, y); b.fit(X, y); checkMatEq("default-is-half-with-intercept", a.get_coef(), b.get_coef()); vf::reach("end"); }
static void twice() { Mat X = symMat("x", 2, 1), Z = fixedX(3, 2); Vec y = symVec("y", 2), z = symVec("z", 3); linear_model::RidgeRegression<double> a(1, true), b(1, true); a.fit(Z, z); a.fit(X, y); b.fit(X, y); checkMatEq("refit-equals-fresh-fit", a.get_coef(), b.get_coef()); vf::reach("end"); }
VFQ("d1", run(symMat("x", 3, 1), symVec("y", 3), false), "3x1 no intercept") VFQ("d1i", run(symMat("x", 2, 1), symVec("y", 2), true), "2x1 with intercept") VFQ("d2", run(symMat("x", 2, 2), symVec("y", 2), false), "2x2 no intercept") VFQ("one", run(symMat("x", 1, 1), symVec("y", 1), true), "fewer samples than weights") VFQ("fixed", run(fixedX(5, 2), symVec("y", 5), true), "fixed 5x2 design, any targets and penalty") VFQ("dup", run(fixedX(1, 2).replicate(3, 1), symVec("y", 3), false), "rank-deficient design") VFQ("dflt", dflt(), "default parameters") VFQ("twice", twice(), "two fits")
VFT("d1i3", run(symMat("x", 3, 1), symVec("y", 3), true), "3x1 with intercept") VFT("fixed3", run(fixedX(6, 3), symVec("y", 6), true), "fixed 6x3 design")
