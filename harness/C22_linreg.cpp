#include "env.hpp"
#include "begin.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
static double det(const Mat& A) { if (A.rows() == 1) return A(0, 0); if (A.rows() == 2) return A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0); double s(0); for (int j = 0; j < 3; ++j) s += A(0, j) * (A(1, (j + 1) % 3) * A(2, (j + 2) % 3) - A(1, (j + 2) % 3) * A(2, (j + 1) % 3)); return s; }
static void run(const Mat& X, const Vec& y, bool intercept, bool exactFit) {
  vf::encodes("linear_model::LinearRegression::fit, predict, get_coef; BaseLinearModel::predict_label"); int n = X.rows(), d = X.cols(); Mat D = design(X, intercept); int m = D.cols(); Vec t = y, w0;
  if (exactFit) { w0 = symVec("truth", m, -4, 4); for (int i = 0; i < n; ++i) t(i) = dotRow(D, i, w0); }
  Mat G(m, m); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double s(0); for (int k = 0; k < n; ++k) s += D(k, i) * D(k, j); G(i, j) = s; }
  if (m <= 3) vf::assume(vf::ne(det(G), double(0)));                     // the minimiser is unique
  linear_model::LinearRegression<double> lr(intercept); lr.fit(X, t); Mat w = lr.get_coef(); if (!shapeIs("one-weight-per-column", w, m, 1)) return;
  Vec wv(m); for (int i = 0; i < m; ++i) wv(i) = w(i, 0);
  for (int j = 0; j < m; ++j) { double s(0); for (int i = 0; i < n; ++i) s += D(i, j) * (dotRow(D, i, wv) - t(i)); vf::check("residual-orthogonal-to-every-column", vf::eq(s, double(0))); if (exactFit) vf::check("recovers-exact-weights", vf::eq(wv(j), w0(j))); vf::out("w", wv(j)); }
  Mat Q = symMat("q", 2, d); Vec p = lr.predict(Q); vf::check("one-prediction-per-row", p.size() == 2); if (p.size() != 2) return; Mat DQ = design(Q, intercept); for (int i = 0; i < 2; ++i) vf::check("prediction-is-linear-score", vf::eq(p(i), dotRow(DQ, i, wv)));
  vf::reach("end");
}
static Mat bigX(int n, int d) { Mat X(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = double((i * i * 3 + j * 5 + i * j * j * 7 + i) % 11 - 5); return X; }   // of full rank
static void dflt() { Mat X = fixedX(3, 1), Q = symMat("q", 1, 1); Vec y = symVec("y", 3); linear_model::LinearRegression<double> a, b(true); a.fit(X, y); b.fit(X, y); checkMatEq("default-has-an-intercept", a.get_coef(), b.get_coef()); checkMatEq("default-has-an-intercept", a.predict(Q), b.predict(Q)); vf::reach("end"); }
static void twice() { Mat X = symMat("x", 2, 1), Z = fixedX(3, 2); Vec y = symVec("y", 2), z = symVec("z", 3); linear_model::LinearRegression<double> a(true), b(true); vf::assume(vf::ne(X(0, 0), X(1, 0))); a.fit(Z, z); a.fit(X, y); b.fit(X, y); checkMatEq("refit-equals-fresh-fit", a.get_coef(), b.get_coef()); vf::reach("end"); }
VFQ("dflt", dflt(), "no parameters given") VFQ("d1", run(symMat("x", 3, 1), symVec("y", 3), false, false), "3x1 no intercept") VFQ("d1i", run(symMat("x", 2, 1), symVec("y", 2), true, false), "2x1 with intercept") VFQ("d1i3", run(symMat("x", 3, 1), symVec("y", 3), true, false), "3x1 with intercept") VFQ("d2", run(symMat("x", 2, 2), symVec("y", 2), false, false), "2x2 no intercept") VFQ("fixed", run(fixedX(5, 2), symVec("y", 5), true, false), "fixed 5x2 design, any targets") VFQ("fixed3", run(fixedX(5, 3), symVec("y", 5), false, false), "fixed 5x3 design, any targets") VFQ("exact", run(symMat("x", 2, 1), symVec("y", 2), true, true), "targets from a linear model") VFQ("exactf", run(fixedX(4, 2), symVec("y", 4), true, true), "fixed design, targets from a linear model") VFQ("tall", run(bigX(24, 2), symVec("y", 24), true, false), "fixed 24x2 design with intercept, any targets") VFQ("wide", run(bigX(9, 6), symVec("y", 9), true, false), "fixed 9x6 design with intercept, any targets") VFQ("twice", twice(), "two fits")
VFT("d2n3", run(symMat("x", 3, 2), symVec("y", 3), false, false), "3x2 no intercept") VFT("fixed33", run(fixedX(6, 3), symVec("y", 6), true, false), "fixed 6x3 design with intercept") 
