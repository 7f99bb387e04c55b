#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "core/loss/huber_loss.hpp"
#include "util.hpp"
using namespace openml;
static double lam() { return vf::real("lambda", 0, 4); }
static Vec xw(const Mat& X, const Vec& W) { Vec r(X.rows()); for (int i = 0; i < X.rows(); ++i) { double s(0); for (int j = 0; j < X.cols(); ++j) s += X(i, j) * W(j); r(i) = s; } return r; }
static double reg(const Mat& W, int n) { double s(0); for (int i = 0; i < W.rows(); ++i) for (int j = 0; j < W.cols(); ++j) s += W(i, j) * W(i, j); return s / double(2 * n); }
static void mse(int n, int d) { vf::encodes("loss::MSE::evaluate"); Mat X = symMat("x", n, d, -2, 2); Vec y = symVec("y", n), W = symVec("w", d, -2, 2); double l = lam(), s(0); Vec p = xw(X, W); for (int i = 0; i < n; ++i) s += (y(i) - p(i)) * (y(i) - p(i));
  double v = loss::MSE<double>(l).evaluate(X, y, W); vf::check("value", vf::eq(v, s / double(2 * n) + l * reg(W, n))); vf::check("default-unregularised", vf::eq(loss::MSE<double>().evaluate(X, y, W), s / double(2 * n))); vf::out("v", v); vf::reach("end"); }
static void logl(int n, int d) { vf::encodes("loss::LogLoss::evaluate"); Mat X = symMat("x", n, d, -2, 2); Vec y(n), W = symVec("w", d, -2, 2); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y", 2)); double l = lam(), s(0); Vec p = xw(X, W);
  for (int i = 0; i < n; ++i) { double e = std::exp(-p(i)); double q = double(1) / (double(1) + e); s -= vf::holds(vf::eq(y(i), double(1))) ? std::log(q) : std::log(double(1) - q); }
  double v = loss::LogLoss<double>(l).evaluate(X, y, W); vf::check("value", vf::eq(v, s / double(n) + l * reg(W, n))); vf::out("v", v); vf::reach("end"); }
static void hinge(int n, int d) { vf::encodes("loss::HingeLoss::evaluate"); Mat X = symMat("x", n, d, -2, 2); Vec y(n), W = symVec("w", d, -2, 2); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y", 2) * 2 - 1); double l = lam(), t = vf::real("t", 0, 2), s(0); Vec p = xw(X, W); for (int i = 0; i < n; ++i) s += vmax(double(0), t - p(i) * y(i));
  double v = loss::HingeLoss<double>(l, t).evaluate(X, y, W); vf::check("value", vf::eq(v, s + l * reg(W, n))); vf::out("v", v); vf::reach("end"); }
static void huber(int n, int d) { vf::encodes("loss::HuberLoss::evaluate"); Mat X = symMat("x", n, d, -2, 2); Vec y = symVec("y", n), W = symVec("w", d, -2, 2); double l = lam(), de = vf::real("delta", 0, 2), s(0); vf::assume(vf::gt(de, double(0))); Vec p = xw(X, W);
  for (int i = 0; i < n; ++i) { double r = vabs(y(i) - p(i)); s += vf::ite(vf::le(r, de), r * r / double(2), de * r - de * de / double(2)); }
  double v = loss::HuberLoss<double>(l, de).evaluate(X, y, W); vf::check("value", vf::eq(v, s + l * reg(W, n))); vf::out("v", v); vf::reach("end"); }
static void softm(int n, int d, int k) { vf::encodes("loss::SoftmaxLoss::evaluate"); Mat X = symMat("x", n, d, -2, 2), W = symMat("w", d, k, -2, 2); Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y", k)); double l = lam(), s(0);
  for (int i = 0; i < n; ++i) { double se(0); for (int c = 0; c < k; ++c) se += std::exp(xw(X, W.col(c))(i)); Vec wc = W.col((int)y(i)); s += std::log(se) - xw(X, wc)(i); }
  double v = loss::SoftmaxLoss<double>(l).evaluate(X, y, W); vf::check("value", vf::eq(v, s / double(n) + l * reg(W, n))); vf::out("v", v); vf::reach("end"); }
static void guard() {   // large margins: no exp overflow
  vf::encodes("loss::SoftmaxLoss::evaluate, loss::SoftmaxLoss::gradient"); vf::exp_guard(true); Mat X = Mat::Constant(1, 1, double(1)), W = symMat("w", 1, 2, -700, 800); Vec y = Vec::Constant(1, double(0)); vf::assume(vf::le(vabs(W(0, 0) - W(0, 1)), double(600)));
  double v = loss::SoftmaxLoss<double>().evaluate(X, y, W); Mat g = loss::SoftmaxLoss<double>().gradient(X, y, W); vf::check("finite", vf::is_finite(v) & vf::is_finite(g(0, 0)) & vf::is_finite(g(0, 1))); vf::reach("end"); }
// scores so large that probabilities round to 0 or 1 (exp underflows to zero below -746)
static void log_under(int n) {
  vf::encodes("loss::LogLoss::evaluate, loss::LogLoss::gradient"); vf::exp_guard(true); vf::exp_flush(true); Mat X = Mat::Identity(n, n); Vec W = symVec("w", n, -2000, 2000), y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y", 2));
  double s(0); for (int i = 0; i < n; ++i) { bool neg = vf::holds(vf::lt(W(i), double(0))); s += (neg ? double(0) : W(i)) - y(i) * W(i) + std::log(double(1) + std::exp(neg ? W(i) : -W(i))); }
  double v = loss::LogLoss<double>(0.0).evaluate(X, y, W); vf::check("finite", vf::is_finite(v)); vf::check("value", vf::eq(v * double(n), s)); Vec g = loss::LogLoss<double>(0.0).gradient(X, y, W); for (int i = 0; i < n; ++i) vf::check("gradient-finite-and-bounded", vf::is_finite(g(i)) & vf::le(vabs(g(i)), double(1))); vf::out("v", v); vf::reach("end"); }
static void soft_under(int n, int k) {
  vf::encodes("loss::SoftmaxLoss::evaluate, loss::SoftmaxLoss::gradient"); vf::exp_guard(true); vf::exp_flush(true); Mat X = Mat::Identity(n, n), W = symMat("w", n, k, -2000, 2000); Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y", k));
  for (int i = 0; i < n; ++i) for (int c = 1; c < k; ++c) vf::assume(vf::ge(W(i, c), W(i, c - 1) + double(1)));
  double s(0); for (int i = 0; i < n; ++i) { double se(0); for (int c = 0; c < k; ++c) se += std::exp(W(i, c) - W(i, k - 1)); s += std::log(se) + W(i, k - 1) - W(i, (int)y(i)); }
  double v = loss::SoftmaxLoss<double>(0.0).evaluate(X, y, W); vf::check("finite", vf::is_finite(v)); vf::check("value", vf::eq(v * double(n), s));
  Mat g = loss::SoftmaxLoss<double>(0.0).gradient(X, y, W); for (int i = 0; i < n; ++i) { double se(0); for (int c = 0; c < k; ++c) se += std::exp(W(i, c) - W(i, k - 1)); for (int c = 0; c < k; ++c) { vf::check("gradient-finite", vf::is_finite(g(i, c))); vf::check("gradient", vf::eq((g(i, c) * double(n) + double(c == (int)y(i) ? 1 : 0)) * se, std::exp(W(i, c) - W(i, k - 1)))); } } vf::out("v", v); vf::reach("end"); }
VFQ("mse32", mse(3, 2), "3x2") VFQ("mse13", mse(1, 3), "1x3") VFQ("log22", logl(2, 2), "2x2") VFQ("log31", logl(3, 1), "3x1") VFQ("hinge22", hinge(2, 2), "2x2") VFQ("hinge31", hinge(3, 1), "3x1") VFQ("huber21", huber(2, 1), "2x1") VFQ("huber12", huber(1, 2), "1x2")
VFQ("soft112", softm(1, 1, 2), "1x1, 2 classes") VFQ("soft113", softm(1, 1, 3), "1x1, 3 classes") VFQ("soft212", softm(2, 1, 2), "2x1, 2 classes") VFQ("soft122", softm(1, 2, 2), "1x2, 2 classes") VFQ("soft_big", guard(), "margins up to 800")
VFT("soft222", softm(2, 2, 2), "2x2, 2 classes")
VFQ("log_uf", log_under(2), "scores up to 2000, with underflow") VFQ("soft_uf", soft_under(2, 2), "2 samples, scores up to 2000, with underflow") VFQ("soft_uf3", soft_under(1, 3), "3 classes, scores up to 2000, with underflow")
