#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "core/loss/huber_loss.hpp"
#include "util.hpp"
using namespace openml;
template <class L> static void grad(const L& loss, const Mat& X, const Vec& y, const Vec& W) {
  int d = W.size(); Vec g = loss.gradient(X, y, W); vf::check("shape", g.size() == d); if (g.size() != d) return;
  for (int j = 0; j < d; ++j) { double dj = vf::derivative([&](const double& v) { Vec W2 = W; W2(j) = v; return loss.evaluate(X, y, W2); }, W(j)); vf::check("gradient-is-derivative", vf::eq(g(j), dj)); vf::out("g", g(j)); }
}
static double lam() { double l = vf::real("lambda", 0, 4); return l; }
static Vec labels01(int n) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y" + std::to_string(i), 2)); return y; }
static Vec labelspm(int n) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y" + std::to_string(i), 2) * 2 - 1); return y; }
static void mse(int n, int d) { vf::encodes("loss::MSE::evaluate, loss::MSE::gradient"); Mat X = symMat("x", n, d, -2, 2); Vec y = symVec("y", n), W = symVec("w", d, -2, 2); grad(loss::MSE<double>(lam()), X, y, W); vf::reach("end"); }
static void logl(int n, int d) { vf::encodes("loss::LogLoss::evaluate, loss::LogLoss::gradient, math::sigmoid"); Mat X = symMat("x", n, d, -2, 2); Vec y = labels01(n), W = symVec("w", d, -2, 2); grad(loss::LogLoss<double>(lam()), X, y, W); vf::reach("end"); }
static void hinge(int n, int d) { vf::encodes("loss::HingeLoss::evaluate, loss::HingeLoss::gradient"); Mat X = symMat("x", n, d, -2, 2); Vec y = labelspm(n), W = symVec("w", d, -2, 2); double th = vf::real("t", 0, 2);
  for (int i = 0; i < n; ++i) { double m(0); for (int j = 0; j < d; ++j) m += X(i, j) * W(j); vf::assume(vf::ne(m * y(i), th)); }       // not differentiable at the hinge
  grad(loss::HingeLoss<double>(lam(), th), X, y, W); vf::reach("end"); }
static void huber(int n, int d) { vf::encodes("loss::HuberLoss::evaluate, loss::HuberLoss::gradient"); Mat X = symMat("x", n, d, -2, 2); Vec y = symVec("y", n), W = symVec("w", d, -2, 2); double de = vf::real("delta", 0, 2); vf::assume(vf::gt(de, double(0)));
  for (int i = 0; i < n; ++i) { double m(0); for (int j = 0; j < d; ++j) m += X(i, j) * W(j); vf::assume(vf::ne(vabs(y(i) - m), de)); }
  grad(loss::HuberLoss<double>(lam(), de), X, y, W); vf::reach("end"); }
static void softm(int n, int d, int k) {
  vf::encodes("loss::SoftmaxLoss::evaluate, loss::SoftmaxLoss::gradient"); Mat X = symMat("x", n, d, -2, 2), W = symMat("w", d, k, -2, 2); Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(vf::choose("y" + std::to_string(i), k)); loss::SoftmaxLoss<double> L(lam());
  Mat g = L.gradient(X, y, W); if (!shapeIs("shape", g, d, k)) return;
  for (int i = 0; i < d; ++i) for (int j = 0; j < k; ++j) { double dj = vf::derivative([&](const double& v) { Mat W2 = W; W2(i, j) = v; return L.evaluate(X, y, W2); }, W(i, j)); vf::check("gradient-is-derivative", vf::eq(g(i, j), dj)); vf::out("g", g(i, j)); }
  vf::reach("end");
}
VFQ("mse32", mse(3, 2), "3x2") VFQ("mse13", mse(1, 3), "1x3") VFQ("log22", logl(2, 2), "2x2") VFQ("log31", logl(3, 1), "3x1") VFQ("hinge22", hinge(2, 2), "2x2, margin != threshold") VFQ("hinge31", hinge(3, 1), "3x1") VFQ("hinge12", hinge(1, 2), "1x2")
VFQ("huber21", huber(2, 1), "2x1, |residual| != delta") VFQ("huber12", huber(1, 2), "1x2") VFQ("soft112", softm(1, 1, 2), "1x1, 2 classes") VFQ("soft113", softm(1, 1, 3), "1x1, 3 classes") VFQ("soft212", softm(2, 1, 2), "2x1, 2 classes") VFQ("soft122", softm(1, 2, 2), "1x2, 2 classes")
VFT("soft222", softm(2, 2, 2), "2x2, 2 classes") VFT("soft213", softm(2, 1, 3), "2x1, 3 classes")
