#include "env.hpp"
#include "begin.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
using Soft = linear_model::SoftmaxRegression<double>;
static double score(const Mat& D, int i, const Mat& W, int c) { double s(0); for (int j = 0; j < D.cols(); ++j) s += D(i, j) * W(j, c); return s; }
static SVec softmaxOf(SVec s) { double m = s[0], t(0); for (auto& v : s) if (vf::holds(vf::gt(v, m))) m = v; for (auto& v : s) { v = std::exp(v - m); t += v; } for (auto& v : s) v = v / t; return s; }
static Vec labels(int n, int C) { Vec y(n); std::set<int> seen; for (int i = 0; i < n; ++i) { int c = vf::choose("label" + std::to_string(i), C); seen.insert(c); y(i) = double(c); } if ((int)seen.size() != C) vf::skip(); return y; }
// one epoch of mini-batch steps on the averaged cross-entropy with l2 penalty, from all-one weights
static Mat steps(const Mat& D, const Vec& y, int C, int B, const double& al, const double& la) {
  Mat W = Mat::Ones(D.cols(), C); int n = D.rows();
  for (int b = 0; b < n / B; ++b) { Mat g = W * (la / double(B)); for (int r = 0; r < B; ++r) { int i = b * B + r; SVec s; for (int c = 0; c < C; ++c) s.push_back(score(D, i, W, c)); SVec p = softmaxOf(s); for (int c = 0; c < C; ++c) { double e = p[c]; if (y(i) == double(c)) e = e - double(1); for (int j = 0; j < D.cols(); ++j) g(j, c) += D(i, j) * e / double(B); } } W = Mat(W - al * g); }
  return W;
}
static void train(const Mat& X, int C, int B, const double& al, const double& la, bool shuffle) {
  vf::encodes("linear_model::SoftmaxRegression::fit, get_coef; optimizer::SGD::optimize; loss::SoftmaxLoss::gradient, evaluate"); int n = X.rows(), d = X.cols(); Vec y = labels(n, C); Soft m(al, la, 1000, B, 3, 0, "sgd", "l2", shuffle, false); m.fit(X, y); Mat w = m.get_coef(); if (!shapeIs("one-column-per-class", w, d + 1, C)) return;
  Mat D = design(X, true); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; SB any(false);
  do { Mat E = D; Vec t = y; for (int i = 0; i < n; ++i) { E.row(i) = D.row(perm[i]); t(i) = y(perm[i]); } Mat W = steps(E, t, C, B, al, la); SB same(true); for (int j = 0; j <= d; ++j) for (int c = 0; c < C; ++c) same = same & vf::eq(w(j, c), W(j, c)); any = any | same; } while (shuffle && std::next_permutation(perm.begin(), perm.end()));
  vf::check("weights-follow-cross-entropy-gradient", any); outMat("w", w); vf::reach("end");
}
// decision rule with the weights reached after one step
static void rule(const Mat& X, int C, int nq, int lim) {
  vf::encodes("linear_model::SoftmaxRegression::predict, predict_prob; math::softmax, common::argmax"); int n = X.rows(), d = X.cols(); Vec y = labels(n, C); Soft m(vf::real("alpha", 0, 1) * double(n * C), 0, 1000, n, 3, 0, "sgd", "None", false, false); m.fit(X, y); Mat w = m.get_coef(); if (!shapeIs("one-column-per-class", w, d + 1, C)) return;
  Mat Q = symMat("q", nq, d, -lim, lim), DQ = design(Q, true); Mat P = m.predict_prob(Q); Vec p = m.predict(Q); if (!shapeIs("one-probability-per-class", P, nq, C)) return; vf::check("one-prediction-per-row", p.size() == nq); if (p.size() != nq) return;
  for (int i = 0; i < nq; ++i) { SVec s; for (int c = 0; c < C; ++c) s.push_back(score(DQ, i, w, c)); double t(0); for (int c = 0; c < C; ++c) t += P(i, c); vf::check("probabilities-sum-to-one", vf::eq(t, double(1)));
    for (int c = 0; c < C; ++c) { vf::check("probability-nonnegative", vf::ge(P(i, c), double(0))); double se(0); for (int k = 0; k < C; ++k) se += std::exp(s[k] - s[c]); vf::check("probability-is-softmax-of-scores", vf::eq(P(i, c) * se, double(1))); }
    SB r(false); for (int c = 0; c < C; ++c) { SB best = vf::eq(p(i), double(c)); for (int k = 0; k < C; ++k) best = best & (k < c ? vf::gt(s[c], s[k]) : vf::ge(s[c], s[k])); r = r | best; } vf::check("predicts-class-of-largest-score", r); vf::out("p", p(i)); }
  vf::reach("end");
}
VFQ("one2", train(symMat("x", 2, 1, -4, 4), 2, 2, vf::real("alpha", 0, 1), vf::real("lambda", 0, 1), false), "any 2x1 data, 2 classes, one batch") VFQ("one3", train(symMat("x", 3, 2, -4, 4), 3, 3, 0.5, vf::real("lambda", 0, 1), false), "any 3x2 data, 3 classes, one batch") VFQ("two", train(fixedX(2, 1), 2, 1, vf::real("alpha", 0, 1), vf::real("lambda", 0, 1), false), "fixed 2x1, batch 1, any step and penalty") VFQ("shuf", train(fixedX(3, 1), 2, 1, 0.5, 0.5, true), "3 samples, every shuffle") VFQ("rest", train(fixedX(4, 2), 2, 2, vf::real("alpha", 0, 1) * double(4), 0, false), "fixed 4x2, 2 classes, two batches")
VFQ("rule2", rule(fixedX(2, 1), 2, 2, 20), "2 classes, any two queries") VFQ("rule3", rule(fixedX(3, 1), 3, 1, 20), "3 classes, any query") VFQ("rule2d", rule(fixedX(3, 2), 2, 1, 20), "2 features") 
VFT("two3", train(fixedX(3, 2), 3, 1, 0.5, vf::real("lambda", 0, 1), false), "3 classes, batch 1") VFT("rulex", rule(symMat("x", 2, 1, -4, 4), 2, 1, 20), "any data") VFT("rule3d", rule(fixedX(4, 2), 3, 1, 20), "3 classes, 2 features")
