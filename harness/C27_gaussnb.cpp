#include "env.hpp"
#include "begin.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
using NB = naive_bayes::GaussianNB<double>;
static const int LBL[3] = {-1, 2, 5};                        // class labels are arbitrary numbers, ascending
struct Fit { int C, d; std::vector<int> cls; SVec prior; std::vector<SVec> mean, var; };
static std::vector<int> classes(int n, int C, int fixed) {   // every assignment with all classes present (or one fixed assignment)
  std::vector<int> k(n); std::set<int> seen; for (int i = 0; i < n; ++i) { k[i] = fixed >= 0 ? (fixed >> (2 * i)) & 3 : vf::choose("class" + std::to_string(i), C); seen.insert(k[i]); } if ((int)seen.size() != C) vf::skip(); return k; }
static Fit reference(const Mat& X, const std::vector<int>& k, int C, const double& eps) {
  Fit f; f.C = C; f.d = X.cols(); double mx(0); bool have = false;
  for (int c = 0; c < C; ++c) { int n = 0; for (int v : k) n += v == c; f.prior.push_back(double(n) / double((int)k.size())); SVec m, v;
    for (int j = 0; j < f.d; ++j) { double s(0), q(0); for (int i = 0; i < X.rows(); ++i) if (k[i] == c) s += X(i, j); s = s / double(n); for (int i = 0; i < X.rows(); ++i) if (k[i] == c) q += (X(i, j) - s) * (X(i, j) - s); q = q / double(n); m.push_back(s); v.push_back(q); if (!have || vf::holds(vf::gt(q, mx))) { mx = q; have = true; } }
    f.mean.push_back(m); f.var.push_back(v); }
  for (auto& v : f.var) for (auto& q : v) q += eps * mx; return f;
}
static double jll(const Fit& f, const Mat& Q, int i, int c) { double s = std::log(f.prior[c]); for (int j = 0; j < f.d; ++j) { double u = Q(i, j) - f.mean[c][j]; s -= (std::log(double(2.0 * M_PI) * f.var[c][j]) + u * u / f.var[c][j]) / double(2); } return s; }
static bool fitted(NB& nb, const Fit& f) {
  Vec cl = nb.get_classes(), pr = nb.get_prior_prob(); Mat m = nb.get_mean(), v = nb.get_var(); vf::check("classes", cl.size() == f.C && pr.size() == f.C); if (cl.size() != f.C || pr.size() != f.C || !shapeIs("mean-shape", m, f.C, f.d) || !shapeIs("var-shape", v, f.C, f.d)) return false;
  for (int c = 0; c < f.C; ++c) { vf::check("classes-ascending", vf::eq(cl(c), double(LBL[c]))); vf::check("prior-is-class-frequency", vf::eq(pr(c), f.prior[c])); for (int j = 0; j < f.d; ++j) { vf::check("class-mean", vf::eq(m(c, j), f.mean[c][j])); vf::check("smoothed-class-variance", vf::eq(v(c, j), f.var[c][j])); vf::out("m", m(c, j)); } } return true;
}
static Vec lab(const std::vector<int>& k) { Vec y(k.size()); for (size_t i = 0; i < k.size(); ++i) y(i) = double(LBL[k[i]]); return y; }
static void fitOnly(int n, int d, int C, bool again) {
  vf::encodes("naive_bayes::GaussianNB::fit, update_mean_variance, BaseNB::compute_prior_prob; math::mean, math::var, common::hstack"); Mat X = symMat("x", n, d, -4, 4); auto k = classes(n, C, -1); double eps = vf::real("smoothing", 0, 1); NB nb(eps); if (again) nb.fit(fixedX(3, d), lab({0, 0, 0})); nb.fit(X, lab(k)); fitted(nb, reference(X, k, C, eps)); vf::reach("end");
}
static Mat line4() { Mat X(4, 1); X << double(0), double(2), double(1), double(5); return X; }
static Mat line6() { Mat X(6, 1); X << double(0), double(2), double(1), double(5), double(-3), double(-1); return X; }
static void use(const Mat& X, int C, int fixed, bool prob, int lim, const double& eps = 0.5) {
  vf::encodes("naive_bayes::GaussianNB::joint_log_likelihood, BaseNB::predict, predict_prob, predict_log_prob; math::logsumexp, common::argmax, common::repeat"); if (prob) vf::exp_unit(8); auto k = classes(X.rows(), C, fixed); NB nb(eps); Fit f = reference(X, k, C, eps); for (auto& v : f.var) for (auto& q : v) vf::assume(vf::gt(q, double(0))); nb.fit(X, lab(k)); if (!fitted(nb, f)) return;
  Mat Q = symMat("q", prob ? 1 : 2, X.cols(), -lim, lim); Vec p; { p = nb.predict(Q); vf::check("one-prediction-per-row", p.size() == Q.rows()); if (p.size() != Q.rows()) return; }
  for (int i = 0; i < Q.rows(); ++i) { SVec s; for (int c = 0; c < C; ++c) s.push_back(jll(f, Q, i, c));
    { SB r(false); for (int c = 0; c < C; ++c) { SB best = vf::eq(p(i), double(LBL[c])); for (int q = 0; q < C; ++q) best = best & (q < c ? vf::gt(s[c], s[q]) : vf::ge(s[c], s[q])); r = r | best; } vf::check("predicts-label-of-largest-posterior", r); vf::out("p", p(i)); }
    if (prob) { Mat P = nb.predict_prob(Q), L = nb.predict_log_prob(Q); if (!shapeIs("one-probability-per-class", P, Q.rows(), C) || !shapeIs("one-log-probability-per-class", L, Q.rows(), C)) return; double t(0); for (int c = 0; c < C; ++c) { t += P(i, c); double se(0); for (int q = 0; q < C; ++q) se += std::exp(s[q] - s[c]); vf::check("probability-is-normalised-posterior", vf::eq(P(i, c) * se, double(1))); vf::check("log-probability-matches", vf::eq(std::exp(L(i, c)), P(i, c))); } vf::check("probabilities-sum-to-one", vf::eq(t, double(1))); } }
  vf::reach("end");
}
VFQ("fit1", fitOnly(3, 1, 2, false), "any 3x1 data, 2 classes") VFQ("fit2", fitOnly(4, 2, 2, false), "any 4x2 data, 2 classes") VFQ("fit3", fitOnly(3, 1, 3, false), "3 classes") VFQ("refit", fitOnly(3, 1, 2, true), "second fit")
VFQ("pred1", use(fixedX(4, 1), 2, 0x44, false, 20), "fixed 4x1 training set, any two queries") VFQ("pred2", use(fixedX(4, 2), 2, 0x50, false, 20), "fixed 4x2 training set") VFQ("pred3", use(fixedX(6, 1), 3, 0xa50, false, 20), "3 classes") VFQ("predall", use(fixedX(4, 1), 2, -1, false, 20), "every class assignment")
VFQ("prob1", use(line4(), 2, 0x50, true, 3, 0), "probabilities of any query, 1 feature") VFQ("prob2", use(fixedX(4, 2), 2, 0x50, true, 3), "probabilities, 2 features") 
VFT("predx", use(symMat("x", 4, 1, -4, 4), 2, 0x50, false, 4), "any 4x1 training set and queries") VFT("fit5", fitOnly(5, 2, 3, false), "5x2, 3 classes") VFT("prob3", use(line6(), 3, 0xa50, true, 3, 0), "3 classes")
