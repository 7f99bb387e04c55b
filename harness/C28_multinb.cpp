#include "env.hpp"
#include "begin.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "util.hpp"
#include "linear.hpp"
using namespace openml;
using NB = naive_bayes::MultinomialNB<double>;
static const int LBL[3] = {-1, 2, 5};
static std::vector<int> classes(int n, int C) { std::vector<int> k(n); std::set<int> seen; for (int i = 0; i < n; ++i) { k[i] = vf::choose("class" + std::to_string(i), C); seen.insert(k[i]); } if ((int)seen.size() != C) vf::skip(); return k; }
static Vec lab(const std::vector<int>& k) { Vec y(k.size()); for (size_t i = 0; i < k.size(); ++i) y(i) = double(LBL[k[i]]); return y; }
static Mat counts(int n, int d) { Mat X = fixedX(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) if (X(i, j) < double(0)) X(i, j) = -X(i, j); return X; }
// X: counts (or any non-negative amounts); the smoothed share of feature j in class c is (sum over the class + alpha) / (all sums + alpha * features)
static void use(const Mat& X, int C, const double& al, int nq, bool prob, bool again) {
  vf::encodes("naive_bayes::MultinomialNB::fit, compute_feature_prob, compute_log_likelihood, joint_log_likelihood; BaseNB::compute_prior_prob, predict, predict_prob"); int n = X.rows(), d = X.cols(); auto k = classes(n, C); NB nb(al); if (again) nb.fit(counts(3, d), lab({0, 0, 0})); nb.fit(X, lab(k));
  Vec cl = nb.get_classes(), pr = nb.get_prior_prob(); Mat fc = nb.get_features_count(); vf::check("classes", cl.size() == C && pr.size() == C); if (cl.size() != C || pr.size() != C || !shapeIs("feature-count-shape", fc, C, d)) return;
  std::vector<SVec> th(C); SVec prior;
  for (int c = 0; c < C; ++c) { int nc = 0; for (int v : k) nc += v == c; prior.push_back(double(nc) / double(n)); vf::check("classes-ascending", vf::eq(cl(c), double(LBL[c]))); vf::check("prior-is-class-frequency", vf::eq(pr(c), prior[c])); double tot(0); SVec s;
    for (int j = 0; j < d; ++j) { double t(0); for (int i = 0; i < n; ++i) if (k[i] == c) t += X(i, j); s.push_back(t); tot += t; vf::check("feature-count-is-class-sum", vf::eq(fc(c, j), t)); vf::out("f", t); }
    for (int j = 0; j < d; ++j) th[c].push_back((s[j] + al) / (tot + al * double(d))); }
  if (!nq) { vf::reach("end"); return; }
  Mat Q(nq, d); for (int i = 0; i < nq; ++i) for (int j = 0; j < d; ++j) Q(i, j) = vf::real("q" + std::to_string(i) + "_" + std::to_string(j), 0, 4); Vec p = nb.predict(Q); vf::check("one-prediction-per-row", p.size() == nq); if (p.size() != nq) return;
  for (int i = 0; i < nq; ++i) { SVec s; for (int c = 0; c < C; ++c) { double t = std::log(prior[c]); for (int j = 0; j < d; ++j) t += Q(i, j) * std::log(th[c][j]); s.push_back(t); }
    SB r(false); for (int c = 0; c < C; ++c) { SB best = vf::eq(p(i), double(LBL[c])); for (int q = 0; q < C; ++q) best = best & (q < c ? vf::gt(s[c], s[q]) : vf::ge(s[c], s[q])); r = r | best; } vf::check("predicts-label-of-largest-posterior", r); vf::out("p", p(i));
    if (prob) { Mat P = nb.predict_prob(Q); if (!shapeIs("one-probability-per-class", P, nq, C)) return; double t(0); for (int c = 0; c < C; ++c) { t += P(i, c); double se(0); for (int q = 0; q < C; ++q) se += std::exp(s[q] - s[c]); vf::check("probability-is-normalised-posterior", vf::eq(P(i, c) * se, double(1))); } vf::check("probabilities-sum-to-one", vf::eq(t, double(1))); } }
  vf::reach("end");
}
static double pos(const char* n, int hi) { double a = vf::real(n, 0, hi); vf::assume(vf::gt(a, double(0))); return a; }
static void dflt() { Mat X = counts(3, 2); NB a, b(10); auto k = classes(3, 2); a.fit(X, lab(k)); b.fit(X, lab(k)); Mat Q = symMat("q", 1, 2, 0, 4); checkMatEq("default-smoothing-is-ten", a.predict_log_prob(Q), b.predict_log_prob(Q)); vf::reach("end"); }
VFQ("fit", use(symMat("x", 3, 2, 0, 4), 2, 1, 0, false, false), "any non-negative 3x2 amounts, 2 classes") VFQ("fit3", use(symMat("x", 4, 2, 0, 4), 3, 1, 0, false, false), "4x2, 3 classes") VFQ("refit", use(symMat("x", 3, 2, 0, 4), 2, 1, 0, false, true), "second fit")
VFQ("pred", use(counts(3, 2), 2, 1, 2, false, false), "fixed counts, any two queries, every class assignment") VFQ("pred3", use(counts(4, 2), 3, 1, 1, false, false), "3 classes") VFQ("alpha", use(counts(3, 2), 2, pos("alpha", 4), 1, false, false), "any smoothing") VFQ("any", use(symMat("x", 2, 2, 0, 4), 2, 0.5, 1, false, false), "any amounts and query") VFQ("prob", use(counts(3, 2), 2, 1, 1, true, false), "probabilities of any query") VFQ("dflt", dflt(), "default smoothing")
VFT("pred43", use(counts(4, 3), 2, 1, 1, true, false), "4x3 counts") VFT("fit5", use(symMat("x", 5, 3, 0, 4), 3, 1, 0, false, false), "5x3, 3 classes")  VFT("anyp", use(symMat("x", 3, 2, 0, 4), 2, 0.5, 1, false, false), "any 3x2 amounts and query")
