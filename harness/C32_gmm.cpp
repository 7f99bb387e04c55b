#include "env.hpp"
#include "begin.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "util.hpp"
using namespace openml;
using GM = mixture_model::GaussianMixture<double>;
struct Par { std::vector<Mat> cov; Mat mu; Vec w; double lb; };
static Mat inv(const Mat& c) { Mat r(c.rows(), c.rows()); if (c.rows() == 1) r(0, 0) = double(1) / c(0, 0); else { double d = c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0); r << c(1, 1) / d, -c(0, 1) / d, -c(1, 0) / d, c(0, 0) / d; } return r; }
static double det(const Mat& c) { return c.rows() == 1 ? c(0, 0) : c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0); }
static Par mstep(const Mat& X, const Mat& r, const double& reg, bool tied) {
  int n = X.rows(), d = X.cols(), k = r.cols(); Par p; p.mu = Mat(k, d); p.w = Vec(k); double e = double(10) * std::numeric_limits<double>::epsilon(); std::vector<Mat> raw; double tot(0); Mat pool(d, d); for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) { pool(a, b) = double(0); for (int i = 0; i < n; ++i) pool(a, b) += X(i, a) * X(i, b); }
  for (int c = 0; c < k; ++c) { double nk = e; for (int i = 0; i < n; ++i) nk += r(i, c); p.w(c) = nk / double(n); tot += nk; for (int j = 0; j < d; ++j) { double s(0); for (int i = 0; i < n; ++i) s += r(i, c) * X(i, j); p.mu(c, j) = s / nk; }
    Mat m(d, d); for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) { double s(0); for (int i = 0; i < n; ++i) s += r(i, c) * (X(i, a) - p.mu(c, a)) * (X(i, b) - p.mu(c, b)); m(a, b) = s / nk + (a == b ? reg : double(0)); pool(a, b) -= nk * p.mu(c, a) * p.mu(c, b); } p.cov.push_back(m); }
  if (tied) { for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) pool(a, b) = pool(a, b) / tot + (a == b ? reg : double(0)); p.cov.assign(1, pool); } return p; }
static double llik(const Par& p, const Mat& Q, int i, int c) { const Mat& s = p.cov[p.cov.size() == 1 ? 0 : c]; Mat v = inv(s); double q(0); int d = Q.cols(); for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) q += (Q(i, a) - p.mu(c, a)) * v(a, b) * (Q(i, b) - p.mu(c, b)); return std::log(p.w(c)) - (double(d) * double(std::log(2 * M_PI)) + std::log(det(s)) + q) / double(2); }
static double lse(const SVec& l) { double m = l[0]; for (auto& e : l) if (e > m) m = e; double t(0); for (auto& e : l) t += std::exp(e - m); return m + std::log(t); }
static Mat post(const Par& p, const Mat& Q, double* mean = nullptr, Mat* logs = nullptr) { int k = p.mu.rows(); Mat r(Q.rows(), k); double tot(0); if (logs) *logs = Mat(Q.rows(), k); for (int i = 0; i < Q.rows(); ++i) { SVec l; for (int c = 0; c < k; ++c) { l.push_back(llik(p, Q, i, c)); if (logs) (*logs)(i, c) = l.back(); } double t = lse(l); tot += t; for (int c = 0; c < k; ++c) r(i, c) = std::exp(l[c] - t); } if (mean) *mean = tot / double((int)Q.rows()); return r; }
static void run(const Mat& X, int k, const char* type, const double& reg, const Mat& Q, const SVec& u, bool again = false, int steps = 2) {
  vf::encodes("mixture_model::GaussianMixture::fit, initialize_parameters, e_step, m_step, estimate_gaussian_parameters, predict, predict_prob; math::cholesky, math::logsumexp, random::rand"); bool tied = std::string(type) == "tied"; int n = X.rows(), d = X.cols(); vf::exp_whole(true); vf::eps_zero();
  GM g(steps == 1 ? 1 : 3, 1, k, "random", type, std::numeric_limits<double>::infinity(), reg); auto feed = [&] { vf::unifix().clear(); vf::unilog().clear(); for (auto& v : u) vf::unifix().push_back(v); };
  if (again) { feed(); g.fit(X + Mat::Constant(n, d, double(1))); } feed(); if (steps == 1) checkThrows<std::runtime_error>("not-converged-is-reported", [&] { g.fit(X); }); else g.fit(X); auto& U = vf::unilog(); vf::check("one-draw-per-responsibility", (int)U.size() == n * k); if ((int)U.size() != n * k) return;
  Mat r(n, k); for (int i = 0; i < n; ++i) { double t(0); for (int c = 0; c < k; ++c) t += U[c * n + i]; for (int c = 0; c < k; ++c) r(i, c) = U[c * n + i] / t; }
  Par p = mstep(X, r, reg, tied); double L(0); for (int it = 0; it < steps; ++it) { r = post(p, X, &L); p = mstep(X, r, reg, tied); }
  Mat mu = g.get_means(); Vec w = g.get_weights(); auto cov = g.get_covariance(), prec = g.get_precisions(), ch = g.get_precisions_cholesky();
  if (!shapeIs("one-mean-per-component", mu, k, d)) return; vf::check("one-weight-per-component", w.size() == k); int nc = tied ? 1 : k; bool sz = (int)cov.size() == nc && (steps == 1 || (int)prec.size() == nc) && (int)ch.size() == nc; vf::check("one-covariance-per-component", sz); if (!sz || w.size() != k) return;
  if (steps > 1) vf::check("lower-bound-is-mean-log-likelihood", vf::le(g.get_lower_bound() - L, double(1e-9)) & vf::ge(g.get_lower_bound() - L, double(-1e-9)));
  double tw(0); for (int c = 0; c < k; ++c) { vf::check("weights-follow-em", vf::eq(w(c), p.w(c))); for (int j = 0; j < d; ++j) { vf::check("means-follow-em", vf::eq(mu(c, j), p.mu(c, j))); vf::out("mu", mu(c, j)); } }
  for (int c = 0; c < nc; ++c) { if (!shapeIs("covariance-shape", cov[c], d, d) || (steps > 1 && !shapeIs("precision-shape", prec[c], d, d))) return; Mat e = inv(p.cov[c]); for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) { vf::check("covariances-follow-em", vf::eq(cov[c](a, b), p.cov[c](a, b))); if (steps > 1) vf::check("precision-is-inverse-covariance", vf::eq(prec[c](a, b), e(a, b))); double s(0); for (int m = 0; m < d; ++m) s += ch[c](a, m) * ch[c](b, m); vf::check("precision-factor", vf::eq(s, e(a, b))); } }
  if (Q.rows()) { Vec l = g.predict(Q); Mat P = g.predict_prob(Q), G, E = post(p, Q, nullptr, &G); if (!shapeIs("one-probability-per-component", P, Q.rows(), k)) return; vf::check("one-label-per-row", l.size() == Q.rows()); for (int i = 0; i < Q.rows(); ++i) { for (int c = 0; c < k; ++c) { vf::check("probability-is-posterior", vf::eq(P(i, c), E(i, c))); } for (int c = 0; c < k; ++c) vf::check("label-has-largest-posterior", vf::imp(vf::eq(l(i), double(c)), [&] { SB b(true); for (int o = 0; o < k; ++o) b = b & vf::ge(G(i, c), G(i, o)); return b; }())); vf::out("l", l(i)); } }
  vf::reach("end");
}
static void few(int n, int k) { vf::encodes("mixture_model::GaussianMixture::fit"); GM g(3, 1, k, "random", "full", 1.0, 1.0); checkThrows<std::out_of_range>("too-few-samples-are-reported", [&] { g.fit(symMat("x", n, 1)); }); vf::reach("end"); }
static void stops(const Mat& X, int k, const SVec& u, const SVec& v, const double& tol, int iters) {
  vf::encodes("mixture_model::GaussianMixture::fit (convergence, restarts)"); vf::exp_whole(true); vf::eps_zero(); int n = X.rows(), best = -1; bool conv = false; double bestL(0); std::vector<Par> last; vf::unifix().clear(); vf::unilog().clear(); for (auto& e : u) vf::unifix().push_back(e); for (auto& e : v) vf::unifix().push_back(e); int inits = v.empty() ? 1 : 2;
  GM g(iters, inits, k, "random", "full", tol, 1.0); bool threw = false; try { g.fit(X); } catch (std::runtime_error&) { threw = true; }
  for (int t = 0; t < inits; ++t) { const SVec& U = t ? v : u; Mat r(n, k); for (int i = 0; i < n; ++i) { double s(0); for (int c = 0; c < k; ++c) s += U[c * n + i]; for (int c = 0; c < k; ++c) r(i, c) = U[c * n + i] / s; } Par p = mstep(X, r, double(1), false); double L(0), prev(0);
    for (int it = 0; it < iters; ++it) { prev = L; r = post(p, X, &L); p = mstep(X, r, double(1), false); if (it && vf::holds(vf::lt(vabs(L - prev), tol))) { conv = true; break; } } last.push_back(p); if (best < 0 || vf::holds(vf::gt(L, bestL))) { best = t; bestL = L; } }
  vf::check("reported-exactly-when-not-converged", threw == !conv); if (!threw && conv) { Mat mu = g.get_means(); Vec w = g.get_weights(); for (int c = 0; c < k; ++c) { vf::check("means-follow-em", vf::eq(mu(c, 0), last[best].mu(c, 0))); vf::check("weights-follow-em", vf::eq(w(c), last[best].w(c))); } } vf::reach("end"); }
static Mat col(std::vector<int> v, int d = 1) { Mat X(v.size() / d, d); for (size_t i = 0; i < v.size(); ++i) X(i / d, i % d) = double(v[i]); return X; }
static SVec draws(std::vector<int> v) { SVec r; for (int e : v) r.push_back(double(e) / double(8)); return r; }
VFQ("one1", run(symMat("x", 3, 1), 1, "full", vf::real("reg", 0.001, 2), symMat("q", 1, 1), draws({4, 4, 4})), "1 component, any 3 samples, regularisation and query") VFQ("one2", run(symMat("x", 2, 2), 1, "full", vf::real("reg", 0.001, 2), Mat(0, 2), draws({4, 4})), "1 component, 2 samples in 2-D")
VFQ("two", run(col({0, 2, 5}), 2, "full", double(1), symMat("q", 1, 1, -2, 2), draws({1, 3, 2, 5, 6, 2})), "2 components, 3 samples, any query") VFQ("re", run(col({0, 2}), 2, "full", double(1), symMat("q", 1, 1, -2, 2), draws({1, 3, 2, 5}), true), "second fit")
VFQ("d2", run(col({0, 2, 1, 1, 4, 0}, 2), 2, "full", double(1), Mat(0, 2), draws({1, 3, 2, 5, 6, 2}), false, 1), "2 components in 2-D, one step")
VFQ("reg2", run(col({0, 2}), 2, "full", vf::real("reg", 0.5, 2), Mat(0, 1), draws({1, 3, 2, 5}), false, 1), "2 components, any regularisation, one step")
VFQ("u2", run(col({0, 2}), 2, "full", double(1), Mat(0, 1), symSV("u", 4, 0.125, 1), false, 1), "2 components, any initial responsibilities, one step")
VFQ("x2", run(symMat("x", 2, 1), 2, "full", double(1), Mat(0, 1), draws({1, 3, 2, 5}), false, 1), "2 components, any 2 samples, one step")
VFQ("tied", run(col({0, 2}), 2, "tied", double(1), Mat(0, 1), draws({1, 3, 2, 5}), false, 1), "shared covariance")
VFQ("tied1", run(symMat("x", 2, 2), 1, "tied", double(1), Mat(0, 2), draws({4, 4}), false, 1), "shared covariance, 2-D, one component")
VFQ("tiedq1", run(col({0, 2}), 1, "tied", vf::real("reg", 0.5, 2), symMat("q", 1, 1, -2, 2), draws({1, 3}), false, 1), "shared covariance, any query")
VFQ("tied2d", run(col({0, 2, 1, 1}, 2), 2, "tied", double(1), Mat(0, 2), draws({1, 3, 3, 1}), false, 1), "shared covariance, 2-D, one step")
VFQ("few", few(2, 3), "fewer samples than components")
VFQ("tol", stops(col({0, 2}), 2, draws({1, 3, 2, 5}), {}, vf::real("tol", 0, 1), 2), "any tolerance")
VFQ("best", stops(col({0, 2}), 2, draws({1, 3, 2, 5}), draws({7, 1, 1, 7}), double(1), 2), "best of two starts")
VFQ("best2", stops(col({0, 2}), 2, draws({7, 1, 1, 7}), draws({1, 3, 2, 5}), double(1), 2), "best of two starts")
