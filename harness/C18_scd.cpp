#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
#include "probe.hpp"
using namespace openml;
// smooth part has curvature at most beta: the model decrease of moving w to z
static double descent(const double& w, const double& g, const double& z, const double& beta, const double& lam) { double e = z - w; return -(e * g) - beta / double(2) * e * e - lam * vabs(z) + lam * vabs(w); }
static void run(int n, int d, int iters, bool shuffle, bool symBeta = false) {
  vf::encodes("optimizer::SCD::optimize, random::shuffle_data"); plog.clear(); pdim = d; pglim = 4;
  double beta = symBeta ? vf::real("beta", 0, 4) : double(std::vector<int>{1, 2, 6}[vf::choose("beta", 3)]) / double(2), lam = vf::real("lambda", 0, 2); vf::assume(vf::gt(beta, double(0)));
  Vec w0 = symVec("w", d, -4, 4); Mat X = tagX(n, d); Vec y = tagY(n);
  optimizer::SCD<double, Probe> opt(w0, Probe(), iters, beta, lam, shuffle, false);
  opt.optimize(X, y); plog.erase(std::remove_if(plog.begin(), plog.end(), [](const PCall& c) { return !c.isGrad; }), plog.end()); Mat Wend = opt.get_coef(); vf::check("one-gradient-per-iteration", plog.size() == (size_t)iters); if (plog.size() != (size_t)iters) return;
  for (int t = 0; t < iters; ++t) {
    const PCall& a = plog[t]; if (t == 0) checkMatEq("starts-at-initial-weights", a.W, w0);
    vf::check("all-samples", a.X.rows() == n && a.y.size() == n); std::set<int> seen; for (int r = 0; r < n && r < a.X.rows(); ++r) { int q = rowTag(a.X, r, a.y, n); vf::check("rows-are-aligned-samples", q >= 0 && seen.insert(q).second); }
    Mat nx = t + 1 < iters ? Mat(plog[t + 1].W) : Wend; if (!shapeIs("shape", nx, d, 1)) return;
    // coordinate minimisers (soft thresholding) and their model decrease
    SVec z(d), dec(d); for (int j = 0; j < d; ++j) { double v = a.W(j) - a.g(j) / beta, th = lam / beta; z[j] = vf::ite(vf::gt(v, th), v - th, vf::ite(vf::lt(v, -th), v + th, double(0))); dec[j] = descent(a.W(j), a.g(j), z[j], beta, lam); }
    SB some(false);
    for (int j = 0; j < d; ++j) { SB one_(vf::eq(nx(j, 0), z[j])); for (int i = 0; i < d; ++i) if (i != j) one_ = one_ & vf::eq(nx(i, 0), a.W(i)); SB best(true); for (int i = 0; i < d; ++i) best = best & vf::ge(dec[j], dec[i]); some = some | (one_ & best); }
    vf::check("best-coordinate-to-its-soft-threshold", some);
    for (int j = 0; j < d; ++j) vf::out("w", nx(j, 0));
  }
  vf::reach("end");
}
VFQ("d1", run(2, 1, 2, false), "1 feature, 2 iterations, beta in {1/2,1,3}, any gradient oracle") VFQ("d2", run(1, 2, 1, false), "2 features, 1 iteration, beta in {1/2,1,3}") VFQ("shuf", run(3, 1, 1, true), "3 samples, every shuffle")
VFT("beta", run(1, 1, 1, false, true), "1 feature, any beta in (0,4]") VFT("d2i2", run(1, 2, 2, false), "2 features, 2 iterations") VFT("d3", run(1, 3, 1, false), "3 features, 1 iteration")
