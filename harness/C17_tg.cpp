#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
#include "probe.hpp"
using namespace openml;
static double clipSpec(const double& g) { return vmax(vmin(g, double(1e10)), double(-1e10)); }
struct Cfg { int n, B, d, iters, patience; bool shuffle; };
static void run(Cfg c, bool lin = false) {
  vf::encodes("optimizer::TruncatedGradient::optimize, optimizer::TruncatedGradient::truncate, optimizer::VanillaUpdate::update, common::clip, random::shuffle_data");
  plog.clear(); pdim = c.d; pglim = 4;
  double lr0 = lin ? double(0.5) : vf::real("lr", 0, 1), tol = vf::real("tol", 0, 1), alpha = vf::real("alpha", 0, 2), l1 = lin ? double(0.25) : vf::real("l1", 0, 1);
  Vec w0 = symVec("w", c.d, -4, 4); Mat X = tagX(c.n, c.d); Vec y = tagY(c.n);
  optimizer::TruncatedGradient<double, Probe, optimizer::VanillaUpdate<double>, optimizer::StepDecay<double>> opt(w0, Probe(), optimizer::VanillaUpdate<double>(), optimizer::StepDecay<double>(lr0, 0.5, 1), c.iters, c.B, c.patience, tol, alpha, l1, c.shuffle, false);
  bool thrown = false; try { opt.optimize(X, y); } catch (const std::runtime_error&) { thrown = true; }
  int nb = c.n / c.B; Vec W = w0; double best(0), u(0); bool haveBest = false; int bad = 0; size_t k = 0; bool conv = false;
  for (int e = 0; e < c.iters && !conv; ++e) {
    if (!checkEpochBatches(k, nb, c.B, c.n, c.shuffle)) return;
    double lr = optimizer::StepDecay<double>(lr0, 0.5, 1).compute(e), sum(0);
    for (int j = 0; j < nb; ++j) { const PCall &a = plog[k], &b = plog[k + 1]; k += 2; checkMatEq("gradient-at-current-iterate", a.W, W); u += l1 * lr * alpha;
      for (int i = 0; i < c.d; ++i) { double g = W(i) - lr * clipSpec(a.g(i));
        // the plain gradient step, then shrunk towards zero by the accumulated penalty u, stopping at zero
        if (vf::holds(vf::gt(g, double(0)))) g = vf::ite(vf::gt(g, u), g - u, double(0)); else if (vf::holds(vf::lt(g, double(0)))) g = vf::ite(vf::lt(g, -u), g + u, double(0));
        W(i) = g; }
      checkMatEq("truncated-step", b.W, W); sum += b.f; }
    if (haveBest && vf::holds(vf::gt(sum, best - tol * double(c.B)))) ++bad; else bad = 0;
    if (!haveBest || vf::holds(vf::lt(sum, best))) { best = sum; haveBest = true; }
    if (bad >= c.patience) conv = true;
  }
  vf::check("stops-exactly-at-convergence", k == plog.size()); vf::check("throws-iff-not-converged", thrown == !conv);
  if (conv && !thrown) { checkMatEq("coefficient-is-last-iterate", opt.get_coef(), W); for (int i = 0; i < c.d; ++i) vf::out("w", W(i)); vf::reach("converged"); } else vf::reach("not-converged");
  vf::reach("end");
}
VFQ("i2", run({1, 1, 1, 3, 1, false}), "1 batch, 3 epochs, any loss oracle") VFQ("b2", run({2, 1, 1, 2, 1, false}, true), "2 batches, 2 epochs, lr 1/2, l1_ratio 1/4") VFQ("d2", run({2, 2, 2, 2, 1, false}), "2 features, 2 epochs") VFQ("shuf", run({2, 1, 1, 2, 1, true}, true), "2 samples, every shuffle, lr 1/2, l1_ratio 1/4")
VFT("b2s", run({2, 1, 1, 2, 1, false}), "2 batches, 2 epochs, any lr and l1_ratio") VFT("i4", run({1, 1, 1, 4, 2, false}), "4 epochs, patience 2") VFT("d3", run({2, 2, 3, 2, 1, false}), "3 features")
