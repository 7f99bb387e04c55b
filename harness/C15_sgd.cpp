#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "core/optimizer/sgd/decay_policies/exponential_decay.hpp"
#include "core/optimizer/sgd/update_policies/momentum_update.hpp"
#include "util.hpp"
#include "probe.hpp"
using namespace openml;
static double clipSpec(const double& g) { return vmax(vmin(g, double(1e10)), double(-1e10)); }
struct Cfg { int n, B, d, iters, patience; bool shuffle; int step; };
// any loss oracle: every iterate, batch, stopping decision and the result follow mini-batch gradient descent
static void run(Cfg c, bool big = false) {
  vf::encodes("optimizer::SGD::optimize, optimizer::BaseOptimizer::get_coef, optimizer::VanillaUpdate::update, optimizer::StepDecay::compute, common::clip, random::shuffle_data");
  plog.clear(); pdim = c.d; pglim = big ? 100000000000L : 4;
  double lr0 = vf::real("lr", 0, 1), gamma = vf::real("gamma", 0, 1), tol = vf::real("tol", 0, 1);
  Vec w0 = symVec("w", c.d, -4, 4); Mat X = tagX(c.n, c.d); Vec y = tagY(c.n);
  optimizer::SGD<double, Probe, optimizer::VanillaUpdate<double>, optimizer::StepDecay<double>> opt(w0, Probe(), optimizer::VanillaUpdate<double>(), optimizer::StepDecay<double>(lr0, gamma, c.step), c.iters, c.B, c.patience, tol, c.shuffle, false);
  bool thrown = false; try { opt.optimize(X, y); } catch (const std::runtime_error&) { thrown = true; }
  int nb = c.n / c.B; Vec W = w0; double best(0); bool haveBest = false; int bad = 0; size_t k = 0; bool conv = false;
  for (int e = 0; e < c.iters && !conv; ++e) {
    if (!checkEpochBatches(k, nb, c.B, c.n, c.shuffle)) return;
    double lr = optimizer::StepDecay<double>(lr0, gamma, c.step).compute(e);
    double sum(0);
    for (int j = 0; j < nb; ++j) { const PCall &a = plog[k], &b = plog[k + 1]; k += 2; checkMatEq("gradient-at-current-iterate", a.W, W); for (int i = 0; i < c.d; ++i) W(i) = W(i) - lr * clipSpec(a.g(i)); checkMatEq("step-is-minus-lr-times-gradient", b.W, W); sum += b.f; }
    if (haveBest && vf::holds(vf::gt(sum, best - tol * double(c.B)))) ++bad; else bad = 0;
    if (!haveBest || vf::holds(vf::lt(sum, best))) { best = sum; haveBest = true; }
    if (bad >= c.patience) conv = true;
  }
  vf::check("stops-exactly-at-convergence", k == plog.size()); vf::check("throws-iff-not-converged", thrown == !conv);
  if (conv && !thrown) { checkMatEq("coefficient-is-last-iterate", opt.get_coef(), W); for (int i = 0; i < c.d; ++i) vf::out("w", W(i)); vf::reach("converged"); } else vf::reach("not-converged");
  vf::reach("end");
}
VFQ("i3", run({2, 1, 1, 3, 1, false, 2}), "2 samples, batch 1, 3 epochs, patience 1, any loss oracle") VFQ("i4p2", run({2, 2, 2, 4, 2, false, 2}), "2 samples, batch 2, 2 features, 4 epochs, patience 2")
VFQ("shuf", run({3, 1, 1, 2, 1, true, 1}), "3 samples, batch 1, every shuffle, 2 epochs") VFQ("rest", run({3, 2, 1, 2, 1, true, 10}), "3 samples, batch 2 (one left over), every shuffle") VFQ("clip", run({1, 1, 1, 2, 1, false, 10}, true), "gradients up to 1e11: clipped at 1e10") 
VFT("i6p3", run({2, 1, 1, 6, 3, false, 2}), "6 epochs, patience 3") VFT("shuf4", run({4, 2, 1, 2, 1, true, 1}), "4 samples, batch 2, every shuffle")
