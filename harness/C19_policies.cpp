#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "core/optimizer/sgd/decay_policies/exponential_decay.hpp"
#include "core/optimizer/sgd/update_policies/momentum_update.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
#include "util.hpp"
#include "probe.hpp"
using namespace openml;
static void stepd(int step, int epochs) {
  vf::encodes("optimizer::StepDecay::compute"); double lr = vf::real("lr", 0, 4), g = vf::real("gamma", 0, 1); optimizer::StepDecay<double> D(lr, g, step);
  for (int e = 0; e < epochs; ++e) { double want = lr; for (int q = 0; q < e / step; ++q) want *= g; double got = D.compute(e); vf::check("formula", vf::eq(got, want)); vf::out("lr", got); if (e) vf::check("never-increases", vf::le(got, D.compute(e - 1))); }
  vf::reach("end");
}
static void expd(int epochs) {
  vf::encodes("optimizer::ExponentialDecay::compute"); double lr = vf::real("lr", 0, 4), g = vf::real("gamma", 0, 2); optimizer::ExponentialDecay<double> D(lr, g);
  for (int e = 0; e < epochs; ++e) { double got = D.compute(e); vf::check("formula", vf::eq(got * std::exp(g * double(e)), lr)); vf::out("lr", got); vf::check("within-0-and-base", vf::ge(got, double(0)) & vf::le(got, lr)); if (e) vf::check("never-increases", vf::le(got, D.compute(e - 1))); }
  vf::reach("end");
}
// parameters left out: base rate 0.1, factor and rate 0.5, ten epochs per step
static void dflt(bool base, int epochs) {
  vf::encodes("optimizer::StepDecay, optimizer::ExponentialDecay (default parameters)"); double lr = base ? double(0.1) : vf::real("lr", 0, 4); optimizer::StepDecay<double> S = base ? optimizer::StepDecay<double>() : optimizer::StepDecay<double>(lr); optimizer::ExponentialDecay<double> E = base ? optimizer::ExponentialDecay<double>() : optimizer::ExponentialDecay<double>(lr);
  for (int e = 0; e < epochs; ++e) { double want = lr; for (int q = 0; q < e / 10; ++q) want *= double(0.5); double got = S.compute(e), ex = E.compute(e); vf::check("formula", vf::eq(got, want)); vf::check("formula", vf::eq(ex * std::exp(double(0.5) * double(e)), lr)); vf::out("lr", got); }
  if (!base) { double g = vf::real("gamma", 0, 1); optimizer::StepDecay<double> T(lr, g); for (int e = 0; e < epochs; ++e) { double want = lr; for (int q = 0; q < e / 10; ++q) want *= g; vf::check("formula", vf::eq(T.compute(e), want)); } }
  vf::reach("end");
}
static void vanilla(int r, int c) { vf::encodes("optimizer::VanillaUpdate::update"); optimizer::VanillaUpdate<double> U; Mat W = symMat("w", r, c), g = symMat("g", r, c); double lr = vf::real("lr", 0, 4);
  Mat N = U.update(W, g, lr); if (!shapeIs("shape", N, r, c)) return; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { vf::check("formula", vf::eq(N(i, j), W(i, j) - lr * g(i, j))); vf::out("w", N(i, j)); } vf::reach("end"); }
template <class P> static void mom(int r, int c, int steps, bool nest) {
  vf::encodes(nest ? "optimizer::NesterovMomentumUpdate::update" : "optimizer::MomentumUpdate::update"); double mu = vf::real("mu", 0, 1); P U(mu); Mat W = symMat("w", r, c), V(r, c); V.setZero();
  for (int s = 0; s < steps; ++s) { Mat g = symMat("g" + std::to_string(s) + "_", r, c); double lr = vf::real("lr", 0, 4); Mat N = U.update(W, g, lr); if (!shapeIs("shape", N, r, c)) return;
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { double v = mu * V(i, j) + lr * g(i, j), st = nest ? v + mu * (v - V(i, j)) : v; vf::check("velocity-recurrence", vf::eq(N(i, j), W(i, j) - st)); V(i, j) = v; vf::out("w", N(i, j)); } W = N; }
  vf::reach("end");
}
// a fresh optimizer driven by the momentum policy: the same recurrence across mini-batches and epochs
static void sgdmom() {
  vf::encodes("optimizer::SGD::optimize, optimizer::MomentumUpdate::update"); plog.clear(); pdim = 1; pglim = 4; double mu = vf::real("mu", 0, 1), lr = vf::real("lr", 0, 1);
  Vec w0 = symVec("w", 1); optimizer::SGD<double, Probe, optimizer::MomentumUpdate<double>, optimizer::ExponentialDecay<double>> opt(w0, Probe(), optimizer::MomentumUpdate<double>(mu), optimizer::ExponentialDecay<double>(lr, double(0)), 2, 1, 1, 0.0, false, false);
  try { opt.optimize(tagX(2, 1), tagY(2)); } catch (const std::runtime_error&) {}
  double W = w0(0), V(0); for (size_t k = 0; k + 1 < plog.size(); k += 2) { V = mu * V + lr * plog[k].g(0); W = W - V; vf::check("velocity-across-batches", vf::eq(plog[k + 1].W(0), W)); } vf::check("two-epochs", plog.size() == 8); vf::reach("end");
}
// epochs far along, where a count kept in a narrow type or capped would show
static void far(int step, bool expo) {
  vf::encodes("optimizer::StepDecay::compute, optimizer::ExponentialDecay::compute"); double lr = vf::real("lr", 0, 4), g = vf::real("gamma", 0, 1); optimizer::StepDecay<double> D(lr, g, step); optimizer::ExponentialDecay<double> E(lr, g);
  for (long e : {20, 31, 32, 33, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 150, 199, 200, 255, 256, 257, 300, 500, 511, 512, 999, 1000, 1001, 1024, 5000, 10000, 32767, 32768, 65535, 65536, 65537}) {
    if (!expo && e / step <= 1024) { double want = lr; for (long q = 0; q < e / step; ++q) want *= g; double got = D.compute(e); vf::check("formula", vf::eq(got, want)); vf::check("never-increases", vf::le(got, lr)); }
    if (expo) { double got = E.compute(e); vf::check("formula", vf::eq(got * std::exp(g * double(e)), lr)); vf::check("within-0-and-base", vf::ge(got, double(0)) & vf::le(got, lr)); } }
  vf::reach("end");
}
VFQ("far1", far(1, false), "step 1, 26 epochs up to 1024") VFQ("far10", far(10, false), "step 10, 29 epochs up to 10000") VFQ("far64", far(64, false), "step 64, 35 epochs up to 65537") VFQ("farx", far(1, true), "35 epochs up to 65537") VFQ("exp20q", expd(20), "epochs 0..19") VFQ("step1l", stepd(1, 40), "step 1, epochs 0..39") VFQ("step1", stepd(1, 6), "step 1, epochs 0..5") VFQ("step3", stepd(3, 10), "step 3, epochs 0..9") VFQ("step10", stepd(10, 32), "step 10, epochs 0..31") VFQ("exp", expd(6), "epochs 0..5") VFQ("dflt", dflt(true, 22), "no parameters given, epochs 0..21") VFQ("dfltg", dflt(false, 32), "base rate only, base rate and factor, epochs 0..31") VFQ("van", vanilla(2, 2), "2x2") VFQ("mom", mom<optimizer::MomentumUpdate<double>>(2, 1, 3, false), "2x1, 3 updates") VFQ("mom22", mom<optimizer::MomentumUpdate<double>>(2, 2, 2, false), "2x2, 2 updates") VFQ("nest", mom<optimizer::NesterovMomentumUpdate<double>>(2, 1, 3, true), "2x1, 3 updates") VFQ("sgdmom", sgdmom(), "SGD with momentum, 2 batches, 2 epochs")
VFT("exp60", expd(60), "epochs 0..59") VFT("mom5", mom<optimizer::MomentumUpdate<double>>(3, 2, 5, false), "3x2, 5 updates") VFT("nest5", mom<optimizer::NesterovMomentumUpdate<double>>(3, 2, 5, true), "3x2, 5 updates") VFT("step2", stepd(2, 40), "step 2, 40 epochs")
