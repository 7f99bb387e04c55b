#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
#include "probe.hpp"
using namespace openml;
using P = optimizer::LineSearchParams<double>;
static double dot(const Vec& a, const Vec& b) { double s(0); for (int i = 0; i < a.size(); ++i) s += a(i) * b(i); return s; }
static double tmax1(const double& a) { return vf::holds(vf::lt(a, double(1))) ? double(1) : a; }
struct Cfg { int dim, iters, mem, past, maxls; bool bracketing; int cond; int fix = 0; bool notol = false; int line = -1; };
static void run(Cfg c) {
  vf::encodes("optimizer::LBFGS::optimize, optimizer::LineSearchBacktracking::search, optimizer::LineSearchBracketing::search"); plog.clear(); pdim = c.dim; pglim = 4;
  pfixCalls = c.fix; plineCall = c.line; pfix = c.dim == 1 ? std::vector<std::vector<int>>(c.iters > 3 ? std::vector<std::vector<int>>{{-1}, {2}} : std::vector<std::vector<int>>{{-4}, {-1}, {1}, {2}}) : (c.fix == 1 ? std::vector<std::vector<int>>{{-3, 4}} : c.line >= 0 ? std::vector<std::vector<int>>{{3, 4}, {0, 1}} : std::vector<std::vector<int>>{{3, 4}, {-4, 3}, {0, 1}}); double tol = c.notol ? double(0) : vf::real("tol", 0, 1), delta = vf::real("delta", 0, 1); P prm(double(0.25), double(0.5), c.maxls, c.cond ? "WOLFE" : "ARMIJO");
  Vec x = symVec("x", c.dim, -4, 4), x0 = x; Mat X = tagX(2, 1); Vec y = tagY(2);
  optimizer::LBFGS<double, Probe, P> opt(x0, Probe(), prm, c.iters, c.mem, c.past, tol, delta, c.bracketing ? "bracketing" : "backtracking", false, false);
  opt.optimize(X, y); Mat res = opt.get_coef(); if (!shapeIs("coefficient-shape", res, c.dim, 1)) return;
  evalFirst(); size_t k = 0; auto more = [&] { return k + 1 < plog.size(); };
  if (plog.size() < 2 || plog[0].isGrad || !plog[1].isGrad) { vf::fail("starts-by-evaluating"); return; }
  for (int i = 0; i < c.dim; ++i) vf::check("starts-at-initial-point", vf::eq(plog[0].W(i), x0(i)) & vf::eq(plog[1].W(i), x0(i)));
  double fx = plog[0].f, f0 = fx; Vec g = plog[1].g; k = 2; std::vector<Vec> S, Y; std::vector<double> hist{fx}; bool stopped = false;
  auto small = [&](const Vec& xx, const Vec& gg) { double xn = tmax1(std::sqrt(dot(xx, xx))); return vf::holds(vf::le(std::sqrt(dot(gg, gg)), tol * xn)); };
  if (small(x, g)) stopped = true;
  int it = 0;
  while (!stopped) {
    ++it; vf::check("respects-max-iter", it <= c.iters); if (it > c.iters) return;
    // search direction: minus the dense BFGS inverse-Hessian approximation times the gradient
    Vec d = -g; double step(1);
    if (S.empty()) step = double(1) / std::sqrt(dot(g, g));
    else {
      for (size_t j = 0; j < S.size(); ++j) if (vf::holds(vf::eq(dot(S[j], Y[j]), double(0)))) vf::skip();      // curvature condition not met: BFGS undefined
      int n = c.dim; Mat H(n, n); H.setZero(); double gam = dot(S.back(), Y.back()) / dot(Y.back(), Y.back()); for (int i = 0; i < n; ++i) H(i, i) = gam;
      for (size_t j = 0; j < S.size(); ++j) { double rho = double(1) / dot(S[j], Y[j]); Mat A(n, n), B(n, n); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) A(p, q) = double(p == q) - rho * S[j](p) * Y[j](q);
        B.setZero(); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) for (int t = 0; t < n; ++t) B(p, q) += A(p, r) * H(r, t) * A(q, t);
        for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) H(p, q) = B(p, q) + rho * S[j](p) * S[j](q); }
      for (int p = 0; p < n; ++p) { d(p) = 0; for (int q = 0; q < n; ++q) d(p) -= H(p, q) * g(q); }
    }
    double dg0 = dot(d, g); if (vf::holds(vf::gt(dg0, double(0)))) { stopped = true; break; }     // not a descent direction: stays at the current point
    bool ok = false; double s = step, lo(0), hi(0), fn(0); bool haveHi = false; Vec xn, gn;
    for (int t = 0; t < c.maxls && !ok; ++t) {
      if (!more()) { vf::fail("line-search-tries-until-limit"); return; }
      const PCall &e = plog[k], &q = plog[k + 1]; k += 2; xn = x; for (int i = 0; i < c.dim; ++i) xn(i) = x(i) + s * d(i);
      for (int i = 0; i < c.dim; ++i) vf::check("trial-point-follows-bfgs-direction", vf::eq(e.W(i), xn(i)));
      bool arm = vf::holds(vf::le(e.f, fx + s * double(0.25) * dg0)), low = arm && c.cond && vf::holds(vf::lt(dot(d, q.g), double(0.5) * dg0));
      if (arm && !low) { ok = true; fn = e.f; gn = q.g; }
      else if (c.bracketing) { if (!arm) { hi = s; haveHi = true; } else lo = s; s = haveHi ? (lo + hi) / double(2) : double(2) * s; } else s = s * (arm ? double(2.1) : double(0.5));
    }
    if (!ok) { stopped = true; break; }
    if (c.dim == 1) vf::check("objective-never-increases", vf::le(fn, fx));
    Vec sv = x, yv = x; for (int i = 0; i < c.dim; ++i) { sv(i) = xn(i) - x(i); yv(i) = gn(i) - g(i); }
    S.push_back(sv); Y.push_back(yv); if ((int)S.size() > c.mem) { S.erase(S.begin()); Y.erase(Y.begin()); }
    x = xn; g = gn; fx = fn; hist.push_back(fx);
    if (small(x, g)) { stopped = true; break; }
    if (c.past > 0 && it >= c.past) { double old = hist[it - c.past]; if (vf::holds(vf::lt(vabs(old - fx), delta * vmax(vabs(fx), double(1))))) { stopped = true; break; } }
    if (it >= c.iters) stopped = true;
  }
  vf::check("stops-exactly-when-documented", k == plog.size());
  for (int i = 0; i < c.dim; ++i) { vf::check("returns-last-accepted-point", vf::eq(res(i, 0), x(i))); vf::out("x", res(i, 0)); }
  if (c.dim == 1) vf::check("no-worse-than-start", vf::le(fx, f0)); if (it > 1) vf::reach("two-iterations"); vf::reach("end");
}
VFQ("i2", run({1, 2, 3, 0, 1, false, 0, 0, true}), "1 dimension, 2 iterations, past 0, any oracle, tol 0") VFQ("tol", run({1, 2, 3, 0, 1, false, 0, 2}), "1 dimension, any tol, gradients from {-4,-1,1,2}, then any") VFQ("past1", run({1, 2, 3, 1, 1, false, 0, 3}), "past 1, gradients from {-4,-1,1,2}") VFQ("past2", run({1, 3, 2, 2, 1, false, 0, 4, true}), "past 2, 3 iterations, gradients from {-4,-1,1,2}, any objective values") VFQ("past3", run({1, 4, 2, 3, 1, true, 0, 5, true}), "past 3, 4 iterations, gradients from {-1,2}") VFQ("d2", run({2, 2, 3, 0, 1, false, 0, 1, true}), "2 dimensions, one memory pair, first gradient (-3,4), then any") VFQ("wolfe", run({1, 2, 2, 0, 2, true, 1, 3}), "bracketing with the Wolfe condition")
VFQ("d2m", run({2, 3, 2, 0, 1, false, 0, 2, true, 2}), "2 dimensions, two memory pairs, gradients fixed, fixed, on a line") VFT("i2s", run({1, 2, 3, 0, 1, false, 0}), "1 dimension, 2 iterations, any oracle, any tol") VFT("past1s", run({1, 2, 3, 1, 1, false, 0}), "past 1, any oracle") VFT("mem1", run({2, 3, 1, 0, 1, false, 0, 2, true}), "2 dimensions, 3 iterations, memory 1") VFT("mem2", run({2, 3, 2, 0, 1, false, 0, 2, true}), "2 dimensions, two memory pairs") VFT("past2l", run({1, 4, 2, 2, 1, false, 0, 5}), "past 2, 4 iterations")
