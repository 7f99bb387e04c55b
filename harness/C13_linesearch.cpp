#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
#include "probe.hpp"
using namespace openml;
using P = optimizer::LineSearchParams<double>;
static double dot(const Vec& a, const Vec& b) { double s(0); for (int i = 0; i < a.size(); ++i) s += a(i) * b(i); return s; }
// every objective/gradient oracle, every start: what an accepted step guarantees and when the search may give up
template <template <class, class, class> class LS> static void run(int dim, int cond, int maxls, bool bracketing) {
  vf::encodes(bracketing ? "optimizer::LineSearchBracketing::search" : "optimizer::LineSearchBacktracking::search"); plog.clear(); pdim = dim; pglim = 4;
  const char* names[] = {"ARMIJO", "WOLFE", "STRONG_WOLFE"}; double dec = vf::real("dec", 0, 1), inc = vf::real("inc", 1, 4), ftol = vf::real("ftol", 0, 1), wolfe = vf::real("wolfe", 0, 1), maxs = vf::real("maxstep", 0, 8), mins = vf::real("minstep", 0, 1);
  vf::assume(vf::lt(double(0), ftol) & vf::lt(ftol, wolfe) & vf::lt(wolfe, double(1)) & vf::lt(double(0), dec) & vf::lt(dec, double(1)) & vf::lt(double(1), inc)); vf::assume(vf::lt(mins, maxs));
  P prm(dec, inc, ftol, wolfe, maxs, mins, maxls, names[cond]);
  Mat X = tagX(1, 1); Vec y = tagY(1), xp = symVec("x", dim, -4, 4), g = symVec("g", dim, -4, 4), d = symVec("d", dim, -4, 4), x = xp; double fx = vf::real("fx", -8, 8), step = vf::real("step", -1, 4);
  const Vec gp = g; const double f0 = fx, step0 = step, dg0 = dot(d, g);
  LS<double, Probe, P> ls(X, y, Probe(), prm); int ret = ls.search(x, fx, g, d, step, xp, gp);
  evalFirst(); int n = plog.size() / 2; vf::check("evaluations-bounded", n <= maxls);
  double s = step0, lo(0), hi(0); bool haveHi = false;
  for (int k = 0; k < n; ++k) {
    const PCall &e = plog[2 * k], &q = plog[2 * k + 1]; for (int i = 0; i < dim; ++i) vf::check("trial-point-is-x-plus-step-d", vf::eq(e.W(i), xp(i) + s * d(i)) & vf::eq(q.W(i), xp(i) + s * d(i)));
    double dg = dot(d, q.g); bool arm = vf::holds(vf::le(e.f, f0 + s * ftol * dg0)), low = false, high = !arm;
    if (arm && cond > 0) { low = vf::holds(vf::lt(dg, wolfe * dg0)); if (!low && cond == 2) high = vf::holds(vf::gt(dg, -(wolfe * dg0))); }
    if (k == n - 1) {
      if (ret > 0) {
        vf::check("accepted-step-is-last-trial", ret == n && !low && !high); vf::check("sufficient-decrease", vf::le(fx, f0 + step * ftol * dg0));
        if (cond > 0) vf::check("curvature", vf::ge(dot(d, g), wolfe * dg0)); if (cond == 2) vf::check("strong-curvature", vf::le(vabs(dot(d, g)), -(wolfe * dg0)));
        vf::check("returned-values-belong-to-the-step", vf::eq(fx, e.f) & vf::eq(step, s)); for (int i = 0; i < dim; ++i) vf::check("returned-values-belong-to-the-step", vf::eq(g(i), q.g(i)) & vf::eq(x(i), xp(i) + s * d(i)));
      } else vf::check("gives-up-only-at-its-limits", (low || high) ? SB(n == maxls) | vf::lt(s, mins) | vf::gt(s, maxs) : SB(false));
      break;
    }
    vf::check("continues-only-when-rejected", low || high);
    if (bracketing) { if (high) { hi = s; haveHi = true; } else lo = s; s = haveHi ? (lo + hi) / double(2) : double(2) * s; } else s = s * (high ? dec : inc);
  }
  if (n == 0) { vf::check("rejects-only-bad-input", vf::le(step0, double(0)) | vf::gt(dg0, double(0))); vf::check("failure-is-negative", ret < 0); }
  else vf::check("bad-input-rejected", vf::gt(step0, double(0)) & vf::le(dg0, double(0)));
  vf::out("ret", double(ret)); if (ret > 0) vf::reach("accepted"); vf::reach("end");
}
#define BT optimizer::LineSearchBacktracking
#define BR optimizer::LineSearchBracketing
VFQ("bt_a", run<BT>(1, 0, 3, false), "backtracking, Armijo, <=3 trials, any oracle") VFQ("bt_w", run<BT>(1, 1, 3, false), "backtracking, Wolfe") VFQ("bt_s", run<BT>(1, 2, 2, false), "backtracking, strong Wolfe") VFQ("br_a", run<BR>(1, 0, 3, true), "bracketing, Armijo") VFQ("br_w", run<BR>(1, 1, 3, true), "bracketing, Wolfe") VFQ("br_s", run<BR>(1, 2, 3, true), "bracketing, strong Wolfe") VFQ("bt_s2", run<BT>(2, 2, 1, false), "2 dimensions")
VFT("bt_s3", run<BT>(1, 2, 3, false), "backtracking, strong Wolfe, 3 trials") VFT("br_s4", run<BR>(1, 2, 4, true), "bracketing, strong Wolfe, 4 trials") VFT("br_s2", run<BR>(2, 2, 2, true), "2 dimensions")
