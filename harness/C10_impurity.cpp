#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
using namespace openml;
// class probabilities by first principles: p_c = (sum of weights of class c) / n
static SVec probs(const Vec& x, const SVec& w) {
  int n = x.size(); SVec p; for (int i = 0; i < n; ++i) { SB first(true); for (int j = 0; j < i; ++j) first = first & vf::ne(x(i), x(j)); if (!vf::holds(first)) continue; double s(0); for (int j = 0; j < n; ++j) if (vf::holds(vf::eq(x(i), x(j)))) s += w[j]; p.push_back(s / double(n)); }
  return p;
}
static void run(int n, bool weighted, int classes) {
  vf::encodes("math::entropy, math::gini");
  Vec x(n); for (int i = 0; i < n; ++i) x(i) = vf::integer("x" + std::to_string(i), 0, classes - 1);
  Vec w; SVec ws(n, double(1)); if (weighted) { w.resize(n); for (int i = 0; i < n; ++i) ws[i] = w(i) = vf::real("w" + std::to_string(i), 0, 4), vf::assume(vf::gt(w(i), double(0))); }
  double H = weighted ? math::entropy<Vec>(x, w) : math::entropy<Vec>(x), G = weighted ? math::gini<Vec>(x, w) : math::gini<Vec>(x);
  SVec p = probs(x, ws); double h(0), g(1); for (auto& q : p) { h -= q * std::log2(q); g -= q * q; }
  vf::check("entropy", vf::eq(H, h)); vf::check("gini", vf::eq(G, g)); vf::out("h", H); vf::out("g", G);
  if (!weighted) { vf::check("gini-range", vf::ge(G, double(0)) & vf::lt(G, double(1))); if (p.size() == 1) vf::check("pure-is-zero", vf::eq(H, double(0)) & vf::eq(G, double(0))); }
  vf::reach("end");
}
static void bad() { Vec x = symVec("x", 3), w = symVec("w", 2); checkThrows<std::invalid_argument>("weight-length-rejected", [&] { math::entropy<Vec>(x, w); }); checkThrows<std::invalid_argument>("weight-length-rejected", [&] { math::gini<Vec>(x, w); }); vf::reach("end"); }
VFQ("u3", run(3, false, 3), "3 samples, 3 classes") VFQ("u4", run(4, false, 2), "4 samples, 2 classes") VFQ("u1", run(1, false, 2), "1 sample") VFQ("w3", run(3, true, 2), "3 weighted samples, weights in (0,4]") VFQ("w2", run(2, true, 2), "2 weighted samples") VFQ("bad", bad(), "weights of another length")
VFT("u5", run(5, false, 3), "5 samples, 3 classes") VFT("w4", run(4, true, 2), "4 weighted samples")
