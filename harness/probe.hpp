// loss-function oracle: every gradient and value it returns is arbitrary; calls are recorded
#pragma once
struct PCall { bool isGrad; Mat X; Vec y; Vec W; Vec g; double f; };
static std::vector<PCall> plog;
static long pglim = 4;
static int pdim = 1; static std::vector<std::vector<int>> pfix; static size_t pfixCalls = 0; static int plineCall = -1;   // gradients of the first pfixCalls calls come from this list; those of call plineCall are 1 but in the last place
struct Probe {
  Vec gradient(const Mat& X, const Vec& y, const Mat& W) const {
    PCall c; c.isGrad = true; c.X = X; c.y = y; c.W = W; c.g.resize(pdim); c.f = 0;
    size_t ng = 0; for (auto& q : plog) ng += q.isGrad; if (ng < pfixCalls) { auto& v = pfix[vf::choose("fixgrad", pfix.size())]; for (int i = 0; i < pdim; ++i) c.g(i) = double(v[i]); } else if ((int)ng == plineCall) { for (int i = 0; i < pdim; ++i) c.g(i) = i ? vf::real("grad" + std::to_string(i), -pglim, pglim) : double(1); } else
    for (int i = 0; i < pdim; ++i) c.g(i) = vf::real("grad" + std::to_string(i), -pglim, pglim);
    plog.push_back(c); return c.g; }
  double evaluate(const Mat& X, const Vec& y, const Mat& W) const {
    PCall c; c.isGrad = false; c.X = X; c.y = y; c.W = W; c.f = vf::real("loss", -8, 8); plog.push_back(c); return c.f; }
};
inline Mat tagX(int n, int d) { Mat X(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = double(10 * (j + 1) + i); return X; }
inline Vec tagY(int n) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(100 + i); return y; }
// position of a tagged row, -1 when the row is not one of the samples or its label does not belong to it
inline int rowTag(const Mat& X, int r, const Vec& y, int n) { for (int i = 0; i < n; ++i) { bool same = y(r) == double(100 + i); for (int j = 0; j < X.cols(); ++j) same = same && X(r, j) == double(10 * (j + 1) + i); if (same) return i; } return -1; }
// one epoch worth of calls: 2*nb calls starting at k0
inline bool checkEpochBatches(size_t k0, int nb, int B, int n, bool shuffled) {
  std::set<int> seen; int expect = 0;
  for (int j = 0; j < nb; ++j) {
    if (k0 + 2 * j + 1 >= plog.size()) { vf::fail("epoch-visits-every-batch"); return false; }
    const PCall &a = plog[k0 + 2 * j], &b = plog[k0 + 2 * j + 1];
    if (!a.isGrad || b.isGrad) { vf::fail("gradient-then-evaluate"); return false; }
    vf::check("batch-size", a.X.rows() == B && a.y.size() == B && b.X.rows() == B); if (a.X.rows() != B || b.X.rows() != B) return false;
    for (int r = 0; r < B; ++r) { int t = rowTag(a.X, r, a.y, n), u = rowTag(b.X, r, b.y, n); vf::check("batch-rows-are-aligned-samples", t >= 0 && t == u); vf::check("each-sample-at-most-once-per-epoch", seen.insert(t).second); if (!shuffled) vf::check("order-kept-without-shuffle", t == expect); ++expect; }
  }
  return true;
}
// line searches evaluate objective and gradient at each point in either order: put the objective first
inline void evalFirst() { for (size_t k = 0; k + 1 < plog.size(); k += 2) if (plog[k].isGrad && !plog[k + 1].isGrad) std::swap(plog[k], plog[k + 1]); }
