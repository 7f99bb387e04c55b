#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
using namespace openml;
static void tts(int n, int d, bool shuffle, int which) {
  vf::encodes("data::train_test_split, random::shuffle_data"); Mat X = symMat("x", n, d); Vec y(n); for (int i = 0; i < n; ++i) y(i) = double(100 + i);
  double frac = which < 0 ? vf::real("frac", 0, 1) : double(which) / double(4);
  auto [A, B, a, b] = data::train_test_split<Mat, Vec>(X, y, frac, shuffle); int nt = A.rows();
  vf::check("train-size", vf::le(double(nt), double(n) * frac) & vf::lt(double(n) * frac, double(nt + 1)));
  vf::check("sizes-add-up", A.rows() + B.rows() == n && a.size() == A.rows() && b.size() == B.rows() && A.cols() == d && B.cols() == d); if (A.rows() + B.rows() != n || a.size() != A.rows() || b.size() != B.rows()) return;
  std::set<int> seen;
  for (int r = 0; r < n; ++r) { double lab = r < nt ? a(r) : b(r - nt); int id = -1; for (int i = 0; i < n; ++i) if (lab == double(100 + i)) id = i; vf::check("every-sample-exactly-once", id >= 0 && seen.insert(id).second); if (id < 0) return; if (!shuffle) vf::check("order-kept-without-shuffle", id == r);
    for (int j = 0; j < d; ++j) vf::check("features-stay-with-their-label", vf::eq(r < nt ? A(r, j) : B(r - nt, j), X(id, j))); }
  vf::out("n", double(nt)); vf::reach("end");
}
static void divide(int n, int d) {
  vf::encodes("data::divide_on_feature"); Mat X = symMat("x", n, d); double t = vf::real("t", -8, 8); int f = vf::choose("feature", d);
  auto [L, Rr] = data::divide_on_feature<Mat>(X, f, t); vf::check("partition", L.size() + Rr.size() == (size_t)n);
  std::vector<int> seen(n, 0); size_t last = 0; bool first = true;
  for (auto i : L) { vf::check("index-range", i < (size_t)n); if (i >= (size_t)n) return; seen[i]++; vf::check("left-not-above-threshold", vf::le(X(i, f), t)); vf::check("row-order", first || i > last); last = i; first = false; }
  first = true; for (auto i : Rr) { vf::check("index-range", i < (size_t)n); if (i >= (size_t)n) return; seen[i]++; vf::check("right-above-threshold", vf::gt(X(i, f), t)); vf::check("row-order", first || i > last); last = i; first = false; }
  for (int i = 0; i < n; ++i) vf::check("each-row-once", seen[i] == 1); vf::out("l", double(L.size())); vf::reach("end");
}
VFQ("any", tts(3, 2, false, -1), "3 samples, any train fraction in [0,1], no shuffle") VFQ("any4", tts(4, 1, false, -1), "4 samples, any fraction") VFQ("shuf", tts(3, 2, true, 3), "3 samples, 3/4, every shuffle") VFQ("shuf2", tts(4, 1, true, 2), "4 samples, 1/2, every shuffle") VFQ("shufany", tts(3, 1, true, -1), "3 samples, every shuffle, any fraction") VFQ("div", divide(4, 2), "4x2, any feature and threshold") VFQ("div1", divide(1, 1), "single row") 
VFT("any7", tts(7, 1, false, -1), "7 samples, any fraction") VFT("div6", divide(6, 2), "6x2") VFT("shuf5", tts(5, 1, true, 2), "5 samples, every shuffle")
