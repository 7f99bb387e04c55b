// Singular value decompositions in the symbolic build: the two Eigen solvers are replaced by a decomposition of the
// matrix the harness built from its factors (every sign of the singular vector pairs); any other matrix is a failure.
#pragma once
struct Fact { Mat U, V; SVec s; };            // U n x n, V d x d orthogonal, s non-negative descending, min(n, d) of them
static std::vector<Fact>& facts() { static std::vector<Fact> f; return f; }
static Mat product(const Fact& f) { Mat A = Mat::Constant(f.U.rows(), f.V.rows(), double(0)); for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) for (size_t k = 0; k < f.s.size(); ++k) A(i, j) += f.s[k] * (f.U(i, k) * f.V(j, k)); return A; }
static SB sameMat(const Mat& a, const Mat& b) { SB r(a.rows() == b.rows() && a.cols() == b.cols()); if (a.rows() != b.rows() || a.cols() != b.cols()) return r; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r = r & vf::eq(a(i, j), b(i, j)); return r; }
static bool& fewSigns() { static bool b = false; return b; }   // two sign patterns only, for the larger shapes
#ifdef VF_SYM
struct VfSVDBase { Mat U, V; Vec s; void run(const Mat& A, unsigned options) {
  int n = A.rows(), d = A.cols(), k = std::min(n, d); auto thin = [&](Mat u, Mat v, const SVec& sv) {
    int f = fewSigns() ? vf::choose("svdsign", 2) * 0b10101 : vf::choose("svdsign", 1 << k); for (int j = 0; j < k; ++j) if (f >> j & 1) { u.col(j) = (-u.col(j)).eval(); v.col(j) = (-v.col(j)).eval(); }
    s.resize(k); for (int j = 0; j < k; ++j) s(j) = sv[j]; U = options & Eigen::ComputeThinU ? Mat(u.leftCols(k)) : u; V = options & Eigen::ComputeThinV ? Mat(v.leftCols(k)) : v; };
  for (auto& f : facts()) { if (f.U.rows() != n || f.V.rows() != d) continue; if (vf::holds(sameMat(A, product(f)))) { thin(f.U, f.V, f.s); return; } }
  // the same right vectors and singular values after an orthogonal change of the rows
  for (auto& f : facts()) { if (f.V.rows() != d || n > d || n > (int)f.s.size()) continue; bool pos = true; for (int j = 0; j < n; ++j) if (!vf::holds(vf::gt(f.s[j], double(0)))) pos = false; if (!pos) continue;
    Mat W(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t(0); for (int c = 0; c < d; ++c) t += A(i, c) * f.V(c, j); W(i, j) = t / f.s[j]; }
    SB ok(true); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t(0); for (int c = 0; c < n; ++c) t += W(c, i) * W(c, j); ok = ok & vf::eq(t, double(i == j ? 1 : 0)); } for (int i = 0; i < n; ++i) for (int c = 0; c < d; ++c) { double t(0); for (int j = 0; j < n; ++j) t += W(i, j) * f.s[j] * f.V(c, j); ok = ok & vf::eq(t, A(i, c)); }
    if (vf::holds(ok)) { thin(W, f.V, SVec(f.s.begin(), f.s.begin() + n)); return; } }
  vf::fail("decomposed-matrix"); }
  const Mat& matrixU() const { return U; } const Mat& matrixV() const { return V; } const Vec& singularValues() const { return s; } };
namespace Eigen { template<class M, int O = 0> struct VfJacobiSVD : VfSVDBase { template<class X> VfJacobiSVD(const X& a, unsigned o = 0) { run(Mat(a), o); } }; template<class M, int O = 0> struct VfBDCSVD : VfSVDBase { template<class X> VfBDCSVD(const X& a, unsigned o = 0) { run(Mat(a), o); } }; }
#define JacobiSVD VfJacobiSVD
#define BDCSVD VfBDCSVD
#endif
// orthogonal bases with rational entries
static Mat left4() { Mat U(4, 4); U << 3, 3, 3, 3, 1, -5, 1, 3, 1, 1, -5, 3, -5, 1, 1, 3; return U / double(6); }   // the last column is constant
// columns whose sums are not zero
static Mat left4u() { Mat U(4, 4); U << 8, -2, -3, -2, -2, 5, -6, -4, -3, -6, 0, -6, -2, -4, -6, 5; return U / double(9); }
static Mat house(int d) { Mat V(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) V(i, j) = double(i == j ? d - 2 : -2) / double(d); return V; }
static Mat right(int d, int which = 0) { Mat V(d, d); if (d == 1) V << 1; else if (d == 2) { if (which == 0) V << 3, -4, 4, 3; else if (which == 1) V << 5, 0, 0, 5; else V << 4, 3, -3, 4; V /= double(5); } else { V << 2, -1, 2, 2, 2, -1, -1, 2, 2; V /= double(3); } return V; }
// any rotation of the plane but one
static Mat turn(const double& t) { Mat V(2, 2); double c = (double(1) - t * t) / (double(1) + t * t), s = double(2) * t / (double(1) + t * t); V << c, -s, s, c; return V; }
static SVec singular(int k, const char* nm = "s") { SVec s; for (int i = 0; i < k; ++i) { s.push_back(vf::real(std::string(nm) + std::to_string(i), 0.25, 8)); if (i) vf::assume(vf::ge(s[i - 1], s[i])); } return s; }
