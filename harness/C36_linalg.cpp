#include "env.hpp"
#include "begin.hpp"
#include "util.hpp"
#include "svd.hpp"
#include "core.hpp"
using namespace openml;
static Mat mul(const Mat& a, const Mat& b) { Mat r(a.rows(), b.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < b.cols(); ++j) { double s(0); for (int k = 0; k < a.cols(); ++k) s += a(i, k) * b(k, j); r(i, j) = s; } return r; }
static Mat tr(const Mat& a) { return a.transpose(); }
static Mat id(int n) { Mat m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = double(i == j ? 1 : 0); return m; }
static void lu(const Mat& X) {
  vf::encodes("math::lu"); int n = X.rows(), d = X.cols(), k = std::min(n, d); Mat P, L, U, G, L2, U2; std::tie(P, L, U) = math::lu<Mat>(X, false); std::tie(G, L2, U2) = math::lu<Mat>(X, true);
  if (!shapeIs("permutation-shape", P, n, n) || !shapeIs("lower-shape", L, n, k) || !shapeIs("upper-shape", U, k, d) || !shapeIs("permuted-lower-shape", G, n, k) || !shapeIs("upper-shape", U2, k, d)) return;
  for (int i = 0; i < n; ++i) { double r(0), c(0); for (int j = 0; j < n; ++j) { vf::check("permutation-matrix", vf::eq(P(i, j), double(0)) | vf::eq(P(i, j), double(1))); r += P(i, j); c += P(j, i); } vf::check("permutation-matrix", vf::eq(r, double(1)) & vf::eq(c, double(1))); for (int j = i; j < k; ++j) vf::check("unit-lower-triangular", vf::eq(L(i, j), double(i == j ? 1 : 0))); }
  for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) { vf::check("upper-triangular", vf::eq(U(i, j), double(0))); } checkMatEq("product-of-factors", mul(mul(P, L), U), X); checkMatEq("product-of-permuted-factors", mul(G, U2), X); outMat("U", U); vf::reach("end");
}
static void qr(const Mat& X, bool full) {
  vf::encodes("math::qr"); vf::eps_zero(); int n = X.rows(), d = X.cols(), k = full ? n : std::min(n, d); Mat Q, W; std::tie(Q, W) = math::qr<Mat>(X, full); if (!shapeIs("q-shape", Q, n, k) || !shapeIs("r-shape", W, k, d)) return;
  checkMatEq("product-of-factors", mul(Q, W), X); checkMatEq("orthonormal", mul(tr(Q), Q), id(k)); for (int i = 0; i < k; ++i) for (int j = 0; j < std::min(i, d); ++j) vf::check("upper-triangular", vf::eq(W(i, j), double(0))); outMat("R", W); vf::reach("end");
}
static void chol(int n, bool lower) { vf::encodes("math::cholesky"); Mat L(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) L(i, j) = j > i ? double(0) : vf::real("l" + std::to_string(i) + std::to_string(j), i == j ? 0.25 : -4, 4); Mat A = mul(L, tr(L)), C = math::cholesky<Mat>(A, lower); if (!shapeIs("factor-shape", C, n, n)) return; checkMatEq("triangular-factor", C, lower ? L : tr(L)); vf::reach("end"); }
static void notpd() { vf::encodes("math::cholesky"); Mat A(2, 2); double a = vf::real("a", -4, 4), b = vf::real("b", -4, 4), c = vf::real("c", -4, 4); A << a, b, b, c; bool t = false; try { math::cholesky<Mat>(A); } catch (const std::runtime_error&) { t = true; } SB pd = vf::gt(a, double(0)) & vf::gt(a * c, b * b); vf::check("rejected-exactly-when-not-positive-definite", t ? !pd : pd); vf::reach("end"); }
static double det(const Mat& a) { if (a.rows() == 1) return a(0, 0); if (a.rows() == 2) return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); double s(0); for (int j = 0; j < 3; ++j) s += a(0, j) * (a(1, (j + 1) % 3) * a(2, (j + 2) % 3) - a(1, (j + 2) % 3) * a(2, (j + 1) % 3)); return s; }
static Mat sym(int n, int fixed = 0) { Mat A(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) A(i, j) = A(j, i) = i + j < fixed ? double(i == j ? 2 : -1) : vf::real("a" + std::to_string(i) + std::to_string(j), -4, 4); return A; }
static void logdet(const Mat& A) { vf::encodes("math::logdet"); vf::exp_whole(true); double D = det(A); if (vf::holds(vf::eq(D, double(0)))) vf::skip(); for (int i = 0; i < A.rows(); ++i) for (int j = 0; j <= i; ++j) vf::holds(vf::gt(A(i, j), double(0))); vf::holds(vf::gt(D, double(0))); double l = math::logdet<Mat>(A); if (vf::holds(vf::gt(D, double(0)))) { vf::check("log-of-determinant", vf::eq(l, std::log(D))); vf::out("l", l); } else vf::check("minus-infinity-for-negative-determinant", l == -std::numeric_limits<double>::infinity()); vf::reach("end"); }
static void sing() { Mat A(2, 2); A << 1, 1, 1, 1; double l = math::logdet<Mat>(A); vf::check("minus-infinity-for-zero-determinant", l == -std::numeric_limits<double>::infinity()); vf::reach("end"); }
static void pinv(const Mat& U, const Mat& V, const SVec& s, const SVec& cut) {
  vf::encodes("math::pinv, exact_svd"); facts().clear(); Fact f{U, V, s}; facts().push_back(f); Mat A = product(f), P = math::pinv<Mat, Vec>(A); if (!shapeIs("transposed-shape", P, A.cols(), A.rows())) return; Mat B = product(Fact{U, V, cut});
  checkMatEq("generalised-inverse", mul(mul(B, P), B), B); checkMatEq("reflexive", mul(mul(P, B), P), P); Mat L = mul(B, P), E = mul(P, B); checkMatEq("left-projection-symmetric", L, tr(L)); checkMatEq("right-projection-symmetric", E, tr(E)); vf::reach("end");
}
static void pz(const Mat& U, const Mat& V, int k, int zero) { SVec s = singular(k); for (int j = k - zero; j < k; ++j) s[j] = double(0); pinv(U, V, s, s); }
static void psmall(const Mat& U, const Mat& V) { double a = vf::real("s", 0.25, 8), e = vf::real("e", 0, 1e-6); vf::tol(1e-4); pinv(U, V, {a, e}, {a, double(0)}); }
static Mat arrow() { Mat A(3, 3); double a = vf::real("a", -4, 4), b = vf::real("b", -4, 4), c = vf::real("c", -4, 4); A << 2, -1, 0, -1, a, b, 0, b, c; return A; }
static Mat tall(int n) { Mat A = symMat("x", n, 2); A(0, 0) = double(2); A(1, 0) = double(1); A(2, 0) = double(2); return A; }
static Mat wide() { Mat A = symMat("x", 2, 3); A(0, 0) = double(3); A(1, 0) = double(4); return A; }
VFQ("lu22", lu(symMat("x", 2, 2)), "2x2") VFQ("lu32", lu(symMat("x", 3, 2)), "3x2") VFQ("lu23", lu(symMat("x", 2, 3)), "2x3") VFQ("lu13", lu(symMat("x", 1, 3)), "1x3") VFQ("lu31", lu(symMat("x", 3, 1)), "3x1")
VFQ("qr21", qr(symMat("x", 2, 1), false), "2x1") VFQ("qr21f", qr(symMat("x", 2, 1), true), "2x1 full") VFQ("qr22", qr(symMat("x", 2, 2), false), "2x2") VFQ("qr12", qr(symMat("x", 1, 2), false), "1x2") VFQ("qr31", qr(symMat("x", 3, 1), false), "3x1") VFQ("qr31f", qr(symMat("x", 3, 1), true), "3x1 full")
VFQ("ch1", chol(1, true), "1x1") VFQ("ch2", chol(2, true), "2x2") VFQ("ch2u", chol(2, false), "2x2 upper") VFQ("ch3", chol(3, true), "3x3") VFQ("notpd", notpd(), "any symmetric 2x2")
VFQ("ld1", logdet(sym(1)), "1x1") VFQ("ld2", logdet(sym(2)), "any symmetric 2x2") VFQ("sing", sing(), "singular")
VFQ("pi22", pz(right(2), right(2, 2), 2, 0), "2x2 regular") VFQ("pi22s", pz(right(2), right(2, 2), 2, 1), "2x2 of rank 1") VFQ("pi42", pz(left4(), right(2), 2, 0), "4x2") VFQ("pi24", pz(right(2), left4(), 2, 0), "2x4") VFQ("pi42s", pz(left4(), right(2), 2, 1), "4x2 of rank 1") VFQ("pi33", pz(right(3), right(3), 3, 1), "3x3 of rank 2") VFQ("pismall", psmall(right(2), right(2, 2)), "singular value below the cut-off") VFQ("piturn", pz(turn(vf::real("t", -4, 4)), right(2), 2, 0), "any left rotation")
VFQ("lu33", lu(symMat("x", 3, 3)), "3x3") VFQ("ld3", logdet(arrow()), "symmetric 3x3, first row fixed") VFQ("qr32", qr(tall(3), false), "3x2, first column fixed") VFQ("qr32f", qr(tall(3), true), "3x2 full, first column fixed") VFQ("qr23", qr(wide(), false), "2x3, first column fixed")
VFT("lu34", lu(symMat("x", 3, 4)), "3x4") VFT("lu43", lu(symMat("x", 4, 3)), "4x3")
