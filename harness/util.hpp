// helpers shared by harnesses (after begin.hpp; 'double' is the symbolic scalar in the symbolic build)
#pragma once
using Mat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;
using Vec = Eigen::Matrix<double, Eigen::Dynamic, 1>;
using RVec = Eigen::Matrix<double, 1, Eigen::Dynamic>;
using IdxVec = Eigen::Vector<Eigen::Index, Eigen::Dynamic>;
using IdxMat = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, Eigen::Dynamic>;
inline Mat symMat(const std::string& n, int r, int c, int lo = -8, int hi = 8) {
  Mat m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = vf::real(n + std::to_string(i) + "_" + std::to_string(j), lo, hi);
  return m;
}
inline Vec symVec(const std::string& n, int r, int lo = -8, int hi = 8) {
  Vec m(r);
  for (int i = 0; i < r; ++i) m(i) = vf::real(n + std::to_string(i), lo, hi);
  return m;
}
inline void outMat(const char* n, const Mat& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) vf::out(n, m(i, j)); }
inline double vmin(const double& a, const double& b) { return vf::ite(vf::lt(b, a), b, a); }
inline double vmax(const double& a, const double& b) { return vf::ite(vf::lt(a, b), b, a); }
inline double vabs(const double& a) { return vf::ite(vf::lt(a, double(0)), -a, a); }
inline void checkMatEq(const char* name, const Mat& a, const Mat& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) { vf::fail(std::string(name) + ".shape"); return; }
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) vf::check(name, vf::eq(a(i, j), b(i, j)));
}
// expects fn() to throw an exception of type E
template <class E, class F> inline void checkThrows(const char* name, F fn) {
  bool thrown = false; try { fn(); } catch (const E&) { thrown = true; }
  vf::check(name, thrown);
}
using SVec = std::vector<double>;
using SRows = std::vector<std::vector<double>>;
inline SVec symSV(const std::string& n, int r, decltype(0.0) lo = -8, decltype(0.0) hi = 8) { SVec v; for (int i = 0; i < r; ++i) v.push_back(vf::real(n + std::to_string(i), lo, hi)); return v; }
inline SRows symRows(const std::string& n, int r, int c, int lo = -8, int hi = 8) { SRows v; for (int i = 0; i < r; ++i) v.push_back(symSV(n + std::to_string(i) + "_", c, lo, hi)); return v; }
inline double one(const SB& b) { return vf::ite(b, double(1), double(0)); }
// number of entries of v equal to x, as a term
inline double countEq(const SVec& v, const double& x) { double s(0); for (auto& e : v) s += one(vf::eq(e, x)); return s; }
inline SB rowEq(const SVec& a, const SVec& b) { if (a.size() != b.size()) return SB(false); SB r(true); for (size_t i = 0; i < a.size(); ++i) r = r & vf::eq(a[i], b[i]); return r; }
inline double countRow(const SRows& v, const SVec& x) { double s(0); for (auto& e : v) s += one(rowEq(e, x)); return s; }
inline void checkSameBag(const char* name, const SVec& a, const SVec& b) {
  vf::check(name, a.size() == b.size());
  for (auto& e : b) vf::check(name, vf::eq(countEq(a, e), countEq(b, e)));
}
inline SVec line(const Mat& m, int axis, int i) { SVec v; if (axis == 0) for (int k = 0; k < m.rows(); ++k) v.push_back(m(k, i)); else for (int k = 0; k < m.cols(); ++k) v.push_back(m(i, k)); return v; }
inline bool shapeIs(const char* name, const Mat& m, int r, int c) { vf::check(name, m.rows() == r && m.cols() == c); return m.rows() == r && m.cols() == c; }
inline Mat vmat(const Vec& v) { return v; }
#define VFCAT_(a, b) a##b
#define VFCAT(a, b) VFCAT_(a, b)
#define VFQ(name, call, d) static vf::Reg VFCAT(vfreg, __COUNTER__)("quick", name, [] { call; }, d);
#define VFT(name, call, d) static vf::Reg VFCAT(vfreg, __COUNTER__)("thorough", name, [] { call; }, d);
#define VFK(name, call, d) static vf::Reg VFCAT(vfreg, __COUNTER__)("known", name, [] { call; }, d);
