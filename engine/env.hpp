// Environment of every harness: std + Eigen included before the scalar macro,
// randomness replaced by arbitrary choices, Eigen assertions turned into
// exceptions.
#pragma once
#define _USE_MATH_DEFINES
#include <algorithm>
#include <cassert>
#include <cctype>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <array>
#include "vf.hpp"
#define eigen_assert(x) do { if (!(x)) ::vf::assert_fail(#x, __FILE__, __LINE__); } while (false)
#ifdef VF_SYM
namespace Eigen { template <typename T> struct NumTraits; }
#endif
#include <eigen3/Eigen/Core>
#ifdef VF_SYM
namespace Eigen {
template <> struct NumTraits<Sym> : GenericNumTraits<Sym> {
  typedef Sym Real; typedef Sym NonInteger; typedef Sym Nested; typedef Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 50, MulCost = 50 };
  static inline Real epsilon() { return std::numeric_limits<Sym>::epsilon(); }
  static inline Real dummy_precision() { return Sym(1e-12); }
  static inline Real highest() { return (std::numeric_limits<Sym>::max)(); }
  static inline Real lowest() { return std::numeric_limits<Sym>::lowest(); }
  static inline Real infinity() { return std::numeric_limits<Sym>::infinity(); }
  static inline Real quiet_NaN() { return std::numeric_limits<Sym>::quiet_NaN(); }
  static inline int digits10() { return 15; }
};
namespace internal {
template <> struct cast_impl<Sym, int> { static inline int run(const Sym& x) { return (int)x; } };
template <> struct cast_impl<Sym, double> { static inline double run(const Sym& x) { return (double)x; } };
}
}
#endif
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/SparseCore>

namespace vf { inline std::vector<Real>& envlog() { static std::vector<Real> v; return v; } }   // values drawn by Eigen's setRandom, in order (cleared by the harness)
namespace vf { inline std::vector<Real>& unilog() { static std::vector<Real> v; return v; }   // values drawn from std::uniform_real_distribution
inline std::deque<Real>& unifix() { static std::deque<Real> v; return v; }                    // if not empty: the next values uniform/normal draws return (set by the harness)
inline std::vector<int>& intlog() { static std::vector<int> v; return v; }                     // values drawn from std::uniform_int_distribution
inline std::vector<std::vector<int>>& shuflog() { static std::vector<std::vector<int>> v; return v; } }   // result of each std::shuffle as positions
namespace Eigen { namespace internal {
template <> struct random_impl<vf::Real> {
  static inline vf::Real run(const vf::Real& x, const vf::Real& y) { vf::Real r = vf::env_real(x, y, true); vf::envlog().push_back(r); return r; }
  static inline vf::Real run() { vf::Real r = vf::env_real(vf::Real(-1.0), vf::Real(1.0), true); vf::envlog().push_back(r); return r; }
};
} }
#ifdef VF_SYM
namespace std {   // accumulate(..., 0.0) over symbolic values: the literal is a plain double
template <class It, enable_if_t<is_same<typename iterator_traits<It>::value_type, Sym>::value, int> = 0>
Sym accumulate(It a, It b, double init) { return accumulate(a, b, Sym(init)); }
template <class It, class F, enable_if_t<is_same<typename iterator_traits<It>::value_type, Sym>::value, int> = 0>
Sym accumulate(It a, It b, double init, F f) { return accumulate(a, b, Sym(init), f); }
template <class It, class J, enable_if_t<is_same<typename iterator_traits<It>::value_type, Sym>::value, int> = 0>
Sym inner_product(It a, It b, J c, double init) { return inner_product(a, b, c, Sym(init)); }
template <class It, enable_if_t<is_same<typename iterator_traits<It>::value_type, Sym>::value, int> = 0>
Sym reduce(It a, It b, double init) { return accumulate(a, b, Sym(init)); }
inline Sym clamp(const Sym& x, const Sym& lo, const Sym& hi) { return x < lo ? lo : hi < x ? hi : x; }
inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }
inline long lround(const Sym& a) { return (long)round(a); }
}
#endif
namespace std {
template <class It, class G> void vf_shuffle(It first, It last, G&&) {
  auto n = last - first; std::vector<int> pos(n); for (decltype(n) i = 0; i < n; ++i) pos[i] = (int)i;
  for (decltype(n) i = n - 1; i > 0; --i) {
    int j = vf::choose("env.shuffle", (int)i + 1);
    using std::swap;
    swap(first[i], first[j]); swap(pos[i], pos[j]);
  }
  vf::shuflog().push_back(pos);
}
template <class T = vf::Real> struct vf_uniform_real {
  T a_, b_;
  using result_type = T;
  explicit vf_uniform_real(T a = T(0.0), T b = T(1.0)) : a_(a), b_(b) {}
  template <class G> T operator()(G&&) const { if (!vf::unifix().empty()) { T f = vf::unifix().front(); vf::unifix().pop_front(); vf::unilog().push_back(f); return f; } T r = vf::env_real(a_, b_, true); vf::unilog().push_back(r); return r; }
};
template <class T = vf::Real> struct vf_normal {
  T a_, b_;
  using result_type = T;
  explicit vf_normal(T a = T(0.0), T b = T(1.0)) : a_(a), b_(b) {}
  template <class G> T operator()(G&&) const { if (!vf::unifix().empty()) { T f = vf::unifix().front(); vf::unifix().pop_front(); vf::unilog().push_back(f); return f; } T r = vf::env_real(a_, b_, false); vf::unilog().push_back(r); return r; }
};
template <class T = int> struct vf_uniform_int {
  T a_, b_;
  using result_type = T;
  explicit vf_uniform_int(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {}
  template <class G> T operator()(G&&) const { int c = vf::choose("env.int", (int)(b_ - a_) + 1); vf::intlog().push_back((int)a_ + c); return a_ + (T)c; }
};
}
