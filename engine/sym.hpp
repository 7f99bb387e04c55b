// Symbolic scalar used to execute the real templates of /repo/src symbolically.
// A Sym is either a concrete double (id==0) or a handle to a node of the
// engine's expression DAG (exact rational functions over symbolic atoms).
// Comparisons return plain bool and fork the execution path.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <random>
#include <string>
#include <type_traits>
#include <vector>
#include <algorithm>

namespace symns { struct Sym; }
using symns::Sym;
namespace std {
template <> struct is_floating_point<Sym> : true_type {};
template <> inline constexpr bool is_floating_point_v<Sym> = true;
#define SYM_COMMON(T) template <> struct common_type<Sym, T> { using type = Sym; }; template <> struct common_type<T, Sym> { using type = Sym; };
SYM_COMMON(double) SYM_COMMON(float) SYM_COMMON(int) SYM_COMMON(unsigned) SYM_COMMON(long) SYM_COMMON(unsigned long) SYM_COMMON(long long) SYM_COMMON(unsigned long long) SYM_COMMON(bool)
#undef SYM_COMMON
}
namespace symeng {
using u32 = std::uint32_t;
static constexpr u32 TAG = 0x5bd1e995u;
Sym op_add(const Sym&, const Sym&);
Sym op_sub(const Sym&, const Sym&);
Sym op_mul(const Sym&, const Sym&);
Sym op_div(const Sym&, const Sym&);
Sym op_neg(const Sym&);
bool cmp_lt(const Sym&, const Sym&);
bool cmp_le(const Sym&, const Sym&);
bool cmp_eq(const Sym&, const Sym&);
Sym f_sqrt(const Sym&);
Sym f_exp(const Sym&);
Sym f_log(const Sym&);
Sym f_abs(const Sym&);
Sym f_floor(const Sym&);
Sym f_pow(const Sym&, const Sym&);
Sym f_opaque(const char* fn, const Sym&);
Sym f_min(const Sym&, const Sym&);
Sym f_max(const Sym&, const Sym&);
bool f_isnan(const Sym&);
bool f_isinf(const Sym&);
bool f_isfinite(const Sym&);
long long to_int(const Sym&);     // truncation towards zero, forks over the feasible values
double to_double(const Sym&);     // only concrete values; symbolic -> engine error
Sym fresh(const char* name, double lo, double hi, bool has_lo, bool has_hi, bool is_int);
int choose(const char* name, int n);
std::string show(const Sym&);
Sym imod(const Sym&, const Sym&);
Sym idiv(const Sym&, const Sym&);
bool truth(const Sym&);
double& machineEps();   // numeric_limits::epsilon, 0 when a harness asks for exact arithmetic
}

namespace symns {
struct Sym {
  double c;
  symeng::u32 id;
  symeng::u32 tag;
  Sym() = default;
  template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
  constexpr Sym(T v) : c(static_cast<double>(v)), id(0), tag(0) {}
  static Sym node(symeng::u32 i) { Sym s(0.0); s.id = i; s.tag = i ^ symeng::TAG; return s; }
  template <class I, std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value, int> = 0>
  operator I() const { return static_cast<I>(symeng::to_int(*this)); }
  explicit operator bool() const { return symeng::truth(*this); }
  explicit operator double() const { return symeng::to_double(*this); }
  explicit operator float() const { return (float)symeng::to_double(*this); }
  Sym& operator+=(const Sym& o) { *this = symeng::op_add(*this, o); return *this; }
  Sym& operator-=(const Sym& o) { *this = symeng::op_sub(*this, o); return *this; }
  Sym& operator*=(const Sym& o) { *this = symeng::op_mul(*this, o); return *this; }
  Sym& operator/=(const Sym& o) { *this = symeng::op_div(*this, o); return *this; }
  Sym& operator++() { *this = symeng::op_add(*this, Sym(1)); return *this; }
  Sym operator++(int) { Sym r = *this; ++*this; return r; }
  Sym& operator--() { *this = symeng::op_sub(*this, Sym(1)); return *this; }
  Sym operator--(int) { Sym r = *this; --*this; return r; }
};

#define SYM_ARITH(T) std::enable_if_t<std::is_arithmetic<T>::value, int> = 0
#define SYM_BIN(op, fn)                                                                     \
  inline constexpr Sym operator op(const Sym& a, const Sym& b) {                            \
    if (__builtin_is_constant_evaluated()) return Sym(a.c op b.c);                          \
    return symeng::fn(a, b); }                                                              \
  template <class T, SYM_ARITH(T)> inline constexpr Sym operator op(const Sym& a, const T& b) { return a op Sym(b); } \
  template <class T, SYM_ARITH(T)> inline constexpr Sym operator op(const T& a, const Sym& b) { return Sym(a) op b; }
SYM_BIN(+, op_add)
SYM_BIN(-, op_sub)
SYM_BIN(*, op_mul)
SYM_BIN(/, op_div)
#undef SYM_BIN
inline constexpr Sym operator-(const Sym& a) {
  if (__builtin_is_constant_evaluated()) return Sym(-a.c);
  return symeng::op_neg(a); }
inline Sym operator+(const Sym& a) { return a; }
#define SYM_CMP(op, expr)                                                                   \
  inline bool operator op(const Sym& a, const Sym& b) { return expr; }                      \
  template <class T, SYM_ARITH(T)> inline bool operator op(const Sym& a, const T& b_) { Sym b(b_); return expr; } \
  template <class T, SYM_ARITH(T)> inline bool operator op(const T& a_, const Sym& b) { Sym a(a_); return expr; }
SYM_CMP(<, symeng::cmp_lt(a, b))
SYM_CMP(>, symeng::cmp_lt(b, a))
SYM_CMP(<=, symeng::cmp_le(a, b))
SYM_CMP(>=, symeng::cmp_le(b, a))
SYM_CMP(==, symeng::cmp_eq(a, b))
SYM_CMP(!=, !symeng::cmp_eq(a, b))
#undef SYM_CMP
struct Lit {   // an integer literal as one branch of a conditional expression: takes the type of the other
  long long v;
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0> constexpr operator I() const { return static_cast<I>(v); }
  constexpr operator Sym() const { return Sym(v); }
};
inline bool operator!(const Sym& a) { return !symeng::truth(a); }

inline std::ostream& operator<<(std::ostream& o, const Sym& a) { return o << symeng::show(a); }
std::istream& operator>>(std::istream& i, Sym& a);

// math functions, by ADL and qualified with std::
#define SYM_F1(name, impl) inline Sym name(const Sym& a) { return symeng::impl; }
#define SYM_ALL_F                                                                            \
  SYM_F1(sqrt, f_sqrt(a)) SYM_F1(exp, f_exp(a)) SYM_F1(log, f_log(a)) SYM_F1(abs, f_abs(a))  \
  SYM_F1(fabs, f_abs(a)) SYM_F1(floor, f_floor(a))                                           \
  SYM_F1(ceil, op_neg(symeng::f_floor(symeng::op_neg(a))))                                   \
  SYM_F1(log2, op_div(symeng::f_log(a), symeng::f_log(Sym(2))))                              \
  SYM_F1(log10, op_div(symeng::f_log(a), symeng::f_log(Sym(10))))                            \
  SYM_F1(log1p, f_log(symeng::op_add(a, Sym(1)))) SYM_F1(expm1, op_sub(symeng::f_exp(a), Sym(1))) \
  SYM_F1(sin, f_opaque("sin", a)) SYM_F1(cos, f_opaque("cos", a))
SYM_ALL_F
inline Sym tanh(const Sym& a) { Sym e = symeng::f_exp(symeng::op_mul(Sym(2), a)); return (e - 1) / (e + 1); }
inline Sym trunc(const Sym& a) { return a >= 0 ? floor(a) : ceil(a); }
inline Sym round(const Sym& a) { return a >= 0 ? floor(a + 0.5) : ceil(a - 0.5); }
inline bool fmodEven(const Sym& f) { return floor(f / 2) * 2 == f; }
inline Sym nearbyint(const Sym& a) { Sym f = floor(a), d = a - f; if (d < 0.5) return f; if (d > 0.5) return f + 1; return fmodEven(f) ? f : f + 1; }
inline Sym rint(const Sym& a) { return nearbyint(a); }
inline long long llround(const Sym& a) { return symeng::to_int(round(a)); }
inline long lrint(const Sym& a) { return (long)symeng::to_int(nearbyint(a)); }
inline Sym exp2(const Sym& a) { return symeng::f_exp(symeng::op_mul(symeng::f_log(Sym(2)), a)); }
inline Sym fdim(const Sym& a, const Sym& b) { return a > b ? a - b : Sym(0.0); }
inline Sym fmod(const Sym& a, const Sym& b) { return a - trunc(a / b) * b; }
inline Sym hypot(const Sym& a, const Sym& b) { return sqrt(a * a + b * b); }
inline Sym pow(const Sym& a, const Sym& b) { return symeng::f_pow(a, b); }
template <class T, SYM_ARITH(T)> inline Sym pow(const Sym& a, const T& b) { return symeng::f_pow(a, Sym(b)); }
template <class T, SYM_ARITH(T)> inline Sym pow(const T& a, const Sym& b) { return symeng::f_pow(Sym(a), b); }
inline bool isnan(const Sym& a) { return symeng::f_isnan(a); }
inline bool isinf(const Sym& a) { return symeng::f_isinf(a); }
inline bool isfinite(const Sym& a) { return symeng::f_isfinite(a); }
inline bool signbit(const Sym& a) { return a < 0; }
inline Sym copysign(const Sym& a, const Sym& b) { Sym m = symeng::f_abs(a); return b < 0 ? -m : m; }
#ifndef SYM_NO_MINMAX
inline Sym (min)(const Sym& a, const Sym& b) { return symeng::f_min(a, b); }
inline Sym (max)(const Sym& a, const Sym& b) { return symeng::f_max(a, b); }
#endif
inline Sym (min)(std::initializer_list<Sym> l) { Sym r = *l.begin(); for (const Sym& x : l) r = symeng::f_min(r, x); return r; }
inline Sym (max)(std::initializer_list<Sym> l) { Sym r = *l.begin(); for (const Sym& x : l) r = symeng::f_max(r, x); return r; }
inline Sym (fmin)(const Sym& a, const Sym& b) { return symeng::f_min(a, b); }
inline Sym (fmax)(const Sym& a, const Sym& b) { return symeng::f_max(a, b); }

#undef SYM_F1
} // namespace symns
namespace std {
using symns::sqrt; using symns::exp; using symns::log; using symns::abs; using symns::fabs; using symns::floor; using symns::ceil;
using symns::log2; using symns::log10; using symns::log1p; using symns::expm1; using symns::sin; using symns::cos;
using symns::tanh; using symns::trunc; using symns::round; using symns::pow; using symns::fmod; using symns::hypot;
using symns::isnan; using symns::isinf; using symns::isfinite; using symns::signbit; using symns::copysign; using symns::fmin; using symns::fmax;
using symns::nearbyint; using symns::rint; using symns::llround; using symns::lrint; using symns::exp2; using symns::fdim;
inline string to_string(const Sym& a) { return symeng::show(a); }
using symns::min; using symns::max;
template <> struct hash<Sym> { size_t operator()(const Sym&) const { return 0; } };
template <> struct numeric_limits<Sym> {
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
    has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = true, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021, max_exponent = 1024,
    min_exponent10 = -307, max_exponent10 = 308;
  static constexpr float_denorm_style has_denorm = denorm_present;
  static constexpr bool has_denorm_loss = false, traps = false, tinyness_before = false;
  static constexpr float_round_style round_style = round_to_nearest;
  static Sym (min)() { return Sym(symeng::machineEps() == 0 ? 0.0 : numeric_limits<double>::min()); }
  static constexpr Sym (max)() { return Sym(numeric_limits<double>::max()); }
  static constexpr Sym lowest() { return Sym(numeric_limits<double>::lowest()); }
  static Sym epsilon() { return Sym(symeng::machineEps()); }
  static constexpr Sym round_error() { return Sym(0.5); }
  static constexpr Sym infinity() { return Sym(numeric_limits<double>::infinity()); }
  static constexpr Sym quiet_NaN() { return Sym(numeric_limits<double>::quiet_NaN()); }
  static constexpr Sym denorm_min() { return Sym(numeric_limits<double>::denorm_min()); }
};
}
