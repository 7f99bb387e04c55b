// Harness interface shared by the symbolic build (VF_SYM) and the replay build.
#pragma once
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <exception>
#ifdef VF_SYM
#include "sym.hpp"
#endif

namespace vf {
struct AssertFail : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void assert_fail(const char* what, const char* file, int line);

#ifdef VF_SYM
using Real = Sym;
struct SB { std::uint32_t f; SB(bool b) : f(b ? 0u : 1u) {} static SB raw(std::uint32_t i) { SB s(true); s.f = i; return s; } };
#else
using Real = double;
// replay: may be true / may be false within the tolerance, and the exact value
struct SB { bool mayT, mayF, v; SB(bool b) : mayT(b), mayF(!b), v(b) {} SB(bool t, bool f, bool x) : mayT(t), mayF(f), v(x) {} };
#endif

// --- inputs (every value is arbitrary within the stated range) ---
Real real(const std::string& name, double lo, double hi);
Real real(const std::string& name);
Real integer(const std::string& name, long lo, long hi);
Real env_real(const Real& lo, const Real& hi, bool bounded);   // value returned by a randomness stub
int choose(const std::string& name, int n);             // 0..n-1, forked
std::string text(const Real& v);                        // v as written to a file the code reads (a token standing for it in the symbolic build)
// --- formulas (do not fork) ---
SB lt(const Real& a, const Real& b);
SB le(const Real& a, const Real& b);
SB eq(const Real& a, const Real& b);
inline SB gt(const Real& a, const Real& b) { return lt(b, a); }
inline SB ge(const Real& a, const Real& b) { return le(b, a); }
SB operator!(const SB& a);
SB operator&(const SB& a, const SB& b);
SB operator|(const SB& a, const SB& b);
inline SB ne(const Real& a, const Real& b) { return !eq(a, b); }
inline SB imp(const SB& a, const SB& b) { return !a | b; }
inline SB iff(const SB& a, const SB& b) { return (a & b) | (!a & !b); }
SB is_finite(const Real& a);
Real ite(const SB& c, const Real& a, const Real& b);   // no fork
bool holds(const SB& a);                                // forks
bool decide(const SB& a);                               // forks once, even on a compound formula
// mathematical helpers without forking/branching surprises
Real rsqrt_(const Real& a);
// --- obligations ---
void assume(const SB& a);
void check(const char* name, const SB& a);
void fail(const std::string& name);                     // unconditional violation on this path
void out(const char* name, const Real& v);
void tol(double t);                                     // replay tolerance of eq/le (default 1e-7)
void reach(const char* name);                           // vacuity witness
void exp_guard(bool on);                                 // every argument of exp from here on must be <= 709 (no overflow to inf)
void exp_flush(bool on);                                 // exp of an argument below -746 is exactly zero from here on (underflow)
void exp_unit(int n);                                     // exponentials are kept as powers of exp(term/n) (normalisation only)
void eps_zero();                                         // numeric_limits<Sym>::epsilon() and min() are 0 (exact arithmetic)
void exp_whole(bool on);                                 // exponentials are kept whole: exp(t) is one atom (normalisation only)
void skip();                                            // abandon this path (outside the claim)
// derivative of f at the current inputs w.r.t. the input variable x (x must be a value returned by real()).
// symbolic build: exact differentiation of the expression computed by f on this path;
// replay build: central difference of f, called with x perturbed.
Real derivative(const std::function<Real(const Real&)>& f, const Real& x);
bool symbolic();

struct Instance { std::string name; bool thorough; std::function<void()> fn; std::string desc; };
std::vector<Instance>& instances();
struct Reg {
  Reg(const char* tier, const std::string& name, std::function<void()> fn, const std::string& desc = "") {
    instances().push_back({name, std::string(tier) == "thorough", fn, desc});
  }
};
void encodes(const char* names);                        // functions of /repo encoded by this harness (evidence)
}
namespace vf {
// an option string: arbitrary characters and length up to MAXOPT, compared as a formula. In the symbolic build the copied
// sources declare their string variables with this type; anything but a comparison sees a text that no option is spelled like.
#ifdef VF_SYM
struct Str : std::string {
  using std::string::string; Str(const std::string& s) : std::string(s) {} Str() {}
  std::vector<Real> ch; Real len = 0; bool free = false;
  SB is(const std::string& s) const { if (!free) return SB(static_cast<const std::string&>(*this) == s); if (s.size() > ch.size()) return SB(false); SB r = eq(len, Real((long)s.size())); for (size_t i = 0; i < s.size(); ++i) r = r & eq(ch[i], Real((int)(unsigned char)s[i])); return r; }
  bool same(const std::string& s) const { return free ? decide(is(s)) : static_cast<const std::string&>(*this) == s; }
  int compare(const std::string& s) const { return free ? !same(s) : std::string::compare(s); }
  bool empty() const { return free ? decide(eq(len, Real(0))) : std::string::empty(); }
  size_t size() const { if (!free) return std::string::size(); for (size_t n = 0; n < ch.size(); ++n) if (decide(eq(len, Real((long)n)))) return n; return ch.size(); }
  size_t length() const { return size(); }
  SB at_(size_t i, const std::string& s) const { if (i + s.size() > ch.size()) return SB(false); SB r = le(Real((long)(i + s.size())), len); for (size_t k = 0; k < s.size(); ++k) r = r & eq(ch[i + k], Real((int)(unsigned char)s[k])); return r; }
  size_t find(const std::string& s, size_t from = 0) const { if (!free) return std::string::find(s, from); if (decide(at_(from, s))) return from; SB any(false); for (size_t i = from + 1; i + s.size() <= ch.size(); ++i) any = any | at_(i, s); if (!decide(any)) return npos; for (size_t i = from + 1; i + s.size() < ch.size(); ++i) if (decide(at_(i, s))) return i; return ch.size() - s.size(); }
  size_t find(char c, size_t from = 0) const { return find(std::string(1, c), from); }
  size_t rfind(const std::string& s, size_t from = npos) const { if (!free) return std::string::rfind(s, from); for (size_t i = std::min(from, ch.size()) + 1; i-- > 0;) if (decide(at_(i, s))) return i; return npos; }
  int compare(size_t p, size_t n, const std::string& s) const { if (!free) return std::string::compare(p, n, s); return substr(p, n).compare(s); }
  Str substr(size_t p = 0, size_t n = npos) const { if (!free) return std::string::substr(p, n); Str r(*this); r.ch.erase(r.ch.begin(), r.ch.begin() + std::min(p, ch.size())); if (n < r.ch.size()) r.ch.resize(n); Real l = ite(le(Real((long)p), len), len - Real((long)p), Real(0)); r.len = ite(le(l, Real((long)r.ch.size())), l, Real((long)r.ch.size())); return r; }
  char operator[](size_t i) const { if (!free) return std::string::operator[](i); if (i >= ch.size() || !decide(lt(Real((long)i), len))) return 0; for (int c = 32; c < 126; ++c) if (decide(eq(ch[i], Real(c)))) return (char)c; return 126; }
  char spare = 0;
  char& operator[](size_t i) { return free ? spare = static_cast<const Str&>(*this)[i] : std::string::operator[](i); }
  char at(size_t i) const { if (free && decide(le(len, Real((long)i)))) throw std::out_of_range("at"); return free ? (*this)[i] : std::string::at(i); }
  char front() const { return (*this)[0]; }
};
inline bool operator==(const Str& a, const Str& b) { return b.free ? (a.free ? &a == &b || a.ch[0].id == b.ch[0].id : b.same(a)) : a.same(b); }
inline bool operator==(const Str& a, const std::string& b) { return a.same(b); }
inline bool operator==(const std::string& a, const Str& b) { return b.same(a); }
inline bool operator==(const Str& a, const char* b) { return a.same(b); }
inline bool operator==(const char* a, const Str& b) { return b.same(a); }
template <class T> inline auto operator!=(const Str& a, const T& b) -> decltype(a == b) { return !(a == b); }
inline bool operator!=(const std::string& a, const Str& b) { return !b.same(a); }
inline bool operator!=(const char* a, const Str& b) { return !b.same(a); }
#else
using Str = std::string;
#endif
inline SB spells(const Str& s, const std::string& t) {
#ifdef VF_SYM
  return s.is(t);
#else
  return SB(s == t);
#endif
}
inline Str option(const std::string& name, int maxlen = 18) {
  Real n = integer(name + "_length", 0, maxlen); std::vector<Real> c; for (int i = 0; i < maxlen; ++i) c.push_back(integer(name + "_" + std::to_string(i), 32, 126));
#ifdef VF_SYM
  Str s("\1unlisted option"); s.ch = c; s.len = n; s.free = true; return s;
#else
  std::string s; for (int i = 0; i < (int)n; ++i) s += (char)(int)c[i]; return s;
#endif
}
}
using vf::SB;
