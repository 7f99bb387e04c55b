// Concrete side: the same harness on plain doubles, inputs from a file.
#include "vf.hpp"
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
using std::string;
namespace {
struct AssumeFail {}; struct Skip {};
std::map<string, double> rin; std::map<string, int> cin_; std::map<string, int> cnt; double TOL = 1e-7; bool exactIn = true; bool failed = false; bool quiet = false; 
std::map<string, std::pair<double, double>> varOverride;
// no operation has rounded so far and every input is a double: the run equals the run over the reals, comparisons are exact
bool exact() { return exactIn && !std::fetestexcept(FE_INEXACT); }
struct KeepFlags { std::fexcept_t f; KeepFlags() { std::fegetexceptflag(&f, FE_INEXACT); } ~KeepFlags() { std::fesetexceptflag(&f, FE_INEXACT); } };
double getReal(const string& n, double lo, double hi, bool b) {
  string nm = n + "#" + std::to_string(cnt[n]++); auto it = rin.find(nm); double v = it == rin.end() ? 0.0 : it->second;
  if (it == rin.end() && b) { if (v < lo) v = lo; if (v > hi) v = hi; }
  if (b && (v < lo || v > hi)) throw AssumeFail{}; return v;
}
}
namespace vf {
std::vector<Instance>& instances() { static std::vector<Instance> v; return v; }
void assert_fail(const char* what, const char* file, int line) { string f = file; size_t s = f.rfind('/'); throw AssertFail("eigen_assert(" + string(what) + ") at " + f.substr(s == string::npos ? 0 : s + 1) + ":" + std::to_string(line)); }
Real real(const string& n, double lo, double hi) { return getReal(n, lo, hi, true); }
Real real(const string& n) { return getReal(n, 0, 0, false); }
Real integer(const string& n, long lo, long hi) { return getReal(n, lo, hi, true); }
Real env_real(const Real& lo, const Real& hi, bool b) { double v = getReal("env.real", lo, hi, false); if (b && !(lo <= v && v <= hi)) { v = lo; } return v; }
string text(const Real& v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
int choose(const string& n, int k) { string nm = n + "#" + std::to_string(cnt[n]++); auto it = cin_.find(nm); int v = it == cin_.end() ? 0 : it->second; if (v >= k) v = k - 1; return v; }
static bool bothFin(double a, double b) { return std::isfinite(a) && std::isfinite(b); }
static double band(double a, double b) { return TOL * (1 + std::fabs(a) + std::fabs(b)); }
SB lt(const Real& a, const Real& b) { if (!bothFin(a, b) || exact()) return SB(a < b); double d = a - b, t = band(a, b); return SB(TOL == 0 ? d < 0 : d < t, TOL == 0 ? d >= 0 : d > -t, d < 0); }
SB le(const Real& a, const Real& b) { if (!bothFin(a, b) || exact()) return SB(a <= b); double d = a - b, t = band(a, b); return SB(d <= t, TOL == 0 ? d > 0 : d > -t, d <= 0); }
SB eq(const Real& a, const Real& b) { if (!bothFin(a, b) || exact()) return SB(a == b); double d = std::fabs(a - b), t = band(a, b); return SB(d <= t, TOL == 0 ? d > 0 : true, d == 0); }
SB operator!(const SB& a) { return SB(a.mayF, a.mayT, !a.v); }
SB operator&(const SB& a, const SB& b) { return SB(a.mayT && b.mayT, a.mayF || b.mayF, a.v && b.v); }
SB operator|(const SB& a, const SB& b) { return SB(a.mayT || b.mayT, a.mayF && b.mayF, a.v || b.v); }
SB is_finite(const Real& a) { return SB(std::isfinite(a)); }
Real ite(const SB& c, const Real& a, const Real& b) { return c.v ? a : b; }
bool holds(const SB& a) { return a.v; }
bool decide(const SB& a) { return a.v; }
void assume(const SB& a) { if (!a.mayT) throw AssumeFail{}; }
void check(const char* n, const SB& a) { if (!a.mayT) { failed = true; KeepFlags kf; if (!quiet) printf("FAIL %s\n", n); } }
void fail(const string& n) { failed = true; printf("FAIL %s\n", n.c_str()); throw Skip{}; }
void out(const char* n, const Real& v) { KeepFlags kf; printf("OUT %s %.17g\n", n, v); }
void tol(double t) { TOL = t; }
void reach(const char*) {}
void exp_guard(bool) {}
void exp_flush(bool) {}
void exp_unit(int) {}
void exp_whole(bool) {}
void eps_zero() {}
void skip() { throw Skip{}; }
bool symbolic() { return false; }
void encodes(const char*) {}
Real derivative(const std::function<Real(const Real&)>& f, const Real& x) { double h = 1e-5 * (1 + std::fabs(x)); return (f(x + h) - f(x - h)) / (2 * h); }
Real rsqrt_(const Real& a) { return std::sqrt(a); }
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 2) return 4; std::ifstream in(argv[1]); string k, n, inst;
  while (in >> k) { if (k == "instance") in >> inst; else if (k == "r" || k == "ri") { string v; in >> n >> v; rin[n] = strtod(v.c_str(), nullptr); if (k == "ri") exactIn = false; } else if (k == "c") { int v; in >> n >> v; cin_[n] = v; } }
  std::feclearexcept(FE_ALL_EXCEPT);
  std::cout.setstate(std::ios_base::badbit);
  for (auto& I : vf::instances()) if (I.name == inst) {
    try { I.fn(); }
    catch (AssumeFail&) { return failed ? 10 : 11; }
    catch (Skip&) {}
    catch (std::exception& e) { printf("EXC unexpected exception: %s\n", e.what()); return 12; }
    return failed ? 10 : 0;
  }
  return 5;
}
