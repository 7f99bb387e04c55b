// Symbolic execution engine: expression DAG in normal form, z3 back end,
// depth-first path exploration by re-execution, counterexample search and
// replay of every counterexample on the concrete build.
#include "vf.hpp"
#include <z3++.h>
#include <gmpxx.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <chrono>
#include <optional>
#include <memory>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <poll.h>
#include <sys/mman.h>
#include <unistd.h>
#include <malloc.h>
#include <fcntl.h>
#include <deque>
#include <sys/time.h>

using symeng::u32;
using std::string;
using std::vector;
using Clock = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct PathAbort {};        // path abandoned (assumption violated / skip / budget)
struct Stop {};             // exploration stops
struct EngineError { string what; };

// ---------------------------------------------------------------- tables
enum class AK { VAR, SQRT, EXP, LOG, ABS, ITE, DEF, FLOOR, OPAQUE };
struct Atom { AK k; string name; bool isInt = false; u32 a = 0, b = 0, f = 0; vector<u32> closure; bool positive = false, nonneg = false; };
using Mono = vector<std::pair<u32, u32>>;
using Term = std::pair<u32, mpq_class>;   // mono id, coefficient
using Poly = vector<Term>;
struct Node { u32 num; vector<std::pair<u32, u32>> den; };   // den: (poly id, exponent)
enum class FK { T, F, LT, LE, EQ, AND, OR, NOT };
struct Form { FK k; u32 p = 0; vector<u32> kids; vector<u32> closure; };

static std::deque<Atom> atoms;
static std::deque<Mono> monos; static std::map<Mono, u32> monoIdx;
static std::deque<Poly> polys;
static std::deque<Node> nodes;
static std::deque<Form> forms;
static std::deque<vector<u32>> polyClosure;

static size_t hcomb(size_t h, size_t v) { return h * 1000003u ^ (v + 0x9e3779b97f4a7c15ull + (h << 6)); }
static size_t hq(const mpq_class& q) {
  size_t h = 7; const mpz_class &n = q.get_num(), &d = q.get_den();
  h = hcomb(h, mpz_get_ui(n.get_mpz_t())); h = hcomb(h, mpz_size(n.get_mpz_t())); h = hcomb(h, mpz_get_ui(d.get_mpz_t())); h = hcomb(h, sgn(q) + 2); return h;
}
static std::unordered_multimap<size_t, u32> polyIdx, nodeIdx, formIdx;
static std::map<std::tuple<int, string, u32, u32, u32>, u32> atomIdx;

static u32 monoId(const Mono& m) {
  auto it = monoIdx.find(m); if (it != monoIdx.end()) return it->second;
  u32 id = monos.size(); monos.push_back(m); monoIdx[m] = id; return id;
}
static u32 deg(u32 m) { u32 d = 0; for (auto& p : monos[m]) d += p.second; return d; }
// graded lexicographic; returns true when a is greater
static bool monoGreater(u32 a, u32 b) {
  if (a == b) return false;
  u32 da = deg(a), db = deg(b); if (da != db) return da > db;
  const Mono &x = monos[a], &y = monos[b]; size_t i = 0;
  for (; i < x.size() && i < y.size(); ++i) {
    if (x[i].first != y[i].first) return x[i].first < y[i].first;
    if (x[i].second != y[i].second) return x[i].second > y[i].second;
  }
  return x.size() > y.size();
}
static std::unordered_map<uint64_t, u32> monoMulCache;
static u32 monoMul(u32 a, u32 b) {
  if (a == 0) return b; if (b == 0) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b; auto it = monoMulCache.find(key); if (it != monoMulCache.end()) return it->second;
  const Mono x = monos[a], y = monos[b]; Mono r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; }
  }
  u32 id = monoId(r); monoMulCache[key] = id; return id;
}
static bool monoDiv(u32 a, u32 b, u32& q) {   // q = a / b
  const Mono x = monos[a], y = monos[b]; Mono r; size_t j = 0;
  for (auto& p : x) {
    if (j < y.size() && y[j].first == p.first) { if (y[j].second > p.second) return false; if (p.second > y[j].second) r.push_back({p.first, p.second - y[j].second}); ++j; }
    else { if (j < y.size() && y[j].first < p.first) return false; r.push_back(p); }
  }
  if (j != y.size()) return false;
  q = monoId(r); return true;
}
static void mergeInto(vector<u32>& a, const vector<u32>& b) {
  vector<u32> r; r.reserve(a.size() + b.size()); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); a.swap(r);
}
static u32 polyId(Poly p) {
  size_t h = 11; for (auto& t : p) { h = hcomb(h, t.first); h = hcomb(h, hq(t.second)); }
  auto r = polyIdx.equal_range(h); for (auto it = r.first; it != r.second; ++it) if (polys[it->second] == p) return it->second;
  u32 id = polys.size(); vector<u32> cl;
  for (auto& t : p) for (auto& at : monos[t.first]) mergeInto(cl, atoms[at.first].closure);
  polys.push_back(std::move(p)); polyClosure.push_back(cl); polyIdx.emplace(h, id); return id;
}
struct GreaterMono { bool operator()(u32 a, u32 b) const { return monoGreater(a, b); } };
static Poly polyAdd(const Poly& a, const Poly& b, int sign = 1) {
  Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size()) r.push_back(a[i++]);
    else if (i == a.size()) { r.push_back({b[j].first, sign > 0 ? b[j].second : mpq_class(-b[j].second)}); ++j; }
    else if (a[i].first == b[j].first) { mpq_class c = sign > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second); if (c != 0) r.push_back({a[i].first, c}); ++i; ++j; }
    else if (monoGreater(a[i].first, b[j].first)) r.push_back(a[i++]);
    else { r.push_back({b[j].first, sign > 0 ? b[j].second : mpq_class(-b[j].second)}); ++j; }
  }
  return r;
}
static Poly polyScale(const Poly& a, const mpq_class& c) { Poly r; if (c == 0) return r; r = a; for (auto& t : r) t.second *= c; return r; }
static Poly polyMul(const Poly& a, const Poly& b) {
  if (a.size() == 1 && a[0].first == 0) return polyScale(b, a[0].second);
  if (b.size() == 1 && b[0].first == 0) return polyScale(a, b[0].second);
  std::unordered_map<u32, mpq_class> acc;
  for (auto& x : a) for (auto& y : b) acc[monoMul(x.first, y.first)] += x.second * y.second;
  Poly r; for (auto& kv : acc) if (kv.second != 0) r.push_back({kv.first, kv.second});
  std::sort(r.begin(), r.end(), [](const Term& x, const Term& y) { return monoGreater(x.first, y.first); });
  return r;
}
static bool polyExactDiv(const Poly& a, const Poly& b, Poly& q) {
  if (b.size() > a.size() * 4 + 4) return false;
  q.clear(); Poly r = a; size_t steps = 0;
  while (!r.empty()) {
    u32 m; if (!monoDiv(r[0].first, b[0].first, m)) return false;
    if (++steps > 300) return false;
    mpq_class c = r[0].second / b[0].second;
    q.push_back({m, c});
    Poly t; t.reserve(b.size()); for (auto& x : b) t.push_back({monoMul(x.first, m), x.second * c});
    std::sort(t.begin(), t.end(), [](const Term& x, const Term& y) { return monoGreater(x.first, y.first); });
    r = polyAdd(r, t, -1);
  }
  return true;
}
static u32 P0, P1;     // zero and one
static u32 N0, N1;
static u32 nodeIntern(u32 num, vector<std::pair<u32, u32>> den) {
  size_t h = hcomb(3, num); for (auto& d : den) { h = hcomb(h, d.first); h = hcomb(h, d.second); }
  auto r = nodeIdx.equal_range(h); for (auto it = r.first; it != r.second; ++it) if (nodes[it->second].num == num && nodes[it->second].den == den) return it->second;
  u32 id = nodes.size(); nodes.push_back({num, den}); nodeIdx.emplace(h, id); return id;
}
static bool isConstPoly(u32 p, mpq_class* v = nullptr) {
  const Poly& q = polys[p]; if (q.empty()) { if (v) *v = 0; return true; }
  if (q.size() == 1 && q[0].first == 0) { if (v) *v = q[0].second; return true; } return false;
}
static bool isConst(u32 n, mpq_class* v = nullptr) { return nodes[n].den.empty() && isConstPoly(nodes[n].num, v); }
static u32 nodeConst(const mpq_class& q) { if (q == 0) return N0; return nodeIntern(polyId(Poly{{0u, q}}), {}); }
static u32 nodeAtom(u32 a) { return nodeIntern(polyId(Poly{{monoId({{a, 1}}), 1}}), {}); }

static u32 nAdd(u32 a, u32 b, int sign = 1), nMul(u32 a, u32 b), nInv(u32 a), nNeg(u32 a);
static u32 nDiv(u32 a, u32 b) { return nMul(a, nInv(b)); }
static u32 nPow(u32 a, unsigned e) { u32 r = N1; while (e--) r = nMul(r, a); return r; }

static bool reducible(u32 mono) { for (auto& p : monos[mono]) if (p.second >= 2 && (atoms[p.first].k == AK::SQRT || atoms[p.first].k == AK::ABS)) return true; return false; }
static u32 makeNode(Poly num, vector<std::pair<u32, u32>> den) {
  if (num.empty()) return N0;
  bool red = false; for (auto& t : num) if (reducible(t.first)) { red = true; break; }
  if (red) {
    Poly keep; u32 acc = N0;
    for (auto& t : num) {
      if (!reducible(t.first)) { keep.push_back(t); continue; }
      u32 x = nodeConst(t.second);
      const Mono m = monos[t.first];
      for (auto& p : m) {
        unsigned e = p.second; const Atom at = atoms[p.first];
        if (e >= 2 && (at.k == AK::SQRT || at.k == AK::ABS)) {
          u32 base = at.k == AK::SQRT ? at.a : nMul(at.a, at.a);
          x = nMul(x, nPow(base, e / 2)); e %= 2;
        }
        if (e) x = nMul(x, nodeIntern(polyId(Poly{{monoId({{p.first, e}}), 1}}), {}));
      }
      acc = nAdd(acc, x);
    }
    if (!keep.empty()) acc = nAdd(acc, nodeIntern(polyId(keep), {}));
    for (auto& d : den) for (unsigned i = 0; i < d.second; ++i) acc = nMul(acc, nInv(nodeIntern(d.first, {})));
    return acc;
  }
  vector<std::pair<u32, u32>> nd;
  for (auto& d : den) {
    unsigned e = d.second; const Poly f = polys[d.first]; Poly q;
    while (e > 0 && polyExactDiv(num, f, q)) { num = q; --e; }
    if (e) nd.push_back({d.first, e});
  }
  return nodeIntern(polyId(num), nd);
}
static const size_t MAXTERMS = 4000;
static u32 atomGet(AK k, const string& name, u32 a, u32 b, u32 f, bool isInt);
static u32 nodeDef(u32 n);   // abstract a big node by a defined variable
static u32 nAdd(u32 a, u32 b, int sign) {
  if (b == N0) return a; if (a == N0 && sign > 0) return b;
  const Node x = nodes[a], y = nodes[b];
  if (x.den.empty() && y.den.empty()) return nodeIntern(polyId(polyAdd(polys[x.num], polys[y.num], sign)), {});
  if (x.den == y.den) return makeNode(polyAdd(polys[x.num], polys[y.num], sign), x.den);
  Poly px = polys[x.num], py = polys[y.num]; std::map<u32, u32> l; 
  for (auto& d : x.den) l[d.first] = d.second;
  for (auto& d : y.den) l[d.first] = std::max(l[d.first], d.second);
  std::map<u32, u32> dx(x.den.begin(), x.den.end()), dy(y.den.begin(), y.den.end());
  for (auto& d : l) {
    for (unsigned i = dx[d.first]; i < d.second; ++i) px = polyMul(px, polys[d.first]);
    for (unsigned i = dy[d.first]; i < d.second; ++i) py = polyMul(py, polys[d.first]);
  }
  if (px.size() > MAXTERMS || py.size() > MAXTERMS) return nAdd(nodeDef(a), nodeDef(b), sign);
  return makeNode(polyAdd(px, py, sign), vector<std::pair<u32, u32>>(l.begin(), l.end()));
}
static u32 nMul(u32 a, u32 b) {
  if (a == N0 || b == N0) return N0; if (a == N1) return b; if (b == N1) return a;
  const Node x = nodes[a], y = nodes[b];
  if (polys[x.num].size() * polys[y.num].size() > MAXTERMS * 5) {
    if (polys[x.num].size() >= polys[y.num].size()) return nMul(nodeDef(a), b); else return nMul(a, nodeDef(b));
  }
  std::map<u32, u32> l(x.den.begin(), x.den.end()); for (auto& d : y.den) l[d.first] += d.second;
  return makeNode(polyMul(polys[x.num], polys[y.num]), vector<std::pair<u32, u32>>(l.begin(), l.end()));
}
static u32 nNeg(u32 a) { if (a == N0) return a; const Node x = nodes[a]; return nodeIntern(polyId(polyScale(polys[x.num], -1)), x.den); }
static u32 nInv(u32 a) {     // a is known to be nonzero
  const Node x = nodes[a]; Poly num{{0u, 1}};
  for (auto& d : x.den) for (unsigned i = 0; i < d.second; ++i) num = polyMul(num, polys[d.first]);
  const Poly p = polys[x.num];
  if (p.empty()) throw EngineError{"inverse of zero"};
  if (p.size() == 1) {   // monomial: split into atoms, rationalise sqrt
    mpq_class c = 1 / p[0].second; num = polyScale(num, c); u32 extra = N1; std::map<u32, u32> l;
    for (auto& at : monos[p[0].first]) {
      const Atom A = atoms[at.first];
      if (A.k == AK::SQRT && at.second == 1) { extra = nMul(extra, nMul(nodeAtom(at.first), nInv(A.a))); continue; }
      l[polyId(Poly{{monoId({{at.first, 1}}), 1}})] += at.second;
    }
    u32 r = makeNode(num, vector<std::pair<u32, u32>>(l.begin(), l.end()));
    return extra == N1 ? r : nMul(r, extra);
  }
  mpq_class lead = p[0].second; num = polyScale(num, 1 / lead);
  // common monomial of all terms apart
  Mono g = monos[p[0].first]; for (auto& t : p) { Mono h; for (auto& m : g) for (auto& k : monos[t.first]) if (k.first == m.first) h.push_back({m.first, std::min(m.second, k.second)}); g = h; }
  if (!g.empty()) { u32 gm = monoId(g), q; Poly r; for (auto& t : p) { if (!monoDiv(t.first, gm, q)) throw EngineError{"content"}; r.push_back({q, t.second / lead}); }
    r = polyAdd(r, Poly{}); u32 a1 = makeNode(num, {{polyId(r), 1}}); return nMul(a1, nInv(nodeIntern(polyId(Poly{{gm, 1}}), {}))); }
  u32 f = polyId(polyScale(p, 1 / lead));
  return makeNode(num, {{f, 1}});
}
static vector<u32> fracAtoms;
static vector<u32> nodeClosure(u32 n) { vector<u32> c = polyClosure[nodes[n].num]; for (auto& d : nodes[n].den) mergeInto(c, polyClosure[d.first]); return c; }
static u32 atomGet(AK k, const string& name, u32 a, u32 b, u32 f, bool isInt) {
  auto key = std::make_tuple((int)k, name, a, b, f); auto it = atomIdx.find(key); if (it != atomIdx.end()) return it->second;
  // the same function of an argument written differently (fractions over other denominators) is the same atom
  if ((k == AK::EXP || k == AK::LOG || k == AK::SQRT || k == AK::ABS || k == AK::FLOOR) && !nodes[a].den.empty())
    for (u32 i : fracAtoms) if (atoms[i].k == k && polys[nodes[atoms[i].a].num].size() * polys[nodes[a].num].size() <= 4000 && nAdd(atoms[i].a, a, -1) == N0) { atomIdx[key] = i; return i; }
  if (k != AK::VAR && k != AK::ITE && !nodes[a].den.empty()) fracAtoms.push_back(atoms.size());
  Atom A; A.k = k; A.name = name; A.a = a; A.b = b; A.f = f; A.isInt = isInt;
  u32 id = atoms.size(); A.closure = {id};
  vector<u32> c;
  if (k != AK::VAR) { mergeInto(c, nodeClosure(a)); if (k == AK::ITE) { mergeInto(c, nodeClosure(b)); mergeInto(c, forms[f].closure); } }
  mergeInto(A.closure, c);
  A.positive = k == AK::EXP; A.nonneg = k == AK::EXP || k == AK::SQRT || k == AK::ABS;
  atoms.push_back(A); atomIdx[key] = id; return id;
}
static u32 nodeDef(u32 n) { if (polys[nodes[n].num].size() <= 1 && nodes[n].den.empty()) return n; return nodeAtom(atomGet(AK::DEF, "def", n, 0, 0, false)); }

// ---------------------------------------------------------------- formulas
static const u32 FT = 0, FF = 1;
static u32 formIntern(FK k, u32 p, vector<u32> kids) {
  size_t h = hcomb((size_t)k, p); for (u32 x : kids) h = hcomb(h, x);
  auto r = formIdx.equal_range(h); for (auto it = r.first; it != r.second; ++it) { auto& f = forms[it->second]; if (f.k == k && f.p == p && f.kids == kids) return it->second; }
  u32 id = forms.size(); Form f; f.k = k; f.p = p; f.kids = kids;
  if (k == FK::LT || k == FK::LE || k == FK::EQ) f.closure = polyClosure[p]; else for (u32 x : kids) mergeInto(f.closure, forms[x].closure);
  forms.push_back(f); formIdx.emplace(h, id); return id;
}
static int monoSign(u32 m) {  // 2: >0, 1: >=0, 0: unknown
  bool pos = true;
  for (auto& p : monos[m]) { const Atom& A = atoms[p.first]; if (A.positive) continue; pos = false; if (A.nonneg) continue; if (p.second % 2) return 0; }
  return pos ? 2 : 1;
}
// sign facts of a polynomial: +2 >0, +1 >=0, -1 <=0, -2 <0, 0 unknown, 3 zero
static int polySign(const Poly& p) {
  if (p.empty()) return 3;
  bool strict = false; int s = 0;
  for (auto& t : p) { int ms = monoSign(t.first); if (!ms) return 0; int sg = sgn(t.second); if (s && sg != s) return 0; s = sg; if (ms == 2) strict = true; }
  return s * (strict ? 2 : 1);
}
static u32 mkCmpNode(u32 n, FK rel);
static u32 mkNot(u32 f);
static u32 mkAnd(u32 a, u32 b);
static u32 mkOr(u32 a, u32 b);
static u32 mkCmpPoly(Poly p, FK rel) {
  int s = polySign(p);
  if (s == 3) return rel == FK::LT ? FF : FT;
  if (rel == FK::LT) { if (s == 2 || s == 1) return FF; if (s == -2) return FT; }
  if (rel == FK::LE) { if (s == 2) return FF; if (s == -2 || s == -1) return FT; }
  if (rel == FK::EQ) { if (s == 2 || s == -2) return FF; }
  // drop strictly positive common monomials (exp)
  // sqrt special cases: terms c1*S1 [+ c2*S2 | + c0]
  auto isS = [&](const Term& t) { auto& m = monos[t.first]; return m.size() == 1 && m[0].second == 1 && atoms[m[0].first].k == AK::SQRT; };
  if (p.size() == 1 && isS(p[0])) {   // c*S rel 0
    u32 u = atoms[monos[p[0].first][0].first].a;
    if (sgn(p[0].second) > 0) { if (rel == FK::LT) return FF; return mkCmpNode(u, FK::EQ); }
    if (rel == FK::LE) return FT; if (rel == FK::EQ) return mkCmpNode(u, FK::EQ);
    return mkCmpNode(nNeg(u), FK::LT);
  }
  if (p.size() == 2 && isS(p[0]) && p[1].first == 0) {
    u32 u = atoms[monos[p[0].first][0].first].a; mpq_class c = p[0].second, k = -p[1].second / c, k2 = k * k;
    u32 d = nAdd(u, nodeConst(k2), -1);
    if (rel == FK::EQ) return sgn(k) < 0 ? FF : mkCmpNode(d, FK::EQ);
    if (sgn(c) > 0) { if (rel == FK::LT) return sgn(k) <= 0 ? FF : mkCmpNode(d, FK::LT); return sgn(k) < 0 ? FF : mkCmpNode(d, FK::LE); }
    if (rel == FK::LT) return sgn(k) < 0 ? FT : mkCmpNode(nNeg(d), FK::LT);
    return sgn(k) <= 0 ? FT : mkCmpNode(nNeg(d), FK::LE);
  }
  if (p.size() == 2 && isS(p[0]) && isS(p[1]) && sgn(p[0].second) != sgn(p[1].second)) {
    u32 u1 = atoms[monos[p[0].first][0].first].a, u2 = atoms[monos[p[1].first][0].first].a;
    u32 a = nMul(nodeConst(p[0].second * p[0].second), u1), b = nMul(nodeConst(p[1].second * p[1].second), u2);
    u32 d = sgn(p[0].second) > 0 ? nAdd(a, b, -1) : nAdd(b, a, -1);
    return mkCmpNode(d, rel);
  }
  // two products of exponentials with opposite signs: compare the exponents
  auto isE = [&](const Term& t) { for (auto& m : monos[t.first]) if (atoms[m.first].k != AK::EXP) return false; return true; };
  if (p.size() == 2 && isE(p[0]) && isE(p[1]) && sgn(p[0].second) * sgn(p[1].second) < 0 && p[0].second == -p[1].second) {
    int pos = sgn(p[0].second) > 0 ? 0 : 1; u32 n = N0;
    for (int i = 0; i < 2; ++i) for (auto& m : monos[p[i].first]) n = nAdd(n, nMul(nodeConst((long)m.second), atoms[m.first].a), i == pos ? 1 : -1);
    return mkCmpNode(n, rel);
  }
  // absolute values: c|u| rel 0, c|u| + k rel 0, c|u| - d|v| rel 0
  auto isA = [&](const Term& t) { auto& m = monos[t.first]; return m.size() == 1 && m[0].second == 1 && atoms[m[0].first].k == AK::ABS; };
  auto argA = [&](const Term& t) { return atoms[monos[t.first][0].first].a; };
  if (p.size() == 1 && isA(p[0])) {
    u32 z = mkCmpNode(argA(p[0]), FK::EQ); if (rel == FK::EQ) return z;
    if (sgn(p[0].second) > 0) return rel == FK::LT ? FF : z; return rel == FK::LE ? FT : mkNot(z);
  }
  int ia = -1, ik = -1; if (p.size() == 2) for (int i = 0; i < 2; ++i) { if (isA(p[i]) && p[1 - i].first == 0) { ia = i; ik = 1 - i; } }
  if (ia >= 0) {
    u32 u = argA(p[ia]); mpq_class k = -p[ik].second / p[ia].second; u32 K = nodeConst(k);     // |u| rel' k
    if (sgn(k) < 0) { if (rel == FK::EQ) return FF; return sgn(p[ia].second) > 0 ? FF : FT; }
    if (rel == FK::EQ) return mkOr(mkCmpNode(nAdd(u, K, -1), FK::EQ), mkCmpNode(nAdd(u, K, 1), FK::EQ));
    if (sgn(p[ia].second) > 0) return mkAnd(mkCmpNode(nAdd(u, K, -1), rel), mkCmpNode(nAdd(nNeg(u), K, -1), rel));
    return mkOr(mkCmpNode(nAdd(K, u, -1), rel), mkCmpNode(nAdd(K, u, 1), rel));
  }
  if (p.size() == 2 && isA(p[0]) && isA(p[1]) && sgn(p[0].second) != sgn(p[1].second)) {
    u32 a = nMul(nodeConst(p[0].second), argA(p[0])), b = nMul(nodeConst(p[1].second), argA(p[1]));
    if (sgn(p[0].second) < 0) std::swap(a, b);
    u32 m = nAdd(a, b, 1), q = nAdd(a, b, -1);       // |a| - |b| rel 0 iff (a+b)(a-b) rel 0, decided by the signs of the factors
    if (rel == FK::EQ) return mkOr(mkCmpNode(m, FK::EQ), mkCmpNode(q, FK::EQ));
    return mkOr(mkAnd(mkCmpNode(m, rel), mkCmpNode(nNeg(q), rel)), mkAnd(mkCmpNode(nNeg(m), rel), mkCmpNode(q, rel)));
  }
  mpq_class lead = p[0].second;
  if (rel == FK::EQ) p = polyScale(p, 1 / lead); else p = polyScale(p, 1 / mpq_class(abs(lead)));
  return formIntern(rel, polyId(p), {});
}
// n rel 0, denominators known nonzero
static u32 mkCmpNode(u32 n, FK rel) {
  const Node x = nodes[n]; Poly p = polys[x.num];
  if (rel != FK::EQ) for (auto& d : x.den) if (d.second % 2) {
    int s = polySign(polys[d.first]);
    if (s == 1 || s == 2) continue; if (s == -1 || s == -2) { p = polyScale(p, -1); continue; }
    p = polyMul(p, polys[d.first]);
  }
  bool red = false; for (auto& t : p) if (reducible(t.first)) red = true;
  if (red) return mkCmpNode(makeNode(p, {}), rel);
  return mkCmpPoly(p, rel);
}
static u32 mkNot(u32 f) {
  if (f == FT) return FF; if (f == FF) return FT;
  const Form F = forms[f];
  switch (F.k) {
    case FK::LT: return mkCmpPoly(polyScale(polys[F.p], -1), FK::LE);
    case FK::LE: return mkCmpPoly(polyScale(polys[F.p], -1), FK::LT);
    case FK::NOT: return F.kids[0];
    case FK::AND: case FK::OR: { vector<u32> k; for (u32 x : F.kids) k.push_back(mkNot(x)); std::sort(k.begin(), k.end()); return formIntern(F.k == FK::AND ? FK::OR : FK::AND, 0, k); }
    default: return formIntern(FK::NOT, 0, {f});
  }
}
static u32 mkNary(FK k, vector<u32> in) {
  u32 unit = k == FK::AND ? FT : FF, zero = k == FK::AND ? FF : FT; std::set<u32> s;
  for (u32 x : in) { if (x == unit) continue; if (x == zero) return zero; if (forms[x].k == k) { for (u32 y : forms[x].kids) s.insert(y); } else s.insert(x); }
  if (s.empty()) return unit; if (s.size() == 1) return *s.begin();
  for (u32 x : s) { u32 n = mkNot(x); if (s.count(n)) return zero; }
  return formIntern(k, 0, vector<u32>(s.begin(), s.end()));
}
static u32 mkAnd(u32 a, u32 b) { return mkNary(FK::AND, {a, b}); }
static u32 mkOr(u32 a, u32 b) { return mkNary(FK::OR, {a, b}); }

// ---------------------------------------------------------------- statistics
struct Stats {
  long local = 0, cvc5 = 0;
  long queries = 0, sat = 0, unsat = 0, unknown = 0, norm = 0, cache = 0; double solver_s = 0;
  long paths = 0, aborted = 0, branches = 0, forks = 0, choices = 0; long maxdepth = 0;
  long validated = 0, mismatch = 0; 
} st;

// ---------------------------------------------------------------- model evaluation
struct Val { bool exact = true; mpq_class q; double d = 0; };
static std::unordered_map<u32, Val> model;     // VAR atoms only
static std::unordered_map<u32, Val> evalCache; // all atoms, cleared when the model changes
static Val evalNode(u32 n);
static int evalForm(u32 f);   // 1 true, 0 false, -1 unknown
static mpq_class fromDouble(double d) { mpq_class q; if (!std::isfinite(d)) throw EngineError{"non-finite value as a rational"}; mpq_set_d(q.get_mpq_t(), d); return q; }
static Val vExact(const mpq_class& q) { Val v; v.q = q; v.d = q.get_d(); return v; }
static Val vApprox(double d) { Val v; v.exact = false; v.d = d; return v; }
struct PolyInfo { mpq_class lo, hi; bool hasLo = false, hasHi = false; };
static std::unordered_map<u32, PolyInfo> varRange;
static Val evalAtom(u32 a) {
  auto it = evalCache.find(a); if (it != evalCache.end()) return it->second;
  const Atom A = atoms[a]; Val r;
  switch (A.k) {
    case AK::VAR: { auto m = model.find(a); if (m != model.end()) r = m->second; else {
        mpq_class v = 0; auto pr = varRange.find(a); if (pr != varRange.end()) { if (pr->second.hasLo && v < pr->second.lo) v = pr->second.lo; if (pr->second.hasHi && v > pr->second.hi) v = pr->second.hi; } r = vExact(v); } break; }
    case AK::SQRT: { Val x = evalNode(A.a); if (x.exact && sgn(x.q) >= 0 && mpz_perfect_square_p(x.q.get_num_mpz_t()) && mpz_perfect_square_p(x.q.get_den_mpz_t())) {
        mpz_class n, d; mpz_sqrt(n.get_mpz_t(), x.q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), x.q.get_den_mpz_t()); r = vExact(mpq_class(n, d)); } else r = vApprox(std::sqrt(x.d)); break; }
    case AK::EXP: { Val x = evalNode(A.a); r = (x.exact && x.q == 0) ? vExact(1) : vApprox(std::exp(x.d)); break; }
    case AK::LOG: { Val x = evalNode(A.a); r = (x.exact && x.q == 1) ? vExact(0) : vApprox(std::log(x.d)); break; }
    case AK::ABS: { Val x = evalNode(A.a); r = x; if (x.exact) r = vExact(abs(x.q)); else r = vApprox(std::fabs(x.d)); break; }
    case AK::ITE: { int c = evalForm(A.f); if (c < 0) { Val x = evalNode(A.a), y = evalNode(A.b); r = vApprox(std::fabs(x.d - y.d) < 1e-9 ? x.d : std::nan("")); } else r = evalNode(c ? A.a : A.b); break; }
    case AK::DEF: r = evalNode(A.a); break;
    case AK::FLOOR: { Val x = evalNode(A.a); if (x.exact) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), x.q.get_num_mpz_t(), x.q.get_den_mpz_t()); r = vExact(mpq_class(f)); } else r = vApprox(std::floor(x.d)); break; }
    case AK::OPAQUE: r = vApprox(std::nan("")); if (A.name == "sin") r = vApprox(std::sin(evalNode(A.a).d)); if (A.name == "cos") r = vApprox(std::cos(evalNode(A.a).d)); break;
  }
  evalCache[a] = r; return r;
}
static Val evalPoly(u32 pid) {
  mpq_class q = 0; double d = 0, mag = 0; bool exact = true;
  for (auto& t : polys[pid]) {
    mpq_class tq = t.second; double td = t.second.get_d();
    for (auto& p : monos[t.first]) { Val v = evalAtom(p.first); for (unsigned i = 0; i < p.second; ++i) { if (exact && v.exact) tq *= v.q; td *= v.d; } if (!v.exact) exact = false; }
    if (exact) q += tq; d += td; mag += std::fabs(td);
  }
  if (exact) return vExact(q);
  Val r = vApprox(d); r.q = fromDouble(std::isfinite(mag) ? mag : 0); return r;
}
static Val evalNode(u32 n) {
  const Node& x = nodes[n]; Val v = evalPoly(x.num);
  for (auto& d : x.den) { Val w = evalPoly(d.first); for (unsigned i = 0; i < d.second; ++i) {
      if (v.exact && w.exact && w.q != 0) v = vExact(v.q / w.q); else v = vApprox(v.d / w.d); } }
  return v;
}
static int evalForm(u32 f) {
  const Form& F = forms[f];
  switch (F.k) {
    case FK::T: return 1; case FK::F: return 0;
    case FK::LT: case FK::LE: case FK::EQ: {
      Val v = evalPoly(F.p);
      if (v.exact) { int s = sgn(v.q); return F.k == FK::LT ? s < 0 : F.k == FK::LE ? s <= 0 : s == 0; }
      double m = v.q.get_d() * 1e-11 + 1e-300; if (!std::isfinite(v.d)) return -1;
      if (v.d < -m) return F.k != FK::EQ; if (v.d > m) return 0; return -1; }
    case FK::AND: { int r = 1; for (u32 k : F.kids) { int x = evalForm(k); if (x == 0) return 0; if (x < 0) r = -1; } return r; }
    case FK::OR: { int r = 0; for (u32 k : F.kids) { int x = evalForm(k); if (x == 1) return 1; if (x < 0) r = -1; } return r; }
    case FK::NOT: { int x = evalForm(F.kids[0]); return x < 0 ? x : !x; }
  }
  return -1;
}

// ---------------------------------------------------------------- enclosures of variable-free terms (outward rounded)
struct IV { long double lo = -INFINITY, hi = INFINITY; };
static IV ivOut(long double a, long double b) { auto w = [](long double x) { return std::fabs(x) * 4e-19L + 1e-4900L; }; IV r; if (std::isnan(a) || std::isnan(b)) return r; r.lo = a - w(a); r.hi = b + w(b); return r; }
static IV ivQ(const mpq_class& q0) { if (q0 == 0) { IV z; z.lo = z.hi = 0; return z; } long k = (long)mpz_sizeinbase(q0.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(q0.get_den_mpz_t(), 2); if (std::labs(k) > 16000) return IV();
  if (std::labs(k) > 900) { mpq_class q; if (k > 0) mpq_div_2exp(q.get_mpq_t(), q0.get_mpq_t(), k); else mpq_mul_2exp(q.get_mpq_t(), q0.get_mpq_t(), -k); IV v = ivQ(q); return ivOut(std::ldexp(v.lo, k), std::ldexp(v.hi, k)); }
  const mpq_class& q = q0; double d = q.get_d(); mpq_class rest = q - fromDouble(d); long double v = (long double)d + (long double)rest.get_d(); return ivOut(v, v); }
static IV ivAdd(const IV& a, const IV& b) { return ivOut(a.lo + b.lo, a.hi + b.hi); }
static IV ivMul(const IV& a, const IV& b) { long double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; for (auto x : p) if (std::isnan(x)) return IV(); return ivOut(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
static bool varFree(const vector<u32>& cl) { for (u32 a : cl) if (atoms[a].k == AK::VAR || atoms[a].k == AK::OPAQUE || atoms[a].k == AK::FLOOR || atoms[a].k == AK::ITE) return false; return true; }
static std::unordered_map<u32, IV> ivAtomMemo; static IV ivNode(u32 n);
static IV ivAtom(u32 a) {
  auto it = ivAtomMemo.find(a); if (it != ivAtomMemo.end()) return it->second; const Atom A = atoms[a]; IV r, x;
  auto w = [](long double v, int s) { return v + s * (std::fabs(v) * 1e-17L + 1e-4900L); };
  switch (A.k) {
    case AK::SQRT: x = ivNode(A.a); if (x.hi >= 0) { r.lo = x.lo > 0 ? w(std::sqrt(x.lo), -1) : 0; r.hi = w(std::sqrt(x.hi), 1); } break;
    case AK::EXP: x = ivNode(A.a); r.lo = std::max(0.0L, w(std::exp(x.lo), -1)); r.hi = w(std::exp(x.hi), 1); break;
    case AK::LOG: x = ivNode(A.a); if (x.lo > 0) r.lo = w(std::log(x.lo), -1); if (x.hi > 0) r.hi = w(std::log(x.hi), 1); break;
    case AK::ABS: x = ivNode(A.a); r.lo = x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0; r.hi = std::max(std::fabs(x.lo), std::fabs(x.hi)); break;
    case AK::DEF: r = ivNode(A.a); break;
    case AK::VAR: { auto v = varRange.find(a); if (v != varRange.end()) { if (v->second.hasLo) r.lo = ivQ(v->second.lo).lo; if (v->second.hasHi) r.hi = ivQ(v->second.hi).hi; } return r; }
    default: break;
  }
  return ivAtomMemo[a] = r;
}
static IV ivPoly(const Poly& p) { IV s; s.lo = s.hi = 0; for (auto& t : p) { IV m = ivQ(t.second); for (auto& f : monos[t.first]) { IV x = ivAtom(f.first); for (unsigned i = 0; i < f.second; ++i) m = ivMul(m, x); } s = ivAdd(s, m); } return s; }
static IV ivNode(u32 n) { const Node x = nodes[n]; IV v = ivPoly(polys[x.num]); for (auto& d : x.den) { IV w = ivPoly(polys[d.first]); if (!(w.lo > 0 || w.hi < 0)) return IV(); IV i = ivOut(1 / w.hi, 1 / w.lo); for (unsigned k = 0; k < d.second; ++k) v = ivMul(v, i); } return v; }
// truth of a variable-free comparison, -1 when the enclosure does not tell
static int ivForm(u32 f) {
  const Form F = forms[f]; if (F.k != FK::LT && F.k != FK::LE && F.k != FK::EQ) return -1;
  if (!varFree(polyClosure[F.p])) return -1; IV v = ivPoly(polys[F.p]);
  if (v.hi < 0) return F.k != FK::EQ; if (v.lo > 0) return 0; return -1;
}

// ---------------------------------------------------------------- z3
static z3::context* Z; static z3::solver* linS;
static std::unordered_map<u32, z3::expr> zAtom, zPoly, zForm;
static unsigned T_QUICK = 2000, T_CHECK = 15000;
static z3::expr zq(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr zOfPoly(u32 p);
static z3::expr zOfForm(u32 f);
static z3::expr zOfAtom(u32 a) {
  auto it = zAtom.find(a); if (it != zAtom.end()) return it->second;
  const Atom A = atoms[a]; z3::expr e(*Z);
  if (A.k == AK::ITE && nodes[A.a].den.empty() && nodes[A.b].den.empty()) e = z3::ite(zOfForm(A.f), zOfPoly(nodes[A.a].num), zOfPoly(nodes[A.b].num));
  else if (A.k == AK::ABS && nodes[A.a].den.empty()) { z3::expr x = zOfPoly(nodes[A.a].num); e = z3::ite(x >= 0, x, -x); }
  else { string nm = A.name + "!" + std::to_string(a); e = A.isInt ? z3::to_real(Z->int_const(nm.c_str())) : Z->real_const(nm.c_str()); }
  zAtom.emplace(a, e); return e;
}
// variable-free transcendental coefficients with more than one term become one constant with a tight enclosure each
static std::unordered_map<u32, z3::expr> zCoef; static vector<z3::expr> coefBounds;
static mpq_class ldq(long double v) { double h = (double)v; return fromDouble(h) + fromDouble((double)(v - h)); }
static Poly coefSplit(u32 pid, z3::expr_vector& sum) {
  const Poly& p = polys[pid]; bool any = false; for (u32 a : polyClosure[pid]) { AK k = atoms[a].k; if (k == AK::EXP || k == AK::LOG || k == AK::SQRT) { any = true; break; } } if (!any) return p;
  std::map<u32, Poly> g; auto vfree = [](u32 a) { AK k = atoms[a].k; return (k == AK::EXP || k == AK::LOG || k == AK::SQRT || k == AK::DEF) && varFree(nodeClosure(atoms[a].a)); };
  static std::unordered_map<u32, bool> memo; Poly rest; bool grp = false;
  for (auto& t : p) { Mono v, c; for (auto& x : monos[t.first]) { auto it = memo.find(x.first); bool b = it != memo.end() ? it->second : (memo[x.first] = vfree(x.first)); (b ? c : v).push_back(x); } g[monoId(v)].push_back({monoId(c), t.second}); }
  for (auto& kv : g) {
    Poly& c = kv.second; bool plain = true; for (auto& t : c) { if (deg(t.first) > 1) plain = false; for (auto& x : monos[t.first]) if (atoms[x.first].k != AK::LOG) plain = plain && c.size() == 1; } IV b; mpq_class lead;
    if (!plain) { std::sort(c.begin(), c.end(), [](const Term& x, const Term& y) { return monoGreater(x.first, y.first); }); lead = c[0].second; c = polyScale(c, 1 / lead); b = ivPoly(c); if (!(std::fabs(b.lo) < 1e300L && std::fabs(b.hi) < 1e300L)) plain = true; }
    if (plain) { for (auto& t : c) rest.push_back({monoMul(t.first, kv.first), plain && lead != 0 ? t.second * lead : t.second}); continue; }
    u32 id = polyId(c); auto it = zCoef.find(id);
    if (it == zCoef.end()) { z3::expr e = Z->real_const(("coef" + std::to_string(id)).c_str()); it = zCoef.emplace(id, e).first; coefBounds.push_back(e >= zq(ldq(b.lo))); coefBounds.push_back(e <= zq(ldq(b.hi))); }
    vector<Z3_ast> as; z3::expr q = zq(lead); as.push_back(q); as.push_back(it->second); vector<z3::expr> keep; for (auto& x : monos[kv.first]) for (unsigned i = 0; i < x.second; ++i) { keep.push_back(zOfAtom(x.first)); as.push_back(keep.back()); }
    sum.push_back(z3::expr(*Z, Z3_mk_mul(*Z, as.size(), as.data())));
  }
  return rest;
}
static z3::expr zOfPoly(u32 p) {
  auto it = zPoly.find(p); if (it != zPoly.end()) return it->second;
  z3::expr_vector sum(*Z); Poly rest = coefSplit(p, sum);
  for (auto& t : rest) {
    z3::expr_vector prod(*Z); if (t.second != 1 || t.first == 0) prod.push_back(zq(t.second));
    for (auto& x : monos[t.first]) for (unsigned i = 0; i < x.second; ++i) prod.push_back(zOfAtom(x.first));
    if (prod.size() == 1) sum.push_back(prod[0]); else { z3::expr e = prod[0]; vector<Z3_ast> as; for (unsigned i = 0; i < prod.size(); ++i) as.push_back(prod[i]); sum.push_back(z3::expr(*Z, Z3_mk_mul(*Z, as.size(), as.data()))); }
  }
  z3::expr e = sum.size() == 0 ? Z->real_val(0) : sum.size() == 1 ? sum[0] : z3::sum(sum);
  zPoly.emplace(p, e); return e;
}
static z3::expr zOfForm(u32 f) {
  auto it = zForm.find(f); if (it != zForm.end()) return it->second;
  const Form F = forms[f]; z3::expr e(*Z);
  switch (F.k) {
    case FK::T: e = Z->bool_val(true); break; case FK::F: e = Z->bool_val(false); break;
    case FK::LT: e = zOfPoly(F.p) < 0; break; case FK::LE: e = zOfPoly(F.p) <= 0; break; case FK::EQ: e = zOfPoly(F.p) == 0; break;
    case FK::NOT: e = !zOfForm(F.kids[0]); break;
    default: { z3::expr_vector v(*Z); for (u32 k : F.kids) v.push_back(zOfForm(k)); e = F.k == FK::AND ? z3::mk_and(v) : z3::mk_or(v); }
  }
  zForm.emplace(f, e); return e;
}
static z3::expr zDenProd(const Node& n) { z3::expr e = Z->real_val(1); bool first = true; for (auto& d : n.den) for (unsigned i = 0; i < d.second; ++i) { e = first ? zOfPoly(d.first) : e * zOfPoly(d.first); first = false; } return e; }
// side constraints defining an atom; returns whether they are linear
static bool polyLinear(u32 p) { for (auto& t : polys[p]) if (deg(t.first) > 1) return false; return true; }
static bool nodeLinear(u32 n) { if (!nodes[n].den.empty()) return false; return polyLinear(nodes[n].num); }
static bool formLinear(u32 f) { const Form& F = forms[f]; if (F.k == FK::LT || F.k == FK::LE || F.k == FK::EQ) return polyLinear(F.p); for (u32 k : F.kids) if (!formLinear(k)) return false; return true; }
static u32 cmpNodes(u32 a, u32 b, FK r) { return mkCmpNode(nAdd(a, b, -1), r); }
static bool sideConstraints(const vector<u32>& cl, vector<z3::expr>& out, bool& hasInt) {
  bool lin = true; vector<u32> exps, logs;
  for (u32 a : cl) {
    const Atom A = atoms[a]; if (A.isInt) hasInt = true;
    switch (A.k) {
      case AK::VAR: { auto it = varRange.find(a); if (it != varRange.end()) { if (it->second.hasLo) out.push_back(zOfAtom(a) >= zq(it->second.lo)); if (it->second.hasHi) out.push_back(zOfAtom(a) <= zq(it->second.hi)); } break; }
      case AK::SQRT: { lin = false; const Node n = nodes[A.a]; z3::expr s = zOfAtom(a); out.push_back(s >= 0); out.push_back(n.den.empty() ? s * s == zOfPoly(n.num) : s * s * zDenProd(n) == zOfPoly(n.num)); break; }
      case AK::DEF: { const Node n = nodes[A.a]; if (!nodeLinear(A.a)) lin = false; z3::expr s = zOfAtom(a); out.push_back(n.den.empty() ? s == zOfPoly(n.num) : s * zDenProd(n) == zOfPoly(n.num)); break; }
      case AK::FLOOR: { const Node n = nodes[A.a]; z3::expr s = zOfAtom(a); if (n.den.empty()) { if (!polyLinear(n.num)) lin = false; out.push_back(s <= zOfPoly(n.num)); out.push_back(zOfPoly(n.num) < s + 1); }
          else { lin = false; u32 self = nodeAtom(a); out.push_back(zOfForm(cmpNodes(self, A.a, FK::LE))); out.push_back(zOfForm(mkCmpNode(nAdd(nAdd(A.a, self, -1), N1, -1), FK::LT))); } break; }
      case AK::ITE: if (!formLinear(A.f)) lin = false; if (!(nodes[A.a].den.empty() && nodes[A.b].den.empty())) { lin = false; u32 self = nodeAtom(a); z3::expr c = zOfForm(A.f); out.push_back(z3::implies(c, zOfForm(cmpNodes(self, A.a, FK::EQ)))); out.push_back(z3::implies(!c, zOfForm(cmpNodes(self, A.b, FK::EQ)))); }
          else if (!nodeLinear(A.a) || !nodeLinear(A.b)) lin = false; break;
      case AK::ABS: if (!nodes[A.a].den.empty()) { lin = false; u32 self = nodeAtom(a); out.push_back(zOfAtom(a) >= 0); out.push_back(zOfForm(mkOr(cmpNodes(self, A.a, FK::EQ), cmpNodes(self, nNeg(A.a), FK::EQ)))); } else if (!nodeLinear(A.a)) lin = false; break;
      case AK::EXP: exps.push_back(a); break;
      case AK::LOG: logs.push_back(a); break;
      case AK::OPAQUE: if (A.name == "sin" || A.name == "cos") { out.push_back(zOfAtom(a) <= 1); out.push_back(zOfAtom(a) >= -1); } break;
    }
  }
  vector<u32> vexps, vlogs;
  for (u32 a : cl) { AK k = atoms[a].k; if (k != AK::SQRT && k != AK::EXP && k != AK::LOG) continue; mpq_class c; bool vf0 = varFree(nodeClosure(atoms[a].a));
    if (vf0 && !(k != AK::SQRT && isConst(atoms[a].a, &c))) { IV v = ivAtom(a); if (std::fabs(v.lo) < 1e300L) out.push_back(zOfAtom(a) >= zq(ldq(v.lo))); if (std::fabs(v.hi) < 1e300L) out.push_back(zOfAtom(a) <= zq(ldq(v.hi))); if (std::isfinite(v.lo) && std::isfinite(v.hi) && k != AK::SQRT) continue; }
    if (k == AK::EXP) vexps.push_back(a); if (k == AK::LOG) vlogs.push_back(a); }
  exps = vexps; logs = vlogs;
  auto F = [&](u32 f) { if (!formLinear(f)) lin = false; return zOfForm(f); };
  for (u32 a : exps) {
    u32 x = atoms[a].a; z3::expr e = zOfAtom(a); out.push_back(e > 0); mpq_class c;
    if (isConst(x, &c)) { double v = std::exp(c.get_d()); out.push_back(e >= zq(fromDouble(v * (1 - 1e-13)))); out.push_back(e <= zq(fromDouble(v * (1 + 1e-13)))); }
    else { out.push_back(z3::implies(F(mkCmpNode(x, FK::LT)), e < 1)); out.push_back(z3::implies(F(mkCmpNode(nNeg(x), FK::LT)), e > 1)); out.push_back(z3::implies(F(mkCmpNode(x, FK::EQ)), e == 1)); if (nodeLinear(x)) out.push_back(e >= zOfPoly(nodes[x].num) + 1); }
  }
  for (size_t i = 0; i < exps.size(); ++i) for (size_t j = i + 1; j < exps.size() && exps.size() <= 12; ++j) { u32 x = atoms[exps[i]].a, y = atoms[exps[j]].a;
      out.push_back(F(cmpNodes(x, y, FK::LT)) == (zOfAtom(exps[i]) < zOfAtom(exps[j]))); out.push_back(F(cmpNodes(x, y, FK::EQ)) == (zOfAtom(exps[i]) == zOfAtom(exps[j]))); }
  for (u32 a : exps) for (u32 b : exps) {   // exp(k u) = exp(u)^k
    const Node x = nodes[atoms[a].a], y = nodes[atoms[b].a]; const Poly &p = polys[x.num], &q = polys[y.num];
    if (a == b || p.size() != 1 || q.size() != 1 || p[0].first != q[0].first || p[0].first == 0 || x.den != y.den) continue; mpq_class k = p[0].second / q[0].second;
    if (k.get_den() == 1 && sgn(k) > 0 && k.get_num() <= 6) { z3::expr e = zOfAtom(b), r = e; for (long i = 1; i < k.get_num().get_si(); ++i) r = r * e; out.push_back(zOfAtom(a) == r); lin = false; }
  }
  for (u32 a : logs) {
    u32 x = atoms[a].a; z3::expr e = zOfAtom(a); mpq_class c;
    if (isConst(x, &c)) { double v = std::log(c.get_d()), w = std::fabs(v) * 1e-13 + 1e-300; out.push_back(e >= zq(fromDouble(v - w))); out.push_back(e <= zq(fromDouble(v + w))); }
    else { u32 x1 = nAdd(x, N1, -1); out.push_back(z3::implies(F(mkCmpNode(x1, FK::LT)), e < 0)); out.push_back(z3::implies(F(mkCmpNode(nNeg(x1), FK::LT)), e > 0)); out.push_back(z3::implies(F(mkCmpNode(x1, FK::EQ)), e == 0)); if (nodeLinear(x)) out.push_back(e <= zOfPoly(nodes[x].num) - 1); }
  }
  for (size_t i = 0; i < logs.size(); ++i) for (size_t j = i + 1; j < logs.size() && logs.size() <= 10; ++j) { u32 x = atoms[logs[i]].a, y = atoms[logs[j]].a;
      out.push_back(F(cmpNodes(x, y, FK::LT)) == (zOfAtom(logs[i]) < zOfAtom(logs[j]))); out.push_back(F(cmpNodes(x, y, FK::EQ)) == (zOfAtom(logs[i]) == zOfAtom(logs[j]))); }
  return lin;
}
enum Res { UNSAT, SAT, UNK };
using Model = std::unordered_map<u32, Val>;
static Val zval(const z3::expr& v0) {
  z3::expr v = v0;
  if (v.is_algebraic()) { z3::expr lo(*Z, Z3_get_algebraic_number_lower(*Z, v, 20)); string s = lo.get_decimal_string(18); return vApprox(std::atof(s.c_str())); }
  string s = Z3_get_numeral_string(*Z, v); mpq_class q; if (q.set_str(s, 10)) return vApprox(std::nan("")); q.canonicalize(); return vExact(q);
}
static vector<vector<u32>> dumpedQueries;
static string DUMPDIR; static long dumpCount = 0;
// cheap search for a model: mutate a few variables of the current model, exact evaluation
static uint64_t rngState = 88172645463325252ull;
static uint64_t rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void setModel(const Model& m);
static bool mutate(const vector<u32>& fs, const vector<u32>& cl, Model& out) {
  vector<u32> vars; for (u32 a : cl) if (atoms[a].k == AK::VAR) vars.push_back(a); if (vars.empty()) return false;
  Model save = model; bool found = false; double t0 = now();
  for (int it = 0; it < 120 && !found && now() - t0 < 0.05; ++it) {
    Model m = save; int k = 1 + rnd() % std::min<size_t>(3, vars.size());
    for (int j = 0; j < k; ++j) { u32 a = vars[rnd() % vars.size()]; mpq_class lo = -8, hi = 8; auto r = varRange.find(a); if (r != varRange.end()) { if (r->second.hasLo) lo = r->second.lo; if (r->second.hasHi) hi = r->second.hi; }
      mpq_class v; int mode = rnd() % 4; if (mode == 0) v = evalAtom(vars[rnd() % vars.size()]).q; else { v = lo + (hi - lo) * mpq_class((long)(rnd() % 65), 64); v.canonicalize(); if (mode == 1 || atoms[a].isInt) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); v = f; } }
      if (v < lo) v = lo; if (v > hi) v = hi; m[a] = vExact(v); }
    setModel(m); found = true; for (size_t i = fs.size(); i-- > 0;) if (evalForm(fs[i]) != 1) { found = false; break; }
    if (found) for (u32 a : vars) out[a] = evalAtom(a);
  }
  setModel(save); return found;
}
static Res solve(const vector<u32>& fs, Model* out, unsigned timeout, bool niceInts = false, int niceScale = 4) {
  vector<u32> cl; for (u32 f : fs) mergeInto(cl, forms[f].closure);
  bool lin = true, hasInt = false; for (u32 f : fs) if (!formLinear(f)) lin = false;
  vector<z3::expr> side; if (!sideConstraints(cl, side, hasInt)) lin = false;
  // closure of atoms introduced by side constraints stays inside cl by construction
  vector<z3::expr> all; for (u32 f : fs) all.push_back(zOfForm(f)); for (auto& e : side) all.push_back(e); for (auto& e : coefBounds) all.push_back(e);
  if (niceInts) { hasInt = true; for (u32 a : cl) if (atoms[a].k == AK::VAR && !atoms[a].isInt) all.push_back(z3::is_int(zOfAtom(a) * niceScale)); }
  auto run = [&](z3::solver& s, bool pushpop) -> Res {
    double t0 = now(); Res r = UNK; st.queries++;
    try {
      if (pushpop) s.push();
      for (auto& e : all) s.add(e);
      auto cr = s.check();
      r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNK;
      if (r == SAT && out) { z3::model m = s.get_model(); for (u32 a : cl) if (atoms[a].k == AK::VAR) { z3::expr v = m.eval(zOfAtom(a), true); if (v.is_numeral() || v.is_algebraic()) (*out)[a] = zval(v); } }
      if (pushpop) s.pop();
    } catch (z3::exception& e) { r = UNK; if (pushpop) { try { s.pop(); } catch (...) {} } }
    st.solver_s += now() - t0;
    if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
    return r;
  };
  struct Slow { double t0 = now(); vector<z3::expr>& all; ~Slow() { if (!DUMPDIR.empty() && now() - t0 > 0.4 && dumpCount < 400) { z3::solver s(*Z); for (auto& e : all) s.add(e); std::ofstream o(DUMPDIR + "/slow" + std::to_string(dumpCount++) + ".smt2"); o << "; " << now() - t0 << "\n" << s.to_smt2(); } } } slow{now(), all};
  if (!DUMPDIR.empty() && getenv("VF_DUMPALL") && dumpCount < 400) { z3::solver s(*Z); for (auto& e : all) s.add(e); std::ofstream o(DUMPDIR + "/q" + std::to_string(dumpCount++) + ".smt2"); o << s.to_smt2(); }
  if (lin && !niceInts) { linS->set("timeout", timeout); Res r = run(*linS, true); if (r != UNK) return r; }
  // The non-linear procedures do not always honour a time limit: they run in a child process, which is ended when its time is up.
  auto apart = [&](const char* tactic, unsigned ms) -> Res {
    double t0 = now(); int fd[2]; st.queries++; Res r = UNK; if (pipe(fd)) return UNK;
    pid_t kid = fork();
    if (kid == 0) {
      for (int g : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM, SIGILL}) signal(g, SIG_DFL);
      prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); string o = "U";
      try {
        z3::solver s = z3::tactic(*Z, tactic).mk_solver(); for (auto& e : all) s.add(e); auto cr = s.check();
        if (cr == z3::unsat) o = "0";
        else if (cr == z3::sat) { o = "1\n"; if (out) { z3::model m = s.get_model(); for (u32 a : cl) if (atoms[a].k == AK::VAR) { z3::expr v = m.eval(zOfAtom(a), true); if (!v.is_numeral() && !v.is_algebraic()) continue; Val x = zval(v); char b[64]; snprintf(b, sizeof b, "%.17g", x.d); o += std::to_string(a) + (x.exact ? " E " + x.q.get_str() : " A " + string(b)) + "\n"; } } }
      } catch (...) { o = "U"; }
      for (size_t i = 0; i < o.size();) { ssize_t w = write(fd[1], o.data() + i, o.size() - i); if (w <= 0) break; i += w; }
      close(fd[1]); _exit(0);
    }
    close(fd[1]); string o; bool done = false;
    while (kid > 0) { double left = ms / 1000.0 + 0.1 - (now() - t0); if (left <= 0) break; struct pollfd pf{fd[0], POLLIN, 0}; int k = poll(&pf, 1, (int)(left * 1000) + 1); if (k <= 0) continue; char b[4096]; ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) { done = true; break; } o.append(b, n); }
    close(fd[0]); if (kid > 0) { if (!done) kill(kid, SIGKILL); int w; while (waitpid(kid, &w, 0) < 0 && errno == EINTR) {} if (done && !(WIFEXITED(w) && WEXITSTATUS(w) == 0)) done = false; }
    if (done && o == "0") r = UNSAT;
    else if (done && !o.empty() && o[0] == '1') { r = SAT; if (out) { std::istringstream in(o.substr(2)); u32 a; string k, v; while (in >> a >> k >> v) (*out)[a] = k == "E" ? vExact(mpq_class(v)) : vApprox(std::atof(v.c_str())); } }
    st.solver_s += now() - t0; if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++; return r;
  };
  auto smt = [&](unsigned t) { return apart("smt", t); };
  auto nls = [&](unsigned t) { return apart("qfnra-nlsat", t); };
  if (out && !niceInts && mutate(fs, cl, *out)) { st.local++; return SAT; }
  Res r = smt(std::min(timeout, 150u)); if (r != UNK) return r;
  if (!hasInt) { r = nls(std::min(timeout, 300u)); if (r != UNK) return r; }
  if (!niceInts) {   // second solver: cvc5 (only its unsat verdicts are used)
    double t0 = now(); st.queries++; z3::solver s(*Z); for (auto& e : all) s.add(e); static int k = 0;
    string fn = "/tmp/vfq." + std::to_string(getpid()) + ".smt2"; { std::ofstream o(fn); o << (hasInt ? "(set-logic QF_NIRA)\n" : "(set-logic QF_NRA)\n") << s.to_smt2(); }
    string cmd = "timeout " + std::to_string(std::min(timeout, 1000u) / 1000.0 + 0.5) + " cvc5 --tlimit=" + std::to_string(std::min(timeout, 1000u)) + " " + fn + " 2>/dev/null"; (void)k;
    FILE* p = popen(cmd.c_str(), "r"); char buf[64] = {0}; if (p) { if (!fgets(buf, sizeof buf, p)) buf[0] = 0; pclose(p); } unlink(fn.c_str());
    st.solver_s += now() - t0; if (!strncmp(buf, "unsat", 5)) { st.unsat++; st.cvc5++; return UNSAT; } st.unknown++;
  }
  if (!hasInt) { r = nls(std::min(timeout, 2000u)); if (r != UNK) return r; }
  r = smt(timeout); if (r != UNK || hasInt) return r;
  return timeout > 1500 ? nls(timeout) : UNK;
}

// ---------------------------------------------------------------- exploration
struct Dec { u32 f = 0; int taken = 0; int n = 2; bool isChoice = false, other = false, forced = false; Model om; bool pcPushed = false; string cname; u32 kNode = 0; long long k = 0; };
static vector<Dec> trace; static size_t pos = 0;
static vector<u32> pc; static std::unordered_map<u32, int> pcSet;
static std::unordered_map<string, int> nameCount;
struct Input { string name; u32 atom; }; 
static vector<Input> inputs; static vector<std::pair<string, int>> choicesMade;
struct Out { string name; Sym v; }; static vector<Out> outs;
static double tStart, BUDGET = 60, PATH_T = 60; static long MAXPATHS = 1000000, MAXDEC = 20000;
static string INST, REPLAY, OUTDIR;
static bool truncated = false; static string truncWhy;
struct CheckStat { long evals = 0, proved = 0, triv = 0, undecided = 0, unconfirmed = 0; };
static std::map<string, CheckStat> checks; static std::map<string, long> reached;
struct Violation { string check, replay, detail; }; static vector<Violation> violations;
static vector<string> sampleLines; static string encodesNames;
static std::unordered_map<string, Res> queryCache;
static vector<string> notes;

// pcSet maps a literal of the path condition to the trace position which added it
static void pushPC(u32 f, int at) { if (f == FT) return; if (forms[f].k == FK::AND) { for (u32 k : forms[f].kids) pushPC(k, at); return; } pc.push_back(f); pcSet.emplace(f, at); }
static bool inPC(u32 f) { auto it = pcSet.find(f); return it != pcSet.end() && it->second < (int)pos; }
static vector<u32> slice(const vector<u32>& fs) {
  vector<u32> cl; for (u32 f : fs) mergeInto(cl, forms[f].closure);
  vector<u32> r; vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) { const auto& c = forms[pc[i]].closure; bool hit = false; size_t a = 0, b = 0; while (a < c.size() && b < cl.size()) { if (c[a] == cl[b]) { hit = true; break; } if (c[a] < cl[b]) ++a; else ++b; } if (hit) { used[i] = 1; ch = true; mergeInto(cl, c); } } }
  for (size_t i = 0; i < pc.size(); ++i) if (used[i]) r.push_back(pc[i]);
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static Res feasible(u32 f, Model* m, unsigned timeout) {
  vector<u32> q = slice({f}); q.push_back(f); std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end());
  Model mm; string key; if (true) { key.assign((const char*)q.data(), q.size() * sizeof(u32)); auto it = queryCache.find(key); if (it != queryCache.end() && it->second == UNSAT) { st.cache++; return UNSAT; } }
  Res r = solve(q, m ? &mm : nullptr, timeout);
  if (r == UNSAT) queryCache[key] = r;
  if (r == SAT && m) { *m = model; for (auto& kv : mm) (*m)[kv.first] = kv.second; }
  return r;
}
static void setModel(const Model& m) { model = m; evalCache.clear(); }
static void budget() { if (now() - tStart > BUDGET) { truncated = true; truncWhy = "time budget"; throw Stop{}; } }

static bool noFork = false; struct Unresolved {};      // inside a simplification: no decisions are added to the trace
static bool branch(u32 f) {
  if (f == FT) return true; if (f == FF) return false;
  st.branches++;
  { int c = ivForm(f); if (c < 0 && forms[f].k == FK::NOT) { c = ivForm(forms[f].kids[0]); if (c >= 0) c = !c; } if (c >= 0) return c; }
  u32 nf = mkNot(f);
  if (inPC(f)) return true; if (inPC(nf)) return false;
  if (noFork) { int v = evalForm(f); if (v >= 0 && feasible(v ? nf : f, nullptr, 400) == UNSAT) return v; throw Unresolved{}; }
  if (pos < trace.size()) { Dec& d = trace[pos++]; if (d.isChoice || d.f != f) throw EngineError{"nondeterministic re-execution"}; return d.taken; }
  budget();
  if ((long)trace.size() > MAXDEC) { truncated = true; truncWhy = "decision limit on a path"; throw PathAbort{}; }
  Dec d; d.f = f; int v = evalForm(f); Model om;
  if (v >= 0) {
    Res r = feasible(v ? nf : f, &om, T_QUICK);
    d.taken = v; if (r == UNSAT) d.forced = true; else { d.other = true; d.om = r == SAT ? om : model; }
  } else {
    Model m1, m2; Res r1 = feasible(f, &m1, T_QUICK), r2 = feasible(nf, &m2, T_QUICK);
    if (r1 == UNSAT && r2 == UNSAT) throw PathAbort{};
    if (r1 == UNSAT) { d.taken = 0; d.forced = true; if (r2 == SAT) setModel(m2); }
    else if (r2 == UNSAT) { d.taken = 1; d.forced = true; if (r1 == SAT) setModel(m1); }
    else { d.taken = 1; d.other = true; d.om = r2 == SAT ? m2 : model; if (r1 == SAT) setModel(m1); }
  }
  if (!d.forced) { st.forks++; }
  // a forced literal is implied by the path condition, but keep it: it makes later lookups cheap
  trace.push_back(d); pos++; pushPC(d.taken ? f : nf, trace.size() - 1); trace.back().pcPushed = true;
  return d.taken;
}
static void assumeF(u32 f) {
  if (f == FT) return; if (f == FF) throw PathAbort{};
  if (inPC(f)) return;
  if (pos < trace.size()) { Dec& d = trace[pos++]; if (d.isChoice || d.f != f) throw EngineError{"nondeterministic re-execution (assume)"}; if (!d.taken) throw PathAbort{}; return; }
  Dec d; d.f = f; d.forced = true; d.taken = 1; int v = evalForm(f);
  if (v != 1) { Model m; Res r = feasible(f, &m, T_CHECK); if (r == UNSAT) { d.taken = 0; trace.push_back(d); pos++; throw PathAbort{}; } if (r == SAT) setModel(m); }
  trace.push_back(d); pos++; pushPC(f, trace.size() - 1);
}
static u32 litOf(const Dec& d) { return d.taken ? d.f : mkNot(d.f); }
static void rebuildPC() { pc.clear(); pcSet.clear(); for (size_t i = 0; i < trace.size(); ++i) if (!trace[i].isChoice) pushPC(litOf(trace[i]), i); }
static bool backtrack() {
  while (!trace.empty()) {
    Dec& d = trace.back();
    if (d.isChoice) { if (d.taken + 1 < d.n) { d.taken++; setModel(d.om); rebuildPC(); return true; } }
    else if (d.other) { d.other = false; d.taken = !d.taken; setModel(d.om); rebuildPC(); return true; }
    trace.pop_back();
  }
  return false;
}

// ---------------------------------------------------------------- Sym operations
static u32 nodeOf(const Sym& s);
static Sym mk(u32 n) {
  mpq_class c; if (isConst(n, &c)) { double d = c.get_d(); if (std::isfinite(d) && fromDouble(d) == c) return Sym(d); }
  return Sym::node(n);
}
static long uninitCount = 0;
static bool isUninit(const Sym& s) { return s.id == 0 ? s.tag != 0 : s.tag != (s.id ^ symeng::TAG) || s.id >= nodes.size(); }
static Sym canon(const Sym& s) {
  if (!isUninit(s)) return s;
  string nm = "uninit"; int k = nameCount[nm]++; u32 a = atomGet(AK::VAR, nm + "#" + std::to_string(k), 0, 0, 0, false); uninitCount++;
  if (uninitCount == 1) notes.push_back("read of an uninitialised scalar");
  return Sym::node(nodeAtom(a));
}
static bool conc(const Sym& s) { return s.id == 0; }
static bool nonfin(const Sym& s) { return s.id == 0 && !std::isfinite(s.c); }
static u32 nodeOf(const Sym& s) { if (s.id) return s.id; if (!std::isfinite(s.c)) throw EngineError{"non-finite value in node"}; return nodeConst(fromDouble(s.c)); }
static int signFork(const Sym& s) { if (symeng::cmp_lt(s, Sym(0))) return -1; if (symeng::cmp_lt(Sym(0), s)) return 1; return 0; }
namespace symeng {
static const double INF = std::numeric_limits<double>::infinity();
static const double NANV = std::numeric_limits<double>::quiet_NaN();
Sym op_add(const Sym& a0, const Sym& b0) {
  Sym a = canon(a0), b = canon(b0);
  if (conc(a) && conc(b)) { double r = a.c + b.c; if (!std::isfinite(a.c) || !std::isfinite(b.c)) return Sym(r);
    if (std::isfinite(r)) { double bb = r - a.c; double e = (a.c - (r - bb)) + (b.c - bb); if (e == 0) return Sym(r); } }
  if (nonfin(a)) return a; if (nonfin(b)) return b;
  return mk(nAdd(nodeOf(a), nodeOf(b)));
}
Sym op_neg(const Sym& a0) { Sym a = canon(a0); if (conc(a)) return Sym(-a.c); return mk(nNeg(a.id)); }
Sym op_sub(const Sym& a0, const Sym& b0) {
  Sym a = canon(a0), b = canon(b0);
  if (conc(a) && conc(b)) return op_add(a, Sym(-b.c));
  if (nonfin(a)) return a; if (nonfin(b)) return Sym(-b.c);
  return mk(nAdd(nodeOf(a), nodeOf(b), -1));
}
Sym op_mul(const Sym& a0, const Sym& b0) {
  Sym a = canon(a0), b = canon(b0);
  if (conc(a) && conc(b)) { double r = a.c * b.c; if (!std::isfinite(a.c) || !std::isfinite(b.c)) return Sym(r);
    if (std::isfinite(r) && (r == 0 ? (a.c == 0 || b.c == 0) : std::fabs(r) > 1e-200) && std::fma(a.c, b.c, -r) == 0) return Sym(r); }
  if (nonfin(a) || nonfin(b)) { if (nonfin(b)) std::swap(a, b); if (std::isnan(a.c)) return a; int s = signFork(b); if (s == 0) return Sym(NANV); return Sym(s * a.c); }
  return mk(nMul(nodeOf(a), nodeOf(b)));
}
Sym op_div(const Sym& a0, const Sym& b0) {
  Sym a = canon(a0), b = canon(b0);
  if (conc(a) && conc(b)) { double r = a.c / b.c; if (!std::isfinite(a.c) || !std::isfinite(b.c) || b.c == 0) return Sym(r);
    if (std::isfinite(r) && (r == 0 ? a.c == 0 : std::fabs(r) > 1e-200) && std::fma(r, b.c, -a.c) == 0) return Sym(r); }
  if (nonfin(b)) return std::isnan(b.c) ? b : Sym(0.0);
  if (nonfin(a)) { if (std::isnan(a.c)) return a; int s = signFork(b); return Sym((s < 0 ? -1 : 1) * a.c); }
  if (cmp_eq(b, Sym(0))) { int s = signFork(a); return s == 0 ? Sym(NANV) : Sym(s * INF); }
  return mk(nDiv(nodeOf(a), nodeOf(b)));
}
static u32 fcmp(const Sym& a, const Sym& b, FK r) { return mkCmpNode(nAdd(nodeOf(a), nodeOf(b), -1), r); }
// formula of a comparison, IEEE semantics for non-finite operands
static u32 cmpForm(const Sym& a0, const Sym& b0, FK r) {
  Sym a = canon(a0), b = canon(b0);
  if (nonfin(a) || nonfin(b)) { double x = nonfin(a) ? a.c : 0, y = nonfin(b) ? b.c : 0; bool v = r == FK::LT ? x < y : r == FK::LE ? x <= y : x == y; return v ? FT : FF; }
  if (conc(a) && conc(b)) { bool v = r == FK::LT ? a.c < b.c : r == FK::LE ? a.c <= b.c : a.c == b.c; return v ? FT : FF; }
  if (a.id && a.id == b.id) return r == FK::LT ? FF : FT;
  u32 d = nAdd(nodeOf(a), nodeOf(b), -1), f = mkCmpNode(d, r);
  if (f == FT || f == FF) return f;
  // decided by a comparison of the same two terms already on the path
  u32 l = mkCmpNode(d, FK::LT), g = mkCmpNode(nNeg(d), FK::LT);
  if (r == FK::EQ) { if (inPC(l) || inPC(g)) return FF; if (inPC(mkNot(g)) && inPC(mkNot(l))) return FT; }
  else { u32 e = mkCmpNode(d, FK::EQ); if (r == FK::LE) { if (inPC(l) || inPC(e)) return FT; if (inPC(g)) return FF; } else { if (inPC(e) || inPC(g)) return FF; } }
  return f;
}
bool cmp_lt(const Sym& a, const Sym& b) { return branch(cmpForm(a, b, FK::LT)); }
bool cmp_le(const Sym& a, const Sym& b) { return branch(cmpForm(a, b, FK::LE)); }
bool cmp_eq(const Sym& a, const Sym& b) { return branch(cmpForm(a, b, FK::EQ)); }
bool truth(const Sym& a) { return !cmp_eq(a, Sym(0)); }
bool f_isnan(const Sym& a0) { Sym a = canon(a0); return conc(a) && std::isnan(a.c); }
bool f_isinf(const Sym& a0) { Sym a = canon(a0); return conc(a) && std::isinf(a.c); }
bool f_isfinite(const Sym& a0) { Sym a = canon(a0); return !conc(a) || std::isfinite(a.c); }
static bool expGuard = false, expFlush = false; static void guardCheck(const Sym& a);
static Sym iteF(u32 f, const Sym& a, const Sym& b) {
  if (f == FT) return a; if (f == FF) return b;
  if (inPC(f)) return a; if (inPC(mkNot(f))) return b;
  if (nonfin(a) || nonfin(b)) return branch(f) ? a : b;
  u32 x = nodeOf(a), y = nodeOf(b); if (x == y) return a;
  return mk(nodeAtom(atomGet(AK::ITE, "ite", x, y, f, false)));
}
static Sym constRoot(const mpq_class& q, bool& ok) {
  ok = false; if (sgn(q) >= 0 && mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) { mpz_class n, d; mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t()); ok = true; return mk(nodeConst(mpq_class(n, d))); } return Sym(0.0);
}
// perfect square test of a polynomial: p = r*r ?
static bool polySqrt(const Poly& p, Poly& r) {
  if (p.empty()) { r.clear(); return true; }
  auto msq = [](u32 m, u32& o) { Mono x; for (auto& t : monos[m]) { if (t.second % 2) return false; x.push_back({t.first, t.second / 2}); } o = monoId(x); return true; };
  u32 lm; if (!msq(p[0].first, lm)) return false; bool ok; Sym c = constRoot(p[0].second, ok); if (!ok) return false;
  mpq_class lc; isConst(nodeOf(c), &lc); r = {{lm, lc}}; Poly rem = polyAdd(p, polyMul(r, r), -1);
  int guard = 0;
  while (!rem.empty()) {
    u32 m; if (!monoDiv(rem[0].first, lm, m)) return false; if (++guard > 60) return false;
    mpq_class k = rem[0].second / (2 * lc); Poly t{{m, k}};
    if (!monoGreater(r.back().first, m)) return false;
    rem = polyAdd(rem, polyAdd(polyScale(polyMul(r, t), 2), polyMul(t, t)), -1); r.push_back({m, k});
  }
  return true;
}
Sym f_abs(const Sym& a0) {
  Sym a = canon(a0); if (conc(a)) return Sym(std::fabs(a.c));
  Node n = nodes[a.id]; int s = 3; 
  if (n.den.empty()) s = polySign(polys[n.num]);
  if (s == 1 || s == 2) return a; if (s == -1 || s == -2) return op_neg(a);
  u32 f = mkCmpNode(a.id, FK::LT); if (f == FT || inPC(f)) return op_neg(a); if (f == FF || inPC(mkNot(f))) return a;
  u32 x = a.id; if (sgn(polys[n.num][0].second) < 0) x = nNeg(x);
  // |c*m| = c*|m|
  const Poly& p = polys[nodes[x].num]; mpq_class lead = p[0].second;
  if (lead != 1) { u32 y = nMul(x, nodeConst(1 / lead)); return mk(nMul(nodeConst(lead), nodeAtom(atomGet(AK::ABS, "abs", y, 0, 0, false)))); }
  return mk(nodeAtom(atomGet(AK::ABS, "abs", x, 0, 0, false)));
}
Sym f_sqrt(const Sym& a0) {
  Sym a = canon(a0);
  if (conc(a)) { if (!(a.c >= 0) || std::isinf(a.c)) return Sym(std::sqrt(a.c)); double r = std::sqrt(a.c); if (std::fma(r, r, -a.c) == 0) return Sym(r); }
  u32 n = nodeOf(a); mpq_class q; if (isConst(n, &q)) { bool ok; Sym r = constRoot(q, ok); if (ok) return r;
    if (sgn(q) > 0 && (q.get_num() > 1000000 || q.get_den() > 1000000)) {   // small prime factors apart, sqrt(n/d) = sqrt(n d)/d
      mpz_class z = q.get_num() * q.get_den(); mpq_class c(1, q.get_den()); u32 r2 = N1;
      for (long f = 2; f < 100; ++f) { long e = 0; while (z % f == 0) { z /= f; ++e; } for (long i = 0; i < e / 2; ++i) c *= f; if (e % 2) r2 = nMul(r2, nodeAtom(atomGet(AK::SQRT, "sqrt", nodeConst(f), 0, 0, false))); }
      c.canonicalize(); if (z != 1) { Sym w = constRoot(mpq_class(z), ok); r2 = nMul(r2, ok ? nodeOf(w) : nodeAtom(atomGet(AK::SQRT, "sqrt", nodeConst(mpq_class(z)), 0, 0, false))); }
      return mk(nMul(nodeConst(c), r2)); } }
  if (cmp_lt(a, Sym(0))) return Sym(NANV);
  // perfect squares (numerator and denominator)
  Node x = nodes[n]; Poly r; bool denOk = true; for (auto& d : x.den) if (d.second % 2) denOk = false;
  if (denOk && polySqrt(polys[x.num], r)) { vector<std::pair<u32, u32>> dd; for (auto& d : x.den) dd.push_back({d.first, d.second / 2}); u32 y = makeNode(r, dd); return f_abs(mk(y)); }
  // pull out constant square factor: sqrt(c*u) with c rational square
  mpq_class lead = abs(polys[x.num][0].second); bool ok; Sym cr = constRoot(lead, ok);
  if (ok && lead != 1) { u32 y = nMul(n, nodeConst(1 / lead)); return op_mul(cr, mk(nodeAtom(atomGet(AK::SQRT, "sqrt", y, 0, 0, false)))); }
  return mk(nodeAtom(atomGet(AK::SQRT, "sqrt", n, 0, 0, false)));
}
static std::map<std::pair<u32, u32>, vector<mpq_class>> expBases; static long expUnit = 1; static bool expWhole = false;
Sym f_exp(const Sym& a0) {
  Sym a = canon(a0); if (expGuard && !(conc(a) && !(a.c > 709))) guardCheck(a); if (conc(a)) { if (!std::isfinite(a.c)) return Sym(std::exp(a.c)); if (a.c == 0) return Sym(1.0); }
  if (expFlush && (conc(a) ? a.c < -746 : cmp_lt(a, Sym(-746.0)))) return Sym(0.0);      // underflow
  u32 n = nodeOf(a); Node x = nodes[n]; u32 r = N1;
  const Poly p = polys[x.num];
  if (expWhole) { bool lg = false; for (auto& t : p) if (monos[t.first].size() == 1 && atoms[monos[t.first][0].first].k == AK::LOG && p.size() == 1 && x.den.empty()) lg = true; if (!lg) return mk(nodeAtom(atomGet(AK::EXP, "exp", n, 0, 0, false))); }
  if (p.size() > 6 || (!x.den.empty() && p.size() > 3)) {   // long exponents stay whole, sign-normalised
    bool hasLog = false; for (auto& t : p) for (auto& m : monos[t.first]) if (atoms[m.first].k == AK::LOG) hasLog = true;
    if (!hasLog) { bool neg = sgn(p[0].second) < 0; u32 E = nodeAtom(atomGet(AK::EXP, "exp", neg ? nNeg(n) : n, 0, 0, false)); return mk(neg ? nInv(E) : E); }
  }
  for (auto& t : p) {
    // exp of a single term, c*m/den; log terms collapse
    mpq_class c = t.second; 
    { u32 whole = makeNode(Poly{{t.first, c}}, x.den); const Node W = nodes[whole];
      if (W.den.empty() && polys[W.num].size() == 1) { const Term wt = polys[W.num][0]; const Mono m = monos[wt.first]; mpq_class wc = wt.second;
        if (m.size() == 1 && m[0].second == 1 && atoms[m[0].first].k == AK::LOG && (wc.get_den() == 1 || wc.get_den() == 2)) { long e = wc.get_num().get_si(); u32 u = atoms[m[0].first].a; if (wc.get_den() == 2) u = nodeOf(f_sqrt(mk(u))); r = nMul(r, e >= 0 ? nPow(u, e) : nInv(nPow(u, -e))); continue; } } }
    long e = 1; mpq_class base = c;
    {        // a power of an exponential already in use when possible, else of exp(m/denominator)
      auto& used = expBases[{t.first, makeNode(Poly{{t.first, 1}}, x.den)}]; bool hit = false;
      for (auto& b : used) { mpq_class q = c / b; if (q.get_den() == 1 && abs(q.get_num()) <= std::max(48L, 8 * expUnit)) { e = q.get_num().get_si(); base = b; hit = true; break; } }
      if (!hit) { if (abs(c.get_num()) <= 48 && c.get_den() <= 48) { mpq_class u(1, expUnit), k = c / u; if (k.get_den() == 1 && abs(k.get_num()) <= 400) { e = k.get_num().get_si(); base = u; } else { e = c.get_num().get_si(); base = mpq_class(1) / c.get_den(); } } else if (sgn(c) < 0) { e = -1; base = -c; } used.push_back(base); }
    }
    u32 arg = makeNode(Poly{{t.first, base}}, x.den);
    u32 E = nodeAtom(atomGet(AK::EXP, "exp", arg, 0, 0, false));
    r = nMul(r, e >= 0 ? nPow(E, e) : nInv(nPow(E, -e)));
  }
  return mk(r);
}
// log of a positive rational: integer combination of logs of primes where numerator and denominator are small
static u32 logConst(const mpq_class& q) {
  if (q == 1) return N0;
  mpz_class n = q.get_num(), d = q.get_den(); mpq_class exp2 = 0;
  auto tz = [](mpz_class& z) { unsigned long k = mpz_scan1(z.get_mpz_t(), 0); if (k) mpz_fdiv_q_2exp(z.get_mpz_t(), z.get_mpz_t(), k); return (long)k; };
  long k2 = tz(n) - tz(d);
  // log 2pi is most often written as a constant, which reaches the engine as a double: the same term here
  static const mpz_class twoPi = [&] { mpz_class z = mpq_class(fromDouble(2.0 * M_PI)).get_num(); tz(z); return z; }();
  if (n == twoPi && d == 1) { static const long e = [&] { mpq_class q = fromDouble(2.0 * M_PI); mpz_class a = q.get_num(), b = q.get_den(); return tz(a) - tz(b); }();
    u32 r = nodeConst(fromDouble(std::log(2.0 * M_PI))); return k2 == e ? r : nAdd(r, nMul(nodeConst(k2 - e), nodeAtom(atomGet(AK::LOG, "log", nodeConst(2), 0, 0, false)))); }
  auto plain = [&](const mpq_class& v) { return nodeAtom(atomGet(AK::LOG, "log", nodeConst(v), 0, 0, false)); };
  u32 r = N0; if (k2) r = nAdd(r, nMul(nodeConst(k2), plain(2)));
  if (n > 1000000 || d > 1000000) {
    auto small = [&](mpz_class& z, int sg) { for (long f = 3; f < 100; f += 2) { long e = 0; while (z % f == 0) { z /= f; ++e; } if (e) r = nAdd(r, nMul(nodeConst(sg * e), plain(f))); } };
    small(n, 1); small(d, -1); mpq_class rest(n, d); return rest == 1 ? r : nAdd(r, plain(rest));
  }
  auto fac = [&](long z, int sg) { for (long f = 3; z > 1; f += 2) { if (f * f > z) f = z; long e = 0; while (z % f == 0) { z /= f; ++e; } if (e) r = nAdd(r, nMul(nodeConst(sg * e), plain(f))); } };
  fac(n.get_si(), 1); fac(d.get_si(), -1); return r;
}
Sym f_log(const Sym& a0) {
  Sym a = canon(a0); if (conc(a)) { if (!(a.c > 0) || std::isinf(a.c)) return Sym(std::log(a.c)); if (a.c == 1) return Sym(0.0); }
  u32 n = nodeOf(a); { mpq_class cq; if (isConst(n, &cq) && sgn(cq) > 0) return mk(logConst(cq)); }
  if (!conc(a)) { if (cmp_le(a, Sym(0))) { if (cmp_eq(a, Sym(0))) return Sym(-INF); return Sym(NANV); } }
  { const Poly q = polys[nodes[n].num]; if (q.size() == 1) for (auto& x : vector<std::pair<u32, unsigned>>(monos[q[0].first].begin(), monos[q[0].first].end())) if (atoms[x.first].k == AK::ABS) {   // |t| of decided sign
      u32 t = atoms[x.first].a; u32 neg = cmpNodes(t, N0, FK::LT), pos = cmpNodes(N0, t, FK::LT); u32 v; if (feasible(neg, nullptr, 400) == UNSAT) v = t; else if (feasible(pos, nullptr, 400) == UNSAT) v = nMul(nodeConst(-1), t); else continue;
      u32 A = nodeAtom(x.first); n = nMul(n, nPow(nMul(v, nInv(A)), x.second)); }
    a = mk(n); }
  Node x = nodes[n]; u32 r = N0; const Poly p = polys[x.num];
  if (expWhole && x.den.empty() && p.size() > 1) {
    bool all = true; vector<std::pair<u32, mpq_class>> ts; for (auto& t : p) { auto& m = monos[t.first]; if (t.first == 0) ts.push_back({N0, t.second}); else if (m.size() == 1 && m[0].second == 1 && atoms[m[0].first].k == AK::EXP) ts.push_back({atoms[m[0].first].a, t.second}); else all = false; }
    if (all) { u32 piv = ts[0].first; for (auto& t : ts) { u32 d = nAdd(t.first, piv, -1); if (d != N0 && sgn(polys[nodes[d].num][0].second) < 0) piv = t.first; }
      Sym s(0.0); for (auto& t : ts) s = op_add(s, op_mul(mk(nodeConst(t.second)), f_exp(mk(nAdd(t.first, piv, -1))))); u32 w = nodeOf(s); mpq_class q; u32 l = isConst(w, &q) ? logConst(q) : nodeAtom(atomGet(AK::LOG, "log", w, 0, 0, false)); return mk(nAdd(piv, l)); } }
  auto posP = [&](const Poly& q) { if (polySign(q) == 2) return true; u32 f = mkCmpPoly(polyScale(q, -1), FK::LT); if (f == FT || inPC(f) || ivPoly(q).lo > 0) return true; if (f == FF || ivPoly(q).hi < 0 || evalForm(f) == 0) return false; return feasible(mkNot(f), nullptr, 400) == UNSAT; };
  auto logPoly = [&](const Poly& q) -> u32 {    // q positive
    mpq_class lead = q[0].second; u32 acc = N0; Poly s = q;
    if (q.size() == 1) { // c * prod atoms
      bool pos = monoSign(q[0].first) == 2; if (!pos && deg(q[0].first) > 1) { pos = true; for (auto& at : monos[q[0].first]) if (pos && !posP(Poly{{monoId({{at.first, 1}}), 1}})) pos = false; }
      if (sgn(q[0].second) > 0 && pos) {
        for (auto& at : monos[q[0].first]) acc = nAdd(acc, nMul(nodeConst((long)at.second), atoms[at.first].k == AK::EXP ? atoms[at.first].a : nodeAtom(atomGet(AK::LOG, "log", nodeAtom(at.first), 0, 0, false))));
        if (lead != 1) acc = nAdd(acc, logConst(lead));
        return acc;
      }
      if (monos[q[0].first].size() == 1 && monos[q[0].first][0].second == 1 && sgn(lead) > 0 && (lead != 1 || atoms[monos[q[0].first][0].first].k == AK::SQRT) && q[0].first != 0) {
        acc = logConst(lead); s = Poly{{q[0].first, 1}};
        const Atom& A0 = atoms[monos[q[0].first][0].first];
        if (A0.k == AK::SQRT) { Sym l = f_log(mk(A0.a)); return nAdd(acc, nMul(nodeConst(mpq_class(1, 2)), nodeOf(l))); }
      }
    }
    if (expWhole && q.size() > 1) { Poly sc = polyScale(q, 1 / abs(lead)), rt; if (polySqrt(sc, rt) && rt.size() > 1) { if (!posP(rt)) rt = polyScale(rt, -1); if (posP(rt)) return nAdd(nAdd(acc, logConst(abs(lead))), nMul(nodeConst(2), nodeAtom(atomGet(AK::LOG, "log", nodeIntern(polyId(rt), {}), 0, 0, false)))); } }
    if (q.size() > 1 && abs(lead) != 1) { acc = nAdd(acc, logConst(abs(lead))); s = polyScale(s, 1 / abs(lead)); }
    return nAdd(acc, nodeAtom(atomGet(AK::LOG, "log", nodeIntern(polyId(s), {}), 0, 0, false)));
  };
  if (p.size() > 1) for (auto& at : monos[p[0].first]) {   // a root or exponential common to all terms is taken out
    u32 A = at.first; if (atoms[A].k != AK::SQRT && atoms[A].k != AK::EXP && !(expWhole && posP(Poly{{monoId({{A, 1}}), 1}}))) continue; bool all = true; Poly rest; u32 q;
    for (auto& t : p) { if (!monoDiv(t.first, monoId({{A, 1}}), q)) { all = false; break; } rest.push_back({q, t.second}); }
    if (!all) continue; std::sort(rest.begin(), rest.end(), [](const Term& a, const Term& b) { return monoGreater(a.first, b.first); });
    Sym l = atoms[A].k == AK::EXP ? mk(atoms[A].a) : atoms[A].k == AK::SQRT ? op_mul(Sym(0.5), f_log(mk(atoms[A].a))) : f_log(mk(nodeAtom(A))); return op_add(l, f_log(mk(makeNode(rest, x.den)))); }
  bool split = true; Poly pn = p; for (auto& d : x.den) if (!posP(polys[d.first])) split = false;
  if (!split) { split = true; for (auto& d : x.den) { Poly m = polyScale(polys[d.first], -1); if (posP(polys[d.first])) continue; if (!posP(m)) { split = false; break; } if (d.second % 2) pn = polyScale(pn, -1); d.first = polyId(m); } if (!split) { x = nodes[n]; pn = p; } }
  // monomial common factor of exp atoms in the numerator is pulled out
  if (!split) return mk(nodeAtom(atomGet(AK::LOG, "log", n, 0, 0, false)));
  r = logPoly(pn); for (auto& d : x.den) r = nAdd(r, nMul(nodeConst((long)d.second), logPoly(polys[d.first])), -1);
  return mk(r);
}
Sym f_floor(const Sym& a0) {
  Sym a = canon(a0); if (conc(a)) return Sym(std::floor(a.c)); mpq_class q;
  if (isConst(a.id, &q)) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return mk(nodeConst(mpq_class(f))); }
  // integer-valued linear combination of integer atoms
  Node x = nodes[a.id]; if (x.den.empty()) { bool allInt = true; for (auto& t : polys[x.num]) { if (t.second.get_den() != 1) allInt = false; for (auto& m : monos[t.first]) if (!atoms[m.first].isInt) allInt = false; } if (allInt) return a; }
  return mk(nodeAtom(atomGet(AK::FLOOR, "floor", a.id, 0, 0, true)));
}
Sym f_pow(const Sym& a0, const Sym& b0) {
  Sym a = canon(a0), b = canon(b0);
  if (conc(b)) {
    if (conc(a) && (nonfin(a) || nonfin(b))) return Sym(std::pow(a.c, b.c));
    double e = b.c; if (e == 0) return Sym(1.0);
    if (e == std::floor(e) && std::fabs(e) <= 16) { Sym r(1.0); for (int i = 0; i < std::fabs(e); ++i) r = op_mul(r, a); return e < 0 ? op_div(Sym(1.0), r) : r; }
    if (e == 0.5) return f_sqrt(a); if (e == -0.5) return op_div(Sym(1.0), f_sqrt(a));
  }
  if (conc(a) && a.c == 1) return a;
  if (conc(b) && b.c > 0 && cmp_eq(a, Sym(0))) return Sym(0.0);
  return f_exp(op_mul(b, f_log(a)));
}
Sym f_opaque(const char* fn, const Sym& a0) { Sym a = canon(a0); if (conc(a) && a.c == 0) return Sym(string(fn) == "cos" ? 1.0 : 0.0); return mk(nodeAtom(atomGet(AK::OPAQUE, fn, nodeOf(a), 0, 0, false))); }
// bound on |value| from the input ranges; exponentials only as parts of a denominator with positive terms. Infinite when unknown.
double& machineEps() { static double e = std::numeric_limits<double>::epsilon(); return e; }
static double nodeBound(u32 n);
static double atomBound(u32 a) {
  const Atom A = atoms[a];
  switch (A.k) {
    case AK::VAR: { auto it = varRange.find(a); if (it == varRange.end() || !it->second.hasLo || !it->second.hasHi) return INF; return std::max(std::fabs(it->second.lo.get_d()), std::fabs(it->second.hi.get_d())) * (1 + 1e-12); }
    case AK::ABS: return nodeBound(A.a);
    case AK::ITE: return std::max(nodeBound(A.a), nodeBound(A.b));
    default: return INF;
  }
}
static double nodeBound(u32 n) {
  static std::unordered_map<u32, double> memo; auto it = memo.find(n); if (it != memo.end()) return it->second;
  const Node x = nodes[n]; Poly D{{0u, 1}}; bool ok = true;
  for (auto& d : x.den) { if (polySign(polys[d.first]) != 2) ok = false; for (unsigned i = 0; ok && i < d.second; ++i) { if (D.size() * polys[d.first].size() > 2000) ok = false; else D = polyMul(D, polys[d.first]); } }
  double s = ok ? 0 : INF;
  if (ok) { for (auto& t : D) for (auto& m : monos[t.first]) if (atoms[m.first].k != AK::EXP) ok = false; if (!ok) s = INF; }
  if (ok) for (auto& t : polys[x.num]) {
    Mono e; double b = std::fabs(t.second.get_d()) * (1 + 1e-12);
    for (auto& m : monos[t.first]) { if (atoms[m.first].k == AK::EXP) e.push_back(m); else b *= std::pow(atomBound(m.first), m.second); }
    u32 em = e.empty() ? 0u : monoId(e); double dc = 0; for (auto& q : D) if (q.first == em) dc = q.second.get_d();
    if (!(dc > 0)) { s = INF; break; } s += b / dc * (1 + 1e-12);
  }
  if (std::isnan(s)) s = INF; return memo[n] = s;
}
// min/max: both orientations of the condition give the same value, pick a canonical one
static Sym minmax(const Sym& a, const Sym& b, bool mx) {
  if (nonfin(a) || nonfin(b)) { if (mx) return iteF(cmpForm(a, b, FK::LT), b, a); return iteF(cmpForm(b, a, FK::LT), b, a); }
  if (conc(a) != conc(b)) { const Sym &k = conc(a) ? a : b, &v = conc(a) ? b : a; if (std::fabs(k.c) >= 1e6 && nodeBound(v.id) < std::fabs(k.c)) return mx == (k.c > 0) ? k : v; }
  u32 f = cmpForm(a, b, FK::LT);        // a < b
  if (forms[f].k == FK::LT && sgn(polys[forms[f].p][0].second) < 0) { u32 g = cmpForm(b, a, FK::LT); return mx ? iteF(g, a, b) : iteF(g, b, a); }
  return mx ? iteF(f, b, a) : iteF(f, a, b);
}
Sym f_min(const Sym& a0, const Sym& b0) { return minmax(canon(a0), canon(b0), false); }
Sym f_max(const Sym& a0, const Sym& b0) { return minmax(canon(a0), canon(b0), true); }
long long to_int(const Sym& a0) {
  Sym a = canon(a0); if (conc(a)) { if (!std::isfinite(a.c)) return std::numeric_limits<long long>::min(); return (long long)a.c; }
  if (cmp_lt(a, Sym(0))) { long long r = to_int(op_neg(a)); return -r; }
  Sym f = f_floor(a); if (conc(f)) return (long long)f.c;
  for (int guard = 0; guard < 4096; ++guard) {
    Val v = evalNode(nodeOf(f)); long long k = v.exact ? (long long)v.q.get_d() : (long long)std::floor(v.d + 1e-9);
    u32 fn = nodeOf(f); if (pos < trace.size() && trace[pos].kNode == fn) k = trace[pos].k;      // same candidate as when the decision was made
    size_t before = trace.size(); bool hit = cmp_eq(f, Sym((double)k)); if (trace.size() > before) { trace.back().kNode = fn; trace.back().k = k; }
    if (hit) return k;
  }
  throw EngineError{"unbounded concretisation"};
}
double to_double(const Sym& a0) { Sym a = canon(a0); if (conc(a)) return a.c; mpq_class q; if (isConst(a.id, &q)) return q.get_d(); throw EngineError{"symbolic value converted to double"}; }
string showPoly(u32 p) { std::ostringstream o; size_t k = 0; for (auto& t : polys[p]) { if (k++) o << " + "; if (k > 12) { o << "..."; break; } o << t.second.get_str(); for (auto& m : monos[t.first]) { o << "*" << atoms[m.first].name; if (atoms[m.first].k != AK::VAR) o << "@" << m.first; if (m.second > 1) o << "^" << m.second; } } if (!k) o << "0"; return o.str(); }
string show(const Sym& a0) { if (getenv("VF_ATOMS")) { static size_t k = 0; for (; k < atoms.size(); ++k) if (atoms[k].k != AK::VAR) { std::cerr << "  atom " << atoms[k].name << "@" << k << " = "; u32 n = atoms[k].a; std::cerr << showPoly(nodes[n].num); for (auto& d : nodes[n].den) std::cerr << " /(" << showPoly(d.first) << ")^" << d.second; std::cerr << "\n"; } } Sym a = a0; if (isUninit(a)) return "<uninit>"; if (conc(a)) { std::ostringstream o; o.precision(17); o << a.c; return o.str(); } string s = "(" + showPoly(nodes[a.id].num) + ")"; for (auto& d : nodes[a.id].den) { s += "/(" + showPoly(d.first) + ")^" + std::to_string(d.second); } return s; }
Sym imod(const Sym& a, const Sym& b) { Sym q = f_floor(op_div(a, b)); return op_sub(a, op_mul(b, q)); }
Sym idiv(const Sym& a, const Sym& b) { return f_floor(op_div(a, b)); }
Sym fresh(const char* name, double lo, double hi, bool hl, bool hh, bool isInt) {
  int k = nameCount[name]++; string nm = string(name) + "#" + std::to_string(k);
  u32 a = atomGet(AK::VAR, nm, 0, 0, 0, isInt);
  if (hl || hh) { PolyInfo pi; pi.hasLo = hl; pi.hasHi = hh; if (hl) pi.lo = fromDouble(lo); if (hh) pi.hi = fromDouble(hi); auto it = varRange.find(a); if (it == varRange.end()) varRange[a] = pi; else if ((hl && it->second.lo != pi.lo) || (hh && it->second.hi != pi.hi)) throw EngineError{"input range changed"}; }
  inputs.push_back({nm, a}); return Sym::node(nodeAtom(a));
}
int choose(const char* name, int n) {
  if (n <= 0) throw EngineError{"choose(0)"};
  string nm = string(name) + "#" + std::to_string(nameCount[name]++);
  if (n == 1) { choicesMade.push_back({nm, 0}); return 0; }
  if (pos < trace.size()) { Dec& d = trace[pos++]; if (!d.isChoice || d.n != n) throw EngineError{"nondeterministic re-execution (choose)"}; choicesMade.push_back({nm, d.taken}); return d.taken; }
  budget(); st.choices++;
  Dec d; d.isChoice = true; d.n = n; d.taken = 0; d.om = model; trace.push_back(d); pos++; choicesMade.push_back({nm, 0}); return 0;
}
} // namespace symeng
static std::vector<Sym> textTokens;
std::istream& symns::operator>>(std::istream& i, Sym& a) {
  // values written by vf::text appear as $index; anything else is read as a number of the platform
  if (std::istream::sentry(i)) { if (i.peek() == '$') { i.get(); std::string s; while (i.peek() != EOF && isdigit(i.peek())) s += char(i.get()); if (i.eof()) i.clear(std::ios::eofbit); size_t k = s.empty() ? textTokens.size() : std::stoul(s); if (k >= textTokens.size()) i.setstate(std::ios::failbit); else a = textTokens[k]; return i; } }
  else return i;
  double d; if (i >> d) a = Sym(d); else a = Sym(0.0); return i; }
namespace vf { std::string text(const Real& v) { textTokens.push_back(v); return "$" + std::to_string(textTokens.size() - 1); } }

// ---------------------------------------------------------------- concrete replay
static string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static bool modelInputs(const Model& m, string& text, string* human = nullptr) {
  std::ostringstream o, h; char buf[64];
  Model save = model; setModel(m); bool ok = true;
  for (auto& in : inputs) { Val v = evalAtom(in.atom); double d = v.exact ? v.q.get_d() : v.d; if (!std::isfinite(d)) ok = false; snprintf(buf, sizeof buf, "%a", d); o << (v.exact && fromDouble(d) == v.q ? "r " : "ri ") << in.name << " " << buf << "\n"; h << in.name << "=" << d << " "; }
  for (auto& c : choicesMade) { o << "c " << c.first << " " << c.second << "\n"; h << c.first << "=" << c.second << " "; }
  setModel(save); text = o.str(); if (human) *human = h.str(); return ok;
}
struct RepRes { int status = -1; bool crash = false, hang = false; string out; };
static RepRes runReplay(const string& text, const string& file) {
  { std::ofstream f(file); f << "instance " << INST << "\n" << text; }
  RepRes r; string of = file + ".out"; pid_t p = fork();
  if (p == 0) { setenv("GLIBC_TUNABLES", "glibc.malloc.perturb=189:glibc.malloc.tcache_count=0", 1); int fd = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); alarm(20); struct itimerval z = {}; setitimer(ITIMER_REAL, &z, nullptr); alarm(20); signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); execl(REPLAY.c_str(), REPLAY.c_str(), file.c_str(), (char*)0); _exit(99); }
  int stt = 0; waitpid(p, &stt, 0);
  if (WIFSIGNALED(stt)) { if (WTERMSIG(stt) == SIGALRM) r.hang = true; else r.crash = true; r.status = 1000 + WTERMSIG(stt); } else r.status = WEXITSTATUS(stt);
  std::ifstream i(of); std::stringstream ss; ss << i.rdbuf(); r.out = ss.str(); unlink(of.c_str()); return r;
}
// replay exit codes: 0 ok, 10 check violated, 11 assumption not met, 12 exception
static bool confirms(const RepRes& r) { return r.status == 10 || r.status == 12 || r.crash || r.hang; }
static int candNo = 0;
static string replayDetail(const RepRes& r) {
  if (r.crash) return "crash (signal " + std::to_string(r.status - 1000) + ")"; if (r.hang) return "does not terminate within 20 s";
  std::istringstream i(r.out); string l, d; while (std::getline(i, l)) if (l.rfind("FAIL", 0) == 0 || l.rfind("EXC", 0) == 0) { d = l; break; } return d;
}
static bool tryConfirm(const Model& m, const string& check) {
  string text, human; if (!modelInputs(m, text, &human)) return false;
  string file = OUTDIR + "/" + INST + "." + std::to_string(candNo++) + ".cex";
  RepRes r = runReplay(text, file);
  if (confirms(r)) { violations.push_back({check, file, replayDetail(r) + " | inputs: " + human}); return true; }
  unlink(file.c_str()); return false;
}
static u32 marginNeg(u32 f, const mpq_class& m) {   // stronger version of not f
  const Form F = forms[f];
  switch (F.k) {
    case FK::LT: { Poly p = polyScale(polys[F.p], -1); return mkCmpPoly(polyAdd(p, Poly{{0u, m}}), FK::LE); }
    case FK::LE: { Poly p = polyScale(polys[F.p], -1); return mkCmpPoly(polyAdd(p, Poly{{0u, m}}), FK::LE); }
    case FK::EQ: { Poly p = polys[F.p]; return mkOr(mkCmpPoly(polyAdd(p, Poly{{0u, m}}), FK::LE), mkCmpPoly(polyAdd(polyScale(p, -1), Poly{{0u, m}}), FK::LE)); }
    case FK::NOT: { const Form G = forms[F.kids[0]]; (void)G; return F.kids[0]; }
    case FK::AND: { vector<u32> k; for (u32 x : F.kids) k.push_back(marginNeg(x, m)); return mkNary(FK::OR, k); }
    case FK::OR: { vector<u32> k; for (u32 x : F.kids) k.push_back(marginNeg(x, m)); return mkNary(FK::AND, k); }
    default: return mkNot(f);
  }
}
// look for a model of pc & not f whose double rendering reproduces on the real build
static bool hunt(u32 f, const Model& first, const string& name) {
  if (tryConfirm(first, name)) return true;
  u32 nf = mkNot(f); vector<u32> base = pc; 
  auto all = [&](u32 g) { vector<u32> q = base; q.push_back(g); return q; };
  for (const char* ms : {"1", "1/100", "1/100000"}) { if (now() - tStart > BUDGET + 60) return false;
    Model m = model; u32 g = marginNeg(f, mpq_class(ms)); if (g == FF) continue; Model mm; if (solve(all(g), &mm, 4000) == SAT) { for (auto& kv : mm) m[kv.first] = kv.second; if (tryConfirm(m, name)) return true;
      // round to nice values and keep the ones which satisfy everything exactly
      for (int sc : {1, 4, 64, 4096}) { Model r = m; for (auto& kv : r) { mpz_class n; mpq_class t = (kv.second.exact ? kv.second.q : fromDouble(kv.second.d)) * sc + mpq_class(1, 2); mpz_fdiv_q(n.get_mpz_t(), t.get_num_mpz_t(), t.get_den_mpz_t()); mpq_class w(n, sc); w.canonicalize(); kv.second = vExact(w); }
        Model sv = model; setModel(r); bool ok = evalForm(nf) == 1; for (u32 x : base) if (ok && evalForm(x) == 0) ok = false; setModel(sv); if (ok && tryConfirm(r, name)) return true; } } }
  for (int sc : {1, 4, 64}) { if (now() - tStart > BUDGET + 90) return false; Model m = model, mm; if (solve(all(nf), &mm, 5000, true, sc) == SAT) { for (auto& kv : mm) m[kv.first] = kv.second; if (tryConfirm(m, name)) return true; } }
  return false;
}
namespace symeng {
// the same formula on this path: absolute values and conditionals whose sign or condition the path decides give way to the value they stand for, also inside exponentials, logarithms and roots
struct Resolver {
  std::unordered_map<u32, u32> nm, am; vector<u32> lits; u32 open = FT;      // lits: the case under consideration, open: a condition left undecided
  u32 with(u32 f) const { if (lits.empty()) return f; vector<u32> k = lits; k.push_back(f); return mkNary(FK::AND, k); }
  static bool has(const vector<u32>& cl) { for (u32 a : cl) if (atoms[a].k == AK::ABS || atoms[a].k == AK::ITE) return true; return false; }
  int decided(u32 f) {
    if (f == FT || inPC(f)) return 1; u32 nf = mkNot(f); if (f == FF || inPC(nf)) return 0; for (u32 l : lits) { if (l == f) return 1; if (l == nf) return 0; }
    int v = lits.empty() ? evalForm(f) : -1;
    if (v != 1 && feasible(with(f), nullptr, 400) == UNSAT) return 0; if (v != 0 && feasible(with(nf), nullptr, 400) == UNSAT) return 1;
    open = f; return -1;
  }
  u32 atom(u32 a) {
    auto it = am.find(a); if (it != am.end()) return it->second; const Atom A = atoms[a]; u32 r = nodeAtom(a); bool h = A.k == AK::ABS || A.k == AK::ITE; if (!h && A.k != AK::VAR) h = has(nodeClosure(A.a));
    if (h) switch (A.k) {
      case AK::ABS: { u32 x = node(A.a); int d = decided(mkCmpNode(x, FK::LT)); r = d == 0 ? x : d == 1 ? nNeg(x) : nodeOf(f_abs(mk(x))); break; }
      case AK::ITE: { u32 f = form(A.f); int d = decided(f); r = d == 1 ? node(A.a) : d == 0 ? node(A.b) : nodeOf(iteF(f, mk(node(A.a)), mk(node(A.b)))); break; }
      case AK::EXP: r = nodeOf(f_exp(mk(node(A.a)))); break;
      case AK::LOG: r = nodeOf(f_log(mk(node(A.a)))); break;
      case AK::SQRT: r = nodeOf(f_sqrt(mk(node(A.a)))); break;
      case AK::FLOOR: r = nodeOf(f_floor(mk(node(A.a)))); break;
      case AK::DEF: r = node(A.a); break;
      default: break;
    }
    am[a] = r; return r;
  }
  u32 poly(u32 p) { u32 s = N0; for (auto& t : Poly(polys[p])) { u32 m = nodeConst(t.second); for (auto& x : vector<std::pair<u32, unsigned>>(monos[t.first].begin(), monos[t.first].end())) m = nMul(m, nPow(atom(x.first), x.second)); s = nAdd(s, m); } return s; }
  u32 node(u32 n) { auto it = nm.find(n); if (it != nm.end()) return it->second; u32 r = n; const Node x = nodes[n]; if (has(nodeClosure(n))) { r = poly(x.num); for (auto& d : x.den) r = nMul(r, nInv(nPow(poly(d.first), d.second))); } nm[n] = r; return r; }
  u32 form(u32 f) {
    const Form F = forms[f]; if (!has(F.closure)) return f;
    switch (F.k) {
      case FK::LT: case FK::LE: case FK::EQ: return mkCmpNode(poly(F.p), F.k);
      case FK::NOT: return mkNot(form(F.kids[0]));
      case FK::AND: case FK::OR: { vector<u32> k; for (u32 x : F.kids) k.push_back(form(x)); return mkNary(F.k, k); }
      default: return f;
    }
  }
};
static bool provedByCases(u32 f, const vector<u32>& lits, int depth, double until) {
  if (now() > until) return false; Resolver r; r.lits = lits; u32 g; try { g = r.form(f); } catch (Unresolved&) { return false; } catch (EngineError&) { return false; }
  if (g == FT || inPC(g) || feasible(g == FF ? r.with(FT) : r.with(mkNot(g)), nullptr, lits.empty() ? T_CHECK : 1500) == UNSAT) return true;
  if (r.open == FT || depth == 0) return false; vector<u32> l = lits; l.push_back(r.open); if (!provedByCases(f, l, depth - 1, until)) return false; l.back() = mkNot(r.open); return provedByCases(f, l, depth - 1, until);
}
static bool byCases(u32 f) {
  if (!Resolver::has(forms[f].closure)) return false;
  struct Keep { bool g = symeng::expGuard, l = symeng::expFlush; Keep() { symeng::expGuard = symeng::expFlush = false; noFork = true; } ~Keep() { symeng::expGuard = g; symeng::expFlush = l; noFork = false; } } keep;
  return provedByCases(f, {}, 6, now() + 8);
}
} // namespace symeng
using symeng::byCases;
static long unconfirmedTotal = 0;
static void doCheck(const string& name, u32 f, CheckStat& cs) {
  if (forms[f].k == FK::AND) { auto kids = forms[f].kids; for (u32 k : kids) doCheck(name, k, cs); return; }
  cs.evals++;
  if (f == FT) { cs.triv++; st.norm++; return; }
  if (inPC(f)) { cs.triv++; return; }
  u32 nf = mkNot(f);
  Model m; Res r; 
  if (f == FF) {   // false whatever the inputs: is the path itself possible?
    r = SAT; m = model; bool held = true; for (u32 k : pc) if (evalForm(k) == 0) { held = false; break; }
    if (!held) { if (tryConfirm(model, name)) throw Stop{}; Model mm; Res q = solve(pc, &mm, T_CHECK); if (q == UNSAT) { cs.proved++; throw PathAbort{}; } if (q == SAT) { for (auto& kv : mm) m[kv.first] = kv.second; } }
  }
  else if (evalForm(f) == 0) { r = SAT; m = model; if (tryConfirm(model, name)) throw Stop{}; r = feasible(nf, &m, T_CHECK); if (r == UNK) { r = SAT; m = model; } }
  else r = feasible(nf, &m, T_CHECK);
  if (r == UNSAT) { cs.proved++; return; }
  if (f != FF && symeng::Resolver::has(forms[f].closure)) { if (r == SAT && tryConfirm(m, name)) throw Stop{}; if (byCases(f)) { cs.proved++; return; } }
  if (r == UNK) { Model sv = model; cs.undecided++; notes.push_back("undecided: " + name); return; }
  if (hunt(f, m, name)) throw Stop{};
  cs.unconfirmed++; unconfirmedTotal++; if (notes.size() < 40) { string text, human; modelInputs(m, text, &human); notes.push_back("unconfirmed: " + name + " " + human.substr(0, 400)); }
  if (cs.unconfirmed > 10) { truncated = true; truncWhy = "unconfirmed counterexamples"; throw Stop{}; }
}

namespace symeng { static void guardCheck(const Sym& a) { u32 f = cmpForm(a, Sym(709), FK::LE); doCheck("exp-no-overflow", f, checks["exp-no-overflow"]); } }
// ---------------------------------------------------------------- DSL
namespace vf {
std::vector<Instance>& instances() { static std::vector<Instance> v; return v; }
void assert_fail(const char* what, const char* file, int line) { string f = file; size_t s = f.rfind('/'); throw AssertFail("eigen_assert(" + string(what) + ") at " + f.substr(s == string::npos ? 0 : s + 1) + ":" + std::to_string(line)); }
Real real(const string& n, double lo, double hi) { return symeng::fresh(n.c_str(), lo, hi, true, true, false); }
Real real(const string& n) { return symeng::fresh(n.c_str(), 0, 0, false, false, false); }
Real integer(const string& n, long lo, long hi) { return symeng::fresh(n.c_str(), lo, hi, true, true, true); }
Real env_real(const Real& lo, const Real& hi, bool bounded) { if (bounded && lo.id == 0 && hi.id == 0 && std::isfinite(lo.c) && std::isfinite(hi.c)) { Real v = symeng::fresh("env.real", lo.c, hi.c, true, true, false); assume(lt(v, hi)); return v; } Real v = symeng::fresh("env.real", 0, 0, false, false, false); if (bounded) { assume(le(lo, v)); assume(lt(v, hi)); } return v; }
int choose(const string& n, int k) { return symeng::choose(n.c_str(), k); }
SB lt(const Real& a, const Real& b) { return SB::raw(symeng::cmpForm(a, b, FK::LT)); }
SB le(const Real& a, const Real& b) { return SB::raw(symeng::cmpForm(a, b, FK::LE)); }
SB eq(const Real& a, const Real& b) { return SB::raw(symeng::cmpForm(a, b, FK::EQ)); }
SB operator!(const SB& a) { return SB::raw(mkNot(a.f)); }
SB operator&(const SB& a, const SB& b) { return SB::raw(mkAnd(a.f, b.f)); }
SB operator|(const SB& a, const SB& b) { return SB::raw(mkOr(a.f, b.f)); }
SB is_finite(const Real& a0) { Sym a = canon(a0); return SB(!(conc(a) && !std::isfinite(a.c))); }
Real ite(const SB& c, const Real& a, const Real& b) { return symeng::iteF(c.f, canon(a), canon(b)); }
bool holds(const SB& a) { 
  const Form F = forms[a.f];
  if (F.k == FK::AND) { for (u32 k : F.kids) if (!holds(SB::raw(k))) return false; return true; }
  if (F.k == FK::OR) { for (u32 k : F.kids) if (holds(SB::raw(k))) return true; return false; }
  if (F.k == FK::NOT) return !holds(SB::raw(F.kids[0]));
  return branch(a.f); }
bool decide(const SB& a) { return branch(a.f); }
void assume(const SB& a) { if (forms[a.f].k == FK::AND) { auto k = forms[a.f].kids; for (u32 x : k) assumeF(x); } else assumeF(a.f); }
void check(const char* name, const SB& a) { double t = now(); doCheck(name, a.f, checks[name]); (void)t; }
void fail(const string& name) { doCheck(name, FF, checks[name]); throw PathAbort{}; }
void out(const char* n, const Real& v) { outs.push_back({n, v}); }
void tol(double) {}
void reach(const char* n) { reached[n]++; }
void exp_unit(int n) { symeng::expUnit = n; }
void eps_zero() { symeng::machineEps() = 0; }
void exp_whole(bool on) { symeng::expWhole = on; }
void exp_guard(bool on) { symeng::expGuard = on; }
void exp_flush(bool on) { symeng::expFlush = on; }
void skip() { throw PathAbort{}; }
bool symbolic() { return true; }
void encodes(const char* n) { if (encodesNames.find(n) == string::npos) { if (!encodesNames.empty()) encodesNames += "; "; encodesNames += n; } }
// ---- symbolic differentiation
static u32 dNode(u32 n, u32 v);
static u32 dAtom(u32 a, u32 v) {
  const Atom A = atoms[a]; if (a == v) return N1; if (!std::binary_search(A.closure.begin(), A.closure.end(), v)) return N0;
  switch (A.k) {
    case AK::VAR: return N0;
    case AK::SQRT: return nDiv(dNode(A.a, v), nMul(nodeConst(2), nodeAtom(a)));
    case AK::EXP: return nMul(dNode(A.a, v), nodeAtom(a));
    case AK::LOG: return nDiv(dNode(A.a, v), A.a);
    case AK::ABS: return nDiv(nMul(A.a, dNode(A.a, v)), nodeAtom(a));
    case AK::ITE: { u32 x = dNode(A.a, v), y = dNode(A.b, v); return x == y ? x : nodeAtom(atomGet(AK::ITE, "ite", x, y, A.f, false)); }
    case AK::DEF: return dNode(A.a, v);
    default: throw EngineError{"derivative of " + A.name};
  }
}
static u32 dPoly(u32 p, u32 v) {
  u32 r = N0; const Poly P = polys[p];
  for (auto& t : P) { const Mono m = monos[t.first]; for (size_t i = 0; i < m.size(); ++i) { u32 da = dAtom(m[i].first, v); if (da == N0) continue; Mono q = m; mpq_class c = t.second * m[i].second; if (q[i].second == 1) q.erase(q.begin() + i); else q[i].second--; r = nAdd(r, nMul(makeNode(Poly{{monoId(q), c}}, {}), da)); } }
  return r;
}
static u32 dNode(u32 n, u32 v) {
  const Node x = nodes[n]; u32 num = nodeIntern(x.num, {}), den = N1; for (auto& d : x.den) den = nMul(den, nPow(nodeIntern(d.first, {}), d.second));
  u32 dn = dPoly(x.num, v); if (x.den.empty()) return dn;
  u32 r = nDiv(dn, den);
  for (auto& d : x.den) { u32 dd = dPoly(d.first, v); if (dd == N0) continue; r = nAdd(r, nMul(nodeConst((long)d.second), nDiv(nMul(num, dd), nMul(den, nodeIntern(d.first, {})))), -1); }
  return r;
}
Real derivative(const std::function<Real(const Real&)>& f, const Real& x) {
  if (!x.id) throw EngineError{"derivative w.r.t. a constant"}; const Poly& p = polys[nodes[x.id].num]; u32 a = monos[p[0].first][0].first;
  Sym y = canon(f(x)); if (conc(y)) return Sym(0.0); return mk(dNode(y.id, a));
}
Real rsqrt_(const Real& a) { return symeng::f_sqrt(a); }
} // namespace vf

// ---------------------------------------------------------------- main
static volatile sig_atomic_t inCrash = 0;
static void onCrash(int sig) {
  if (inCrash) _exit(3); inCrash = 1; signal(SIGALRM, SIG_DFL); alarm(25);
  // confirm on the concrete build with the current model of the path
  string text; modelInputs(model, text); string file = OUTDIR + "/" + INST + ".crash.cex";
  RepRes r = runReplay(text, file);
  FILE* f = fopen((OUTDIR + "/" + INST + ".crash").c_str(), "w");
  if (f) { fprintf(f, "%d %d %s\n%s\n", sig, confirms(r) ? 1 : 0, file.c_str(), replayDetail(r).c_str()); fclose(f); }
  _exit(2);
}
static void initTables() {
  atoms.push_back(Atom{AK::VAR, "_", false}); atoms[0].closure = {};
  monoId({}); P0 = polyId({}); P1 = polyId(Poly{{0u, 1}});
  nodeIntern(0xffffffffu, {});   // id 0 is reserved for concrete values
  N0 = nodeIntern(P0, {}); N1 = nodeIntern(P1, {});
  formIntern(FK::T, 0, {}); formIntern(FK::F, 0, {});
}
static void explore(const vf::Instance& I) {
  tStart = now(); setModel({}); bool more = true; vector<string> batch; vector<vector<double>> expected; vector<vector<string>> expNames; long stride = 1;
  while (more) {
    pos = 0; symeng::expGuard = false; symeng::expFlush = false; symeng::expWhole = false; symeng::machineEps() = std::numeric_limits<double>::epsilon(); nameCount.clear(); textTokens.clear(); inputs.clear(); choicesMade.clear(); outs.clear();
    bool ok = false;
    struct itimerval tv = {}; tv.it_value.tv_sec = (long)PATH_T; setitimer(ITIMER_REAL, &tv, nullptr);
    try {
      try { I.fn(); ok = true; }
      catch (const std::exception& e) {
        string nm = string("no-unexpected-exception"); auto& cs = checks[nm]; cs.evals++; string w = e.what();
        if (hunt(FF, model, nm + ": " + w)) throw Stop{};
        cs.unconfirmed++; notes.push_back("unconfirmed exception: " + w.substr(0, 200)); st.aborted++;
        if (cs.unconfirmed > 10) { truncated = true; truncWhy = "unconfirmed exceptions"; throw Stop{}; }
      }
    }
    catch (PathAbort&) { st.aborted++; }
    catch (Stop&) { break; }
    if (ok) {
      st.paths++; st.maxdepth = std::max(st.maxdepth, (long)trace.size());
      if (sampleLines.size() < 4 || (st.paths % 97 == 0 && sampleLines.size() < 8)) { string t, h; modelInputs(model, t, &h); sampleLines.push_back(h.substr(0, 600)); }
      if (st.paths % stride == 0 && batch.size() < 60) { string t; if (modelInputs(model, t)) { vector<double> ev; vector<string> en; for (auto& o : outs) { Sym v = canon(o.v); if (conc(v)) ev.push_back(v.c); else ev.push_back(evalNode(v.id).d); en.push_back(o.name); } batch.push_back(t); expected.push_back(ev); expNames.push_back(en); if (batch.size() == 30) stride = 7; } }
    }
    if (st.paths + st.aborted >= MAXPATHS) { truncated = true; truncWhy = "path limit"; break; }
    more = backtrack(); if (more && now() - tStart > BUDGET) { truncated = true; truncWhy = "time budget"; break; }
  }
  struct itimerval tv = {}; setitimer(ITIMER_REAL, &tv, nullptr);
  // validate the encoding: the models of a sample of paths on the real build
  if (violations.empty()) for (size_t i = 0; i < batch.size(); ++i) {
    if (now() - tStart > BUDGET + 30) break;
    string file = OUTDIR + "/" + INST + ".val"; RepRes r = runReplay(batch[i], file);
    if (r.status == 12 || r.crash || r.hang) { // the concrete run of a model contradicts a property the solver did not refute
      string f2 = OUTDIR + "/" + INST + ".val" + std::to_string(i) + ".cex"; rename(file.c_str(), f2.c_str()); violations.push_back({"validation-run", f2, replayDetail(r)}); break; }
    vector<double> got; std::istringstream in(r.out); string w; while (in >> w) if (w == "OUT") { string nm, v; in >> nm >> v; got.push_back(strtod(v.c_str(), nullptr)); }
    bool good = r.status == 0 && got.size() == expected[i].size();
    string why = r.status != 0 ? "status " + std::to_string(r.status) : "outputs";
    for (size_t k = 0; good && k < got.size(); ++k) { double a = got[k], b = expected[i][k]; if (std::isnan(a) && std::isnan(b)) continue; if (a == b) continue; if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)))) { good = false; why = expNames[i][k] + " impl=" + std::to_string(a) + " model=" + std::to_string(b); } }
    if (good) st.validated++; else { st.mismatch++; if (notes.size() < 40) notes.push_back("trace not validated: " + why); }
    unlink(file.c_str());
  }
}
static void writeResult(const string& path, const vf::Instance& I, const string& err) {
  std::ofstream o(path); o.precision(6);
  o << "{\"instance\":\"" << jesc(I.name) << "\",\"desc\":\"" << jesc(I.desc) << "\",\"error\":\"" << jesc(err) << "\",\"paths\":" << st.paths << ",\"aborted\":" << st.aborted << ",\"branches\":" << st.branches << ",\"forks\":" << st.forks << ",\"choices\":" << st.choices << ",\"maxdepth\":" << st.maxdepth
    << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"normalised\":" << st.norm << ",\"cache\":" << st.cache << ",\"local\":" << st.local << ",\"cvc5\":" << st.cvc5 << ",\"solver_s\":" << st.solver_s << ",\"wall_s\":" << now() - tStart
    << ",\"validated\":" << st.validated << ",\"mismatch\":" << st.mismatch << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"trunc_why\":\"" << jesc(truncWhy) << "\",\"encodes\":\"" << jesc(encodesNames) << "\",\"nodes\":" << nodes.size();
  o << ",\"checks\":{"; bool f = true; for (auto& c : checks) { if (!f) o << ","; f = false; o << "\"" << jesc(c.first) << "\":{\"evals\":" << c.second.evals << ",\"proved\":" << c.second.proved << ",\"trivial\":" << c.second.triv << ",\"undecided\":" << c.second.undecided << ",\"unconfirmed\":" << c.second.unconfirmed << "}"; }
  o << "},\"reached\":{"; f = true; for (auto& c : reached) { if (!f) o << ","; f = false; o << "\"" << jesc(c.first) << "\":" << c.second; }
  o << "},\"violations\":["; f = true; for (auto& v : violations) { if (!f) o << ","; f = false; o << "{\"check\":\"" << jesc(v.check) << "\",\"replay\":\"" << jesc(v.replay) << "\",\"detail\":\"" << jesc(v.detail) << "\"}"; }
  o << "],\"samples\":["; f = true; for (auto& v : sampleLines) { if (!f) o << ","; f = false; o << "\"" << jesc(v) << "\""; }
  o << "],\"notes\":["; f = true; std::map<string, int> seen; for (auto& v : notes) { if (seen[v]++) continue; if (!f) o << ","; f = false; o << "\"" << jesc(v) << "\""; }
  o << "]}\n";
}
int main(int argc, char** argv) {
  string want, outp; bool list = false;
  for (int i = 1; i < argc; ++i) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--list") list = true; else if (a == "--instance") want = nx(); else if (a == "--out") outp = nx(); else if (a == "--budget") BUDGET = atof(nx().c_str()); else if (a == "--replay") REPLAY = nx(); else if (a == "--dir") OUTDIR = nx(); else if (a == "--dump") DUMPDIR = nx(); else if (a == "--tcheck") T_CHECK = atoi(nx().c_str()); }
  if (list) { for (auto& i : vf::instances()) printf("%s\t%s\t%s\n", i.thorough ? "thorough" : "quick", i.name.c_str(), i.desc.c_str()); return 0; }
  mallopt(M_PERTURB, 189);
  const vf::Instance* I = nullptr; for (auto& i : vf::instances()) if (i.name == want) I = &i; if (!I) { fprintf(stderr, "no such instance\n"); return 4; }
  INST = want; PATH_T = BUDGET + 40;
  pid_t child = fork();
  if (child == 0) {
    z3::set_param("verbose", 0);
    Z = new z3::context; linS = new z3::solver(*Z, z3::solver::simple()); initTables();
    signal(SIGSEGV, onCrash); signal(SIGABRT, onCrash); signal(SIGFPE, onCrash); signal(SIGBUS, onCrash); signal(SIGALRM, onCrash); signal(SIGILL, onCrash);
    static char altstack[1 << 18]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr);
    std::cout.setstate(std::ios_base::badbit);
    string err; try { explore(*I); } catch (EngineError& e) { err = e.what; } catch (z3::exception& e) { err = string("z3: ") + e.msg(); } catch (PathAbort&) { err = "abort outside path"; }
    writeResult(outp, *I, err); _exit(0);
  }
  int stt = 0; waitpid(child, &stt, 0);
  if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
    std::ifstream c(OUTDIR + "/" + INST + ".crash"); int sig = 0, conf = 0; string file, detail; c >> sig >> conf >> file; std::getline(c, detail); std::getline(c, detail);
    if (conf) violations.push_back({sig == SIGALRM ? "terminates" : "no-crash", file, detail}); initTables();
    if (!sig && WIFSIGNALED(stt)) sig = WTERMSIG(stt);
    if (!conf && sig == SIGALRM) { truncated = true; truncWhy = "a path ran out of time"; }
    writeResult(outp, *I, conf || sig == SIGALRM ? "" : "engine process died (signal " + std::to_string(sig) + ")");
  }
  return 0;
}
