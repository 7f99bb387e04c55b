// shared by the two C42 harnesses
#pragma once
template <class F> static void refused(F fn) { checkThrows<std::invalid_argument>("refused", fn); vf::reach("end"); }
// any integer that is not one of the supported ones
static decltype(vf::integer("", 0, 1)) other(const char* n, std::initializer_list<int> known, long lo = -300) { auto a = vf::integer(n, lo, 300); for (int k : known) vf::assume(vf::ne(a, double(k))); return a; }
// any text that is not one of the supported ones
static vf::Str unlisted(const char* n, std::initializer_list<const char*> known) { vf::Str s = vf::option(n); for (auto k : known) vf::assume(!vf::spells(s, k)); return s; }
static Mat two() { Mat X(4, 2); X << 0, 1, 2, 5, 7, 3, 1, 1; return X; }
static Vec lab(bool cls = true) { Vec y(4); y << 0, 1, 1, 0; if (!cls) y *= double(3); return y; }
