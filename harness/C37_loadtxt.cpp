#include "env.hpp"
#include "begin.hpp"
#include "core/data/load.hpp"
#include "util.hpp"
#include <unistd.h>
using namespace openml;
// a scratch file removed when the path ends
struct File { std::string name; File(const std::string& text) { char b[] = "/tmp/vfload.XXXXXX"; int fd = mkstemp(b); name = b; if (::write(fd, text.data(), text.size()) != (ssize_t)text.size()) vf::skip(); ::close(fd); } ~File() { ::unlink(name.c_str()); } };
struct Text { SRows rows; std::string text; bool ragged = false; };
// up to 'maxr' lines; every line has one of the widths (0: blank); arbitrary values, separators and line ends
static Text make(int maxr, const std::vector<int>& widths, bool style) {
  static const char* seps[] = {" ", "\t", "   ", " \t"}; static const char* eols[] = {"\n", "\r\n", " \n"}; static const char* leads[] = {"", "  "};
  std::string sep = seps[style ? vf::choose("sep", 4) : 0], eol = eols[style ? vf::choose("eol", 3) : 0], lead = leads[style ? vf::choose("lead", 2) : 0];
  Text t; int n = vf::choose("lines", maxr + 1); bool last = vf::choose("final-newline", 2);
  for (int i = 0; i < n; ++i) { int w = widths[vf::choose("width", widths.size())]; SVec r; std::string l = lead; for (int j = 0; j < w; ++j) { r.push_back(vf::real("v" + std::to_string(i) + "_" + std::to_string(j), -1000, 1000)); l += (j ? sep : "") + vf::text(r.back()); } t.rows.push_back(r); t.text += l + (i + 1 < n || last ? eol : ""); }
  if (n && t.rows.back().empty() && !last && lead.empty()) t.rows.pop_back();      // nothing after the last newline is no line
  return t;
}
static SRows filled(const SRows& r) { SRows f; for (auto& x : r) if (!x.empty()) f.push_back(x); return f; }
static bool even(const SRows& r) { for (auto& x : r) if (x.size() != r[0].size()) return false; return !r.empty(); }
static void matrix(int maxr, std::vector<int> w, bool style, bool used = false) {
  vf::encodes("data::loadtxt (matrix and label vector)"); Text t = make(maxr, w, style); File f(t.text); SRows r = filled(t.rows); Mat X; Vec y; if (used) { X = symMat("old", 2, 2); y = symVec("oldy", 2); }
  if (!even(r)) { checkThrows<std::exception>("uneven-or-empty-file-rejected", [&] { data::loadtxt<Mat, Vec>(f.name, X, y); }); vf::reach("end"); return; }
  data::loadtxt<Mat, Vec>(f.name, X, y); int n = r.size(), c = r[0].size(); vf::check("label-per-row", y.size() == n); if (!shapeIs("features-are-all-but-the-last-column", X, n, c - 1) || y.size() != n) return;
  for (int i = 0; i < n; ++i) { for (int j = 0; j + 1 < c; ++j) { vf::out("x", X(i, j)); vf::check("values-in-place", vf::eq(X(i, j), r[i][j])); } vf::check("label-is-the-last-column", vf::eq(y(i), r[i][c - 1])); } vf::reach("end");
}
static void vectors(int maxr, std::vector<int> w, bool style, bool used = false) {
  vf::encodes("data::loadtxt (rows and labels)"); Text t = make(maxr, w, style); File f(t.text); SRows r = filled(t.rows), X; SVec y; if (used) { X = symRows("old", 3, 1); y = symSV("oldy", 3); }
  if (!even(r)) { checkThrows<std::exception>("uneven-or-empty-file-rejected", [&] { data::loadtxt<double>(f.name, X, y); }); vf::reach("end"); return; }
  data::loadtxt<double>(f.name, X, y); size_t n = r.size(), c = r[0].size(); vf::check("one-row-and-label-per-line", X.size() == n && y.size() == n); if (X.size() != n || y.size() != n) return;
  for (size_t i = 0; i < n; ++i) { SVec a(r[i].begin(), r[i].end() - 1); vf::check("values-in-place", rowEq(X[i], a)); vf::check("label-is-the-last-column", vf::eq(y[i], r[i][c - 1])); vf::out("y", y[i]); } vf::reach("end");
}
static void transactions(int maxr, std::vector<int> w, bool style) {
  vf::encodes("data::loadtxt (transactions)"); Text t = make(maxr, w, style); File f(t.text); SRows X; data::loadtxt<double>(f.name, X); vf::check("one-transaction-per-line", X.size() == t.rows.size()); if (X.size() != t.rows.size()) return;
  for (size_t i = 0; i < X.size(); ++i) { vf::check("items-in-order", rowEq(X[i], t.rows[i])); for (auto& e : X[i]) vf::out("x", e); } vf::reach("end");
}
static void missing() {
  std::string n; { File f(""); n = f.name; } Mat X; Vec y; SRows r; SVec l;
  checkThrows<std::runtime_error>("missing-file-rejected", [&] { data::loadtxt<Mat, Vec>(n, X, y); }); checkThrows<std::runtime_error>("missing-file-rejected", [&] { data::loadtxt<double>(n, r); }); checkThrows<std::runtime_error>("missing-file-rejected", [&] { data::loadtxt<double>(n, r, l); }); vf::reach("end");
}
VFQ("m_style", matrix(2, {2}, true), "up to 2 lines of 2 values, separators, line ends, final newline") VFQ("m_any", matrix(3, {0, 2, 3}, false), "up to 3 lines, each blank or of 2 or 3 values") VFQ("m_one", matrix(2, {1, 0}, true), "lines of one value (label only) or blank") VFQ("m_used", matrix(2, {2, 0}, false, true), "outputs that held data before")
VFQ("v_style", vectors(2, {2}, true), "as rows") VFQ("v_any", vectors(3, {0, 2, 3}, false), "blank and uneven lines") VFQ("v_one", vectors(2, {1, 0}, true), "lines of one value or blank") VFQ("v_used", vectors(3, {3, 0}, false, true), "outputs that held data before")
VFQ("t_style", transactions(2, {2, 1}, true), "transactions: styles") VFQ("t_any", transactions(3, {0, 1, 3}, false), "any lengths, blank lines kept") VFQ("missing", missing(), "file that does not exist")
VFT("m_big", matrix(4, {0, 3, 4}, false), "up to 4 lines") VFT("m_styles", matrix(3, {0, 2}, true), "up to 3 lines, all styles") VFT("v_big", vectors(4, {0, 3, 4}, false), "up to 4 lines") VFT("t_big", transactions(4, {0, 1, 2, 4}, false), "up to 4 transactions")
