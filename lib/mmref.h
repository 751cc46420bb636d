// An independent reading of the MatrixMarket coordinate format: what a file means, or that it must be refused,
// or that the format leaves it open.
#ifndef MMREF_H
#define MMREF_H
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>
namespace vp {

namespace mmref {
enum Class { VALID, INVALID, OPEN };
struct Pt { int64_t r, c; double v; };
struct File { Class cls = OPEN; bool limit = false;   /* larger than the library documents: may be refused, but not misread */ int64_t rows = 0, cols = 0; std::vector<Pt> e; const char *why = ""; };

inline std::vector<std::string> words(const std::string &s, bool &odd) {
  std::vector<std::string> w;
  std::string cur;
  for (char ch : s) {
    if (ch == ' ' || ch == '\t' || ch == '\r') { if (!cur.empty()) w.push_back(cur); cur.clear(); continue; }
    if ((unsigned char)ch < 32 || (unsigned char)ch > 126) odd = true;
    cur += ch;
  }
  if (!cur.empty()) w.push_back(cur);
  return w;
}
inline std::string lower(std::string s) { for (char &c : s) c = (char)tolower((unsigned char)c); return s; }
// 0 = not a plain decimal integer, 1 = yes, 2 = too large to judge
inline int integer(const std::string &s, int64_t &v) {
  if (s.empty()) return 0;
  for (char c : s) if (c < '0' || c > '9') return 0;
  if (s.size() > 18) return 2;
  v = atoll(s.c_str());
  return 1;
}
// 0 = not a number, 1 = plain decimal number, 2 = left open
static double limit = 1e38;       // values that the element type cannot hold are left open
inline int number(const std::string &s, double &v) {
  size_t i = 0, d = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  while (i < s.size() && isdigit((unsigned char)s[i])) i++, d++;
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++, d++; }
  bool plain = d > 0;
  if (plain && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    size_t k = i + 1, q = 0; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
    while (k < s.size() && isdigit((unsigned char)s[k])) k++, q++;
    if (q > 0 && q < 4) i = k; else if (q >= 4) return 2; else plain = false;
  }
  if (plain && i == s.size()) { v = strtod(s.c_str(), nullptr); return std::fabs(v) <= limit ? 1 : 2; }
  char *end; strtod(s.c_str(), &end);                       // hexadecimal, inf, nan: the format does not say
  if (end != s.c_str() && *end == 0) return 2;
  for (char c : s) if (c == 'd' || c == 'D' || c == 'q' || c == 'Q') return 2;   // Fortran exponents
  return 0;
}

inline File parse(const std::string &text) {
  File f;
  std::vector<std::string> lines;
  size_t at = 0;
  bool odd = false;
  for (char c : text) if (c == 0 || c == '\v' || c == '\f') odd = true;
  while (at < text.size()) {
    size_t n = text.find('\n', at);
    if (n == std::string::npos) { lines.push_back(text.substr(at)); break; }
    lines.push_back(text.substr(at, n - at));
    at = n + 1;
  }
  auto bad = [&](const char *why) { f.limit = false; f.cls = odd ? OPEN : INVALID; f.why = why; return f; };
  auto open = [&](const char *why) { f.limit = false; f.cls = OPEN; f.why = why; return f; };
  if (lines.empty()) return bad("empty file");
  for (auto &l : lines) { size_t cr = l.find('\r'); if (cr != std::string::npos && cr + 1 != l.size()) odd = true; }
  std::vector<std::string> b = words(lines[0], odd);
  if (b.size() < 5) return bad("short banner");
  const std::string &lead = b[0];
  if (lead.compare(0, 14, "%%MatrixMarket") != 0) return lower(lead).compare(0, 14, "%%matrixmarket") == 0 ? open("banner case") : bad("no banner");
  if (lead.size() > 14) return open("banner tail");
  if (lower(b[1]) != "matrix") return bad("object");
  std::string fmt = lower(b[2]), field = lower(b[3]), sym = lower(b[4]);
  if (fmt != "coordinate") return bad("format");
  if (field != "real" && field != "integer" && field != "pattern") return bad("field");
  if (sym != "general" && sym != "symmetric" && sym != "skew-symmetric") return bad("symmetry");
  if (field == "pattern" && sym == "skew-symmetric") return bad("pattern skew");
  if (b.size() > 5 || lines[0][0] != '%') odd = true;
  bool pattern = field == "pattern";
  int s = sym == "symmetric" ? 1 : sym == "skew-symmetric" ? -1 : 0;
  size_t i = 1;
  for (; i < lines.size(); i++) {
    if (!lines[i].empty() && lines[i][0] == '%') continue;
    std::vector<std::string> w = words(lines[i], odd);
    if (w.empty()) continue;
    if (lines[i].size() > 1000) return open("long line");
    if (w[0][0] == '%') return open("indented comment");
    int64_t v[3];
    if (w.size() < 3) return bad("size line");
    for (int k = 0; k < 3; k++) {
      int t = integer(w[k], v[k]);
      // a sign, a leading part that is a number or an enormous number: other readers differ
      if (t == 2) return open("size");
      if (t == 1 && v[k] > 2147483647) f.limit = true;
      if (k == 2 && v[k] > 1000000) return open("enormous");
      if (t == 0) {
        char c0 = w[k][0];
        if (c0 == '-' && w[k].size() > 1) { bool digits = w[k].find_first_not_of("0123456789", 1) == std::string::npos; if (digits && atoll(w[k].c_str()) < 0) return bad("negative size"); }
        if (isdigit((unsigned char)c0) || c0 == '+' || c0 == '-') return open("size token");
        return bad("size token");
      }
    }
    if (w.size() > 3) return open("size line tail");
    f.rows = v[0]; f.cols = v[1];
    if (f.rows < 1 || f.cols < 1) return open("no rows or columns");
    if (s && f.rows != f.cols) return bad("symmetric but not square");
    i++;
    int64_t left = v[2];
    bool unsure = false;
    while (left > 0) {
      if (i >= lines.size()) return unsure ? open("entries") : bad("too few entries");
      const std::string &l = lines[i++];
      std::vector<std::string> e = words(l, odd);
      if (e.empty()) continue;
      if (e[0][0] == '%') { unsure = true; continue; }       // comments between the entries: open
      if (l.size() > 1000) return open("long line");
      if (e.size() != (pattern ? 2u : 3u)) return unsure ? open("entry") : bad("entry tokens");
      int64_t r, c; double val = 1;
      for (int k = 0; k < 2; k++) if (e[k][0] == '+') return open("signed index");
      int tr = integer(e[0], r), tc = integer(e[1], c), tv = pattern ? 1 : number(e[2], val);
      if (tr == 0 || tc == 0 || tv == 0) return unsure ? open("entry") : bad("entry");
      if (tr == 2 || tc == 2) return open("index size");
      if (r < 1 || c < 1 || r > f.rows || c > f.cols) return unsure ? open("entry") : bad("index out of range");
      if (tv == 2) unsure = true;
      if (field == "integer" && e[2].find_first_of(".eE") != std::string::npos) unsure = true;
      if (s && r < c) unsure = true;                         // the format stores the lower triangle
      if (s < 0 && r == c) unsure = true;                    // and no diagonal of skew-symmetric matrices
      f.e.push_back(Pt{r - 1, c - 1, val});
      if (s && r != c) f.e.push_back(Pt{c - 1, r - 1, s * val});
      left--;
    }
    for (; i < lines.size(); i++) { std::vector<std::string> e = words(lines[i], odd); if (!e.empty()) return open("surplus lines"); }
    if (odd || unsure) f.limit = false;
    f.cls = odd || unsure || f.limit ? OPEN : VALID;
    return f;
  }
  return bad("no size line");
}
}
}
#endif
