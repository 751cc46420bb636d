// C23: the bundled MatrixMarket library writes and reads headers, sizes and whole matrices faithfully.
#include <cstdio>
#include "mm_io/mm_io.h"
#include <cfloat>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include "mc.h"
#include "file.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
static std::string dir;
void mc_setup() { dir = mc::scratch(); stderr = fopen("/dev/null", "w"); }

// ---- ledger of what the library holds: memory and open files ----
static bool in_lib = false;
static long live = 0, files = 0;
static std::set<void *> *held, *opened;
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (in_lib) { in_lib = false; held->insert(p); in_lib = true; } return p; }
void __wrap_free(void *p) { if (in_lib && p) { in_lib = false; held->erase(p); in_lib = true; } __real_free(p); }
FILE *__wrap_fopen(const char *p, const char *m) { FILE *f = __real_fopen(p, m); if (in_lib && f) { in_lib = false; opened->insert(f); in_lib = true; } return f; }
int __wrap_fclose(FILE *f) { if (in_lib) { in_lib = false; opened->erase(f); in_lib = true; } return __real_fclose(f); }
}
template <class F> static int lib(F &&f) {
  if (!held) { held = new std::set<void *>; opened = new std::set<void *>; }
  held->clear(); opened->clear();
  in_lib = true; int r = f(); in_lib = false;
  mc::step();
  return r;
}
static void nothing_left(const char *what, std::vector<void *> kept = {}) {
  for (void *p : kept) held->erase(p);
  if (!held->empty()) mc::report("leak", "%s: %zu blocks of memory remain", what, held->size());
  if (!opened->empty()) mc::report("left-open", "%s: %zu files remain open", what, opened->size());
  for (void *p : *held) __real_free(p);
  for (void *f : *opened) __real_fclose((FILE *)f);
}
static std::string show(std::string const &s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; return o.size() > 200 ? o.substr(0, 200) + "..." : o; }

// ---- type codes ----
static const char *const w1[] = {"coordinate", "array"}, *const w2[] = {"real", "complex", "pattern", "integer"}, *const w3[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
static const char l1[] = "CA", l2[] = "RCPI", l3[] = "GSHK";
static int at(const char *l, char c) { const char *p = c ? strchr(l, c) : nullptr; return p ? (int)(p - l) : -1; }
static bool named(MM_typecode t, std::string &name) {
  int a = at(l1, t[1]), b = at(l2, t[2]), c = at(l3, t[3]);
  if (t[0] != 'M' || a < 0 || b < 0 || c < 0) return false;
  name = std::string("matrix ") + w1[a] + " " + w2[b] + " " + w3[c];
  return true;
}
static bool valid(MM_typecode t) {                  // of the documented combinations
  if (t[0] != 'M') return false;
  if (t[1] == 'A' && t[2] == 'P') return false;
  if ((t[2] == 'R' || t[2] == 'I') && t[3] == 'H') return false;
  if (t[2] == 'P' && (t[3] == 'H' || t[3] == 'K')) return false;
  return true;
}
static void typecodes() {
  static const char letters[] = "MCARPIGSKH m\0x";
  MM_typecode t;
  for (int i = 0; i < 4; i++) { t[i] = letters[mc::choose(14)]; if (i == 1) mc::shard(); }
  mc::state(mc::hash_bytes(t, 4));
  std::string name; bool has = named(t, name);
  char *s = nullptr;
  lib([&] { s = mm_typecode_to_str(t); return 0; });
  if (has != (s != nullptr)) mc::report("typecode", "type code %s: %s name", show(std::string(t, 4)).c_str(), has ? "no" : "unexpected");
  else if (has && name != s) mc::report("typecode", "type code %.4s is called \"%s\"", t, s);
  nothing_left("mm_typecode_to_str", {s});
  free(s);
  if (has && valid(t) != (mm_is_valid(t) != 0)) mc::report("valid", "type code %.4s: mm_is_valid says %d", t, mm_is_valid(t));
  if (t[0] != 'M' && mm_is_valid(t)) mc::report("valid", "type code %s: mm_is_valid says %d", show(std::string(t, 4)).c_str(), mm_is_valid(t));
  std::string path = dir + "/h";
  FILE *f = fopen(path.c_str(), "w");
  int r = lib([&] { return mm_write_banner(f, t); });
  fclose(f);
  nothing_left("mm_write_banner");
  std::string text = slurp_file(path);
  if (!has) { if (r == 0) mc::report("banner", "header of type code %s written as \"%s\"", show(std::string(t, 4)).c_str(), show(text).c_str()); mc::outcome(r + 1); mc::validated(); return; }
  if (r != 0) mc::report("banner-status", "header \"%s\" written, reported as failure %d", show(text).c_str(), r);
  if (text != "%%MatrixMarket " + name + "\n") mc::report("banner", "header of type code %.4s written as \"%s\"", t, show(text).c_str());
  MM_typecode u;
  memset(u, 'z', 4);
  f = fopen(path.c_str(), "r");
  r = lib([&] { return mm_read_banner(f, &u); });
  fclose(f);
  nothing_left("mm_read_banner");
  if (r != 0 || memcmp(t, u, 4)) mc::report("banner-read", "header \"%s\" read as %d, %s", show(text).c_str(), r, show(std::string(u, 4)).c_str());
  mc::outcome(mc::hash_bytes(u, 4));
  mc::validated();
}

// ---- size lines ----
static const int lim[] = {0, 1, 2, 9, 10, 99, 65536, 2147483646, 2147483647};
static void sizes() {
  int M = mc::pick(lim); mc::shard(); int N = mc::pick(lim), nz = mc::pick(lim); bool array = mc::flip();
  if (array && nz) mc::prune();
  mc::state(mc::mix(mc::mix(M, N), mc::mix(nz, array)));
  std::string path = dir + "/s";
  FILE *f = fopen(path.c_str(), "w");
  int r = lib([&] { return array ? mm_write_mtx_array_size(f, M, N) : mm_write_mtx_crd_size(f, M, N, nz); });
  fclose(f);
  std::string text = slurp_file(path), want = std::to_string(M) + " " + std::to_string(N) + (array ? "" : " " + std::to_string(nz)) + "\n";
  if (r != 0) mc::report("size-status", "size line \"%s\" written, reported as failure %d", show(text).c_str(), r);
  if (text != want) mc::report("size-text", "size line \"%s\", expected \"%s\"", show(text).c_str(), show(want).c_str());
  static const char *const before[] = {"", "%\n", "% 7 8 9\n%\n", "\n", "%x\n\n", "  \n", "%a\n \t\n\n"};
  text = before[mc::choose(7)] + want;
  put_file(path, text);
  int m = -5, n = -5, z = nz; f = fopen(path.c_str(), "r");
  r = lib([&] { return array ? mm_read_mtx_array_size(f, &m, &n) : mm_read_mtx_crd_size(f, &m, &n, &z); });
  fclose(f);
  if (r != 0 || m != M || n != N || z != nz) mc::report("size-read", "%s size \"%s\" read as %d: %d %d %d", array ? "array" : "coordinate", show(text).c_str(), r, m, n, z);
  mc::outcome(mc::mix(r, m)); mc::validated();
}
static void size_texts() {                          // every short text is read or refused, never waited for
  static const char *const tok[] = {"", "0", "3", "12", "-1", "x", "%", "2147483648", "99999999999999999999", "1.5", "3x", "%%"};
  static const char *const sep[] = {" ", "\n", "\t", "", " \n "};
  bool array = mc::flip();
  std::string text; std::vector<std::string> t; int first = mc::choose(12); mc::shard(); std::vector<std::string> s;
  for (int i = 0; i < 3; i++) { t.push_back(tok[i ? mc::choose(12) : first]); if (t.back().empty()) break; s.push_back(sep[mc::choose(5)]); text += t.back() + s.back(); }
  mc::state(mc::hash_bytes(text.data(), text.size(), array));
  std::string path = dir + "/z"; put_file(path, text);
  FILE *f = fopen(path.c_str(), "r");
  int m = -5, n = -5, z = -5;
  int r = lib([&] { return array ? mm_read_mtx_array_size(f, &m, &n) : mm_read_mtx_crd_size(f, &m, &n, &z); });
  fclose(f);
  MC_LOG("\"%s\" -> %d %d %d %d", show(text).c_str(), r, m, n, z);
  // which lines are there: the first one that is neither blank nor a comment must begin with the numbers
  std::string line; size_t a = 0; bool found = false;
  while (a < text.size()) { size_t e = text.find('\n', a); line = text.substr(a, e == std::string::npos ? e : e - a); a = e == std::string::npos ? text.size() : e + 1; if (line[0] != '%' && line.find_first_not_of(" \t") != std::string::npos) { found = true; break; } }
  std::vector<std::string> w; { std::string c; for (char ch : line + " ") if (ch == ' ' || ch == '\t') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; }
  size_t need = array ? 2 : 3; bool plain = found && w.size() == need, hopeless = !found || w.empty() || !isdigit((unsigned char)w[0][0]);
  for (size_t i = 0; i < need && plain; i++) { for (char c : w[i]) if (!isdigit((unsigned char)c)) plain = false; if (w[i].size() > 9) plain = false; }
  bool whole = found && w.size() >= need;                            // whole numbers that no size can be
  for (size_t i = 0; i < need && whole; i++) for (size_t k = w[i][0] == '-' ? 1 : 0; k < w[i].size(); k++) if (!isdigit((unsigned char)w[i][k])) whole = false;
  for (size_t i = 0; i < need && whole; i++) { long double q = strtold(w[i].c_str(), nullptr); if (q < 0 || q > 2147483647.0L) { hopeless = true; break; } }
  if (hopeless && r == 0) mc::report("size-accepted", "%s size \"%s\" read as %d %d %d", array ? "array" : "coordinate", show(text).c_str(), m, n, z);
  if (plain && (r != 0 || m != atoi(w[0].c_str()) || n != atoi(w[1].c_str()) || (!array && z != atoi(w[2].c_str())))) mc::report("size-read", "%s size \"%s\" read as %d: %d %d %d", array ? "array" : "coordinate", show(text).c_str(), r, m, n, z);
  mc::outcome(mc::mix(r, plain)); mc::validated();
}

// ---- whole matrices ----
static const double vals[] = {1, -2.5, 0.1, 1.0 / 3, -0.0, DBL_MAX, DBL_TRUE_MIN, 5e-324 * 3, 123456789.987654321, -DBL_MIN, 9007199254740993.0, 1e22};
struct Mat { int M = 0, N = 0; std::vector<int> I, J; std::vector<double> v; MM_typecode t; };
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static std::string text_of(Mat const &m) { char *p = nullptr; MM_typecode t; memcpy(t, m.t, 4); p = mm_typecode_to_str(t); std::string s = p ? p : "?"; free(p); return s; }

static void check_read(Mat const &m, std::string const &path, const char *how) {
  int per = m.t[2] == 'C' ? 2 : m.t[2] == 'P' ? 0 : 1, nz = (int)m.I.size();
  { int M = -5, N = -5, n = -5, *I = nullptr, *J = nullptr; double *v = nullptr; MM_typecode t; memset(t, 'z', 4);
    std::string p = path; p.push_back(0);
    int r = lib([&] { return mm_read_mtx_crd(&p[0], &M, &N, &n, &I, &J, &v, &t); });
    if (r != 0) { mc::report("crd-refused", "%s: mm_read_mtx_crd: result %d", how, r); nothing_left("mm_read_mtx_crd"); }
    else {
      nothing_left("mm_read_mtx_crd", {I, J, v});
      bool ok = M == m.M && N == m.N && n == nz && memcmp(t, m.t, 4) == 0;
      for (int i = 0; ok && i < nz; i++) { ok = I[i] == m.I[i] && J[i] == m.J[i]; for (int k = 0; ok && k < per; k++) ok = same(v[i * per + k], m.v[i * per + k]); }
      if (!ok) mc::report("crd-differs", "%s: mm_read_mtx_crd: %dx%d with %d entries of type %s read from a %dx%d matrix with %d, or other entries", how, M, N, n, show(std::string(t, 4)).c_str(), m.M, m.N, nz);
      free(I); free(J); free(v);
    } }
  { FILE *f = fopen(path.c_str(), "r"); MM_typecode t; int M, N, n;
    if (mm_read_banner(f, &t) || mm_read_mtx_crd_size(f, &M, &N, &n) || n != nz) mc::report("entry", "%s: header not read", how);
    else for (int i = 0; i < nz; i++) {
      int I = -5, J = -5; double a = 7, b = 7;
      int r = lib([&] { return mm_read_mtx_crd_entry(f, &I, &J, &a, &b, t); });
      if (r || I != m.I[i] || J != m.J[i] || (per > 0 && !same(a, m.v[i * per])) || (per > 1 && !same(b, m.v[i * per + 1]))) { mc::report("entry", "%s: entry %d read as %d: %d %d %.17g %.17g", how, i, r, I, J, a, b); break; }
    }
    fclose(f); }
  { int M = -5, N = -5, n = -5, *I = nullptr, *J = nullptr; double *v = nullptr;
    int r = lib([&] { return mm_read_unsymmetric_sparse(path.c_str(), &M, &N, &n, &v, &I, &J); });
    if (m.t[2] != 'R') { if (r == 0) mc::report("unsymmetric-accepted", "%s: mm_read_unsymmetric_sparse accepts %s", how, text_of(m).c_str()); nothing_left("mm_read_unsymmetric_sparse", r ? std::vector<void *>{} : std::vector<void *>{I, J, v}); if (!r) { free(I); free(J); free(v); } }
    else if (r != 0) { mc::report("unsymmetric-refused", "%s: mm_read_unsymmetric_sparse: result %d", how, r); nothing_left("mm_read_unsymmetric_sparse"); }
    else {
      nothing_left("mm_read_unsymmetric_sparse", {I, J, v});
      bool ok = M == m.M && N == m.N && n == nz;
      for (int i = 0; ok && i < nz; i++) ok = I[i] == m.I[i] - 1 && J[i] == m.J[i] - 1 && same(v[i], m.v[i]);
      if (!ok) mc::report("unsymmetric-differs", "%s: mm_read_unsymmetric_sparse: another matrix was read", how);
      free(I); free(J); free(v);
    } }
}
static bool well_formed(std::string const &text, Mat const &m) {      // an independent reading of what was written
  std::vector<std::string> lines; size_t a = 0;
  while (a < text.size()) { size_t e = text.find('\n', a); if (e == std::string::npos) return false; lines.push_back(text.substr(a, e - a)); a = e + 1; }
  size_t nz = m.I.size();
  if (lines.size() != nz + 2) return false;
  MM_typecode t; memcpy(t, m.t, 4); std::string n; named(t, n);
  if (lines[0] != "%%MatrixMarket " + n) return false;
  if (lines[1] != std::to_string(m.M) + " " + std::to_string(m.N) + " " + std::to_string(nz)) return false;
  int per = m.t[2] == 'C' ? 2 : m.t[2] == 'P' ? 0 : 1;
  for (size_t i = 0; i < nz; i++) {
    std::vector<std::string> w; std::string c; for (char ch : lines[i + 2] + " ") if (ch == ' ') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch;
    if (w.size() != (size_t)(2 + per) || w[0] != std::to_string(m.I[i]) || w[1] != std::to_string(m.J[i])) return false;
    for (int k = 0; k < per; k++) { char *e; double v = strtod(w[2 + k].c_str(), &e); if (*e || !same(v, m.v[i * per + k])) return false; }
  }
  return true;
}
static Mat choose_matrix(int most, int shapes) {
  Mat m;
  memcpy(m.t, "MCRG", 4);
  m.t[2] = "RCP"[mc::choose(3)]; m.t[3] = l3[mc::choose(4)]; mc::shard();
  if (!valid(m.t)) mc::prune();
  static const int dims[] = {1, 2, 2147483647};
  m.M = dims[mc::choose(shapes)]; m.N = dims[mc::choose(shapes)];
  int nz = mc::range(0, most), per = m.t[2] == 'C' ? 2 : m.t[2] == 'P' ? 0 : 1;
  for (int i = 0; i < nz; i++) {
    m.I.push_back(mc::flip() ? m.M : 1); m.J.push_back(mc::flip() ? m.N : 1);
    int k = per ? mc::choose(nz > 1 && !mc::thorough ? 4 : 12) : 0;
    for (int q = 0; q < per; q++) m.v.push_back(vals[(k + q * 5) % 12]);
  }
  return m;
}
static int write_as(Mat &m, std::string p) { p.push_back(0); return lib([&] { return mm_write_mtx_crd(&p[0], m.M, m.N, (int)m.I.size(), m.I.data(), m.J.data(), m.v.data(), m.t); }); }
static void round_trip(Mat &m) {
  std::string path = dir + "/m.mtx";
  unlink(path.c_str());
  int r = write_as(m, path);
  nothing_left("mm_write_mtx_crd");
  std::string text = slurp_file(path);
  MC_LOG("%d: %s", r, show(text).c_str());
  if (r != 0) { mc::report("write-status", "mm_write_mtx_crd: result %d", r); return; }
  if (!well_formed(text, m)) mc::report("write-text", "mm_write_mtx_crd wrote \"%s\"", show(text).c_str());
  check_read(m, path, "round trip");
  mc::outcome(mc::hash_bytes(text.data(), text.size()));
  mc::validated();
}
static void matrices() {
  Mat m = choose_matrix(mc::thorough ? 3 : 2, 3);
  mc::state(mc::mix(mc::hash_bytes(m.t, 4), mc::mix(mc::mix(m.M, m.N), mc::mix(mc::hash_bytes(m.I.data(), m.I.size() * 4), mc::mix(mc::hash_bytes(m.J.data(), m.J.size() * 4), mc::hash_bytes(m.v.data(), m.v.size() * 8))))));
  round_trip(m);
}
static void exponents() {                           // every sign and exponent, simple and awkward mantissas
  int s = mc::choose(2), e = mc::choose(2047); mc::shard();
  Mat m; memcpy(m.t, "MCRG", 4); m.M = m.N = 3;
  static const uint64_t man[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0xaaaaaaaaaaaabull, 0x123456789abcdull, 0xedcba98765432ull};
  for (uint64_t k : man) { uint64_t b = (uint64_t)s << 63 | (uint64_t)e << 52 | k; double d; memcpy(&d, &b, 8); m.I.push_back(1 + (int)(k % 3)); m.J.push_back(2); m.v.push_back(d); }
  mc::state(mc::mix(s, e));
  round_trip(m);
}
static void many() {
  static const int ns[] = {7, 31, 100, 1000, 4097};
  mc::shard(); int n = mc::pick(ns), ty = mc::choose(3);
  Mat m; memcpy(m.t, "MCRG", 4); m.t[2] = "RCP"[ty]; m.M = n; m.N = 2 * n;
  for (int i = 0; i < n; i++) { m.I.push_back(1 + (i * 7) % n); m.J.push_back(1 + (i * 11) % (2 * n)); for (int q = 0; q < (ty == 1 ? 2 : ty == 2 ? 0 : 1); q++) m.v.push_back((i * 3 + q) / 7.0); }
  mc::state(mc::mix(n, ty));
  round_trip(m);
}

// ---- damaged files ----
static int by_entry(std::string const &path, MM_typecode &t, int &m, int &n, int &z, std::vector<int> &I, std::vector<int> &J, std::vector<double> &v) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) return -1;
  int r = lib([&] { return mm_read_banner(f, &t); });
  if (!r && !(mm_is_valid(t) && mm_is_sparse(t) && mm_is_matrix(t) && !mm_is_integer(t))) r = MM_UNSUPPORTED_TYPE;
  if (!r) r = lib([&] { return mm_read_mtx_crd_size(f, &m, &n, &z); });
  if (!r && z < 0) r = MM_PREMATURE_EOF;
  for (int i = 0; !r && i < z; i++) {
    int a = -7, b = -7; double re = -7, im = -7;
    r = lib([&] { return mm_read_mtx_crd_entry(f, &a, &b, &re, &im, t); });
    if (r) break;
    I.push_back(a); J.push_back(b);
    if (!mm_is_pattern(t)) v.push_back(re);
    if (mm_is_complex(t)) v.push_back(im);
  }
  fclose(f);
  return r;
}
static void judge(std::string const &text, const char *how) {      // success only with everything the header promises
  std::string path = dir + "/d.mtx"; put_file(path, text);
  mc::state(mc::hash_bytes(text.data(), text.size()));
  // entries present: numbers after the size line
  size_t a = 0; std::string head, size; bool hs = false;
  { size_t e = text.find('\n'); head = text.substr(0, e); a = e == std::string::npos ? text.size() : e + 1;
    while (a < text.size()) { e = text.find('\n', a); std::string l = text.substr(a, e == std::string::npos ? e : e - a); a = e == std::string::npos ? text.size() : e + 1; if (l[0] != '%' && l.find_first_not_of(" \t\r\v\f") != std::string::npos) { size = l; hs = true; break; } } }
  long M = -1, N = -1, nz = -1;
  bool plain_size = hs && sscanf(size.c_str(), "%ld %ld %ld", &M, &N, &nz) == 3;
  std::vector<std::string> w; { std::string c; for (char ch : text.substr(a) + " ") if (strchr(" \t\n\r\v\f", ch)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; }
  std::vector<std::string> hw; { std::string c; for (char ch : head + " ") if (isspace((unsigned char)ch)) { if (!c.empty()) hw.push_back(c); c.clear(); } else c += (char)tolower(ch); }
  bool known = hw.size() >= 5 && hw[0].compare(0, 14, "%%matrixmarket") == 0 && hw[1] == "matrix" && hw[2] == "coordinate";
  int per = !known ? -1 : hw[3] == "real" ? 1 : hw[3] == "complex" ? 2 : hw[3] == "pattern" ? 0 : -1;
  bool must_fail = per < 0 || !plain_size || nz < 0 || (long)w.size() < nz * (2 + per), clean = !must_fail && (long)w.size() == nz * (2 + per);
  Mat want; want.M = (int)M; want.N = (int)N;
  for (size_t i = 0; clean && i < w.size(); i++) {
    char *e; if ((long)i % (2 + per) < 2) { long v = strtol(w[i].c_str(), &e, 10); if (*e) clean = false; ((long)i % (2 + per) ? want.J : want.I).push_back((int)v); }
    else { for (char c : w[i]) if (!strchr("0123456789.+-eE", c)) clean = false; double v = strtod(w[i].c_str(), &e); if (*e) clean = false; want.v.push_back(v); }
  }
  // a word that no number begins with, before the promised number of words is reached
  bool broken = false; if (!must_fail) for (long i = 0; i < nz * (2 + per); i++) { char c = w[i][0]; if (!strchr("0123456789.+-", c) && !strchr("iInN", c)) broken = true; }
  for (int which = 0; which < 3; which++) {        // the whole matrix, the unsymmetric reader, entry by entry
    int m = -5, n = -5, z = -5, *I = nullptr, *J = nullptr; double *v = nullptr; MM_typecode t; memset(t, 'z', 4);
    std::string p = path; p.push_back(0);
    std::vector<int> eI, eJ; std::vector<double> ev;
    int r = which == 1 ? lib([&] { return mm_read_unsymmetric_sparse(path.c_str(), &m, &n, &z, &v, &I, &J); })
          : which == 0 ? lib([&] { return mm_read_mtx_crd(&p[0], &m, &n, &z, &I, &J, &v, &t); }) : by_entry(path, t, m, n, z, eI, eJ, ev);
    if (which == 2) { I = eI.data(); J = eJ.data(); v = ev.data(); }
    const char *fn = which == 1 ? "mm_read_unsymmetric_sparse" : which ? "mm_read_mtx_crd_entry" : "mm_read_mtx_crd";
    MC_LOG("%s %s: %d", how, fn, r);
    mc::outcome(mc::mix(which, r));
    if (r) { nothing_left(fn);
      if (clean && known && valid(t) && which != 1 && nz < 1000000 && M <= INT_MAX && N <= INT_MAX && M >= 0 && N >= 0) { MM_typecode u; FILE *f = fopen(path.c_str(), "r"); bool ok = mm_read_banner(f, &u) == 0 && mm_is_valid(u) && hw[0] == "%%matrixmarket" && text.compare(0, 14, "%%MatrixMarket") == 0 && std::string(" \t").find(text[14]) != std::string::npos; fclose(f); bool sp = size.find_first_not_of("0123456789 \t") == std::string::npos; if (ok && sp) mc::report("refused", "%s: %s refuses \"%s\" with %d", how, fn, show(text).c_str(), r); }
      continue; }
    std::vector<void *> keep; if (which < 2) keep = {I, J, v};
    nothing_left(fn, keep);
    if (must_fail || broken) mc::report("accepted", "%s: %s accepts \"%s\"", how, fn, show(text).c_str());
    else if (which == 1 && per != 1) mc::report("accepted", "%s: %s accepts \"%s\"", how, fn, show(text).c_str());
    else if (clean) {
      bool ok = m == want.M && n == want.N && z == nz;
      for (long i = 0; ok && i < nz; i++) { ok = I[i] == want.I[i] - (which == 1) && J[i] == want.J[i] - (which == 1); for (int k = 0; ok && k < per; k++) ok = same(v[i * per + k], want.v[i * per + k]); }
      if (!ok) mc::report("misread", "%s: %s reads \"%s\" as something else", how, fn, show(text).c_str());
    }
    for (void *q : keep) free(q);
  }
  mc::validated();
}
static const char *const bases[] = {
  "%%MatrixMarket matrix coordinate real general\n2 3 2\n1 1 0.5\n2 3 -4\n",
  "%%MatrixMarket matrix coordinate pattern symmetric\n% c\n3 3 2\n2 1\n3 3\n",
  "%%MatrixMarket matrix coordinate complex hermitian\n2 2 1\n2 1 1.5 -2\n",
  "%%MatrixMarket matrix coordinate integer general\n2 2 1\n2 1 7\n",
  "%%MatrixMarket matrix array real general\n2 2\n1\n2\n3\n4\n",
  "%%MatrixMarket matrix coordinate real general\n2 2 0\n"};
static void damaged() {
  std::string text = bases[mc::choose(6)];
  int kind = mc::choose(5); mc::shard();
  switch (kind) {
    case 0: text.resize(mc::choose((int)text.size() + 1)); judge(text, "truncated"); break;
    case 1: { int p = mc::choose((int)text.size()); static const char cs[] = "0129 \n\t%-+.eEx\r\0MmNn\xff"; char c = cs[mc::choose((int)sizeof cs - 1)]; if (c == text[p]) mc::prune(); text[p] = c; if (c == 0) mc::prune(); judge(text, "changed"); break; }
    case 2: { int p = mc::choose((int)text.size()); text.erase(p, 1); judge(text, "lost character"); break; }
    case 3: { int p = mc::choose((int)text.size() + 1); static const char cs[] = "09 \n-x."; text.insert(p, 1, cs[mc::choose(7)]); judge(text, "inserted character"); break; }
    case 4: { std::vector<std::string> l; size_t a = 0; while (a < text.size()) { size_t e = text.find('\n', a); l.push_back(text.substr(a, e - a + 1)); a = e + 1; } int i = mc::choose((int)l.size()), k = mc::choose(3); if (k == 0) l.erase(l.begin() + i); else if (k == 1) l.insert(l.begin() + i, l[i]); else l.insert(l.begin() + i, "\n"); std::string o; for (auto &x : l) o += x; judge(o, "lines"); break; }
  }
}

// ---- failures ----
static void failures() {
  int what = mc::choose(7);
  Mat m = choose_matrix(1, 2);
  mc::state(mc::mix(what, mc::hash_bytes(m.t, 4)));
  std::string miss = dir + "/none/such"; miss.push_back(0);
  int M, N, n, *I, *J; double *v; MM_typecode t;
  switch (what) {
    case 0: { int r = lib([&] { return mm_read_mtx_crd(&miss[0], &M, &N, &n, &I, &J, &v, &t); }); if (r != MM_COULD_NOT_READ_FILE) mc::report("status", "mm_read_mtx_crd of a missing file: %d", r); nothing_left("mm_read_mtx_crd"); break; }
    case 1: { int r = lib([&] { return mm_read_unsymmetric_sparse(&miss[0], &M, &N, &n, &v, &I, &J); }); if (r >= 0) mc::report("status", "mm_read_unsymmetric_sparse of a missing file: %d", r); nothing_left("mm_read_unsymmetric_sparse"); break; }
    case 2: { int r = write_as(m, dir + "/none/such"); if (r != MM_COULD_NOT_WRITE_FILE) mc::report("status", "mm_write_mtx_crd to a missing directory: %d", r); nothing_left("mm_write_mtx_crd"); break; }
    case 3: { int r = write_as(m, "/dev/full"); if (r != MM_COULD_NOT_WRITE_FILE) mc::report("status", "mm_write_mtx_crd to a full device: %d", r); nothing_left("mm_write_mtx_crd"); break; }
    case 4: { // types it cannot hold
      static const char *const un[] = {"MCIG", "MARG", "MC G", "    ", "MACG", "MCIS"}; memcpy(m.t, un[mc::choose(6)], 4);
      std::string p = dir + "/u.mtx"; unlink(p.c_str());
      Mat x = m; x.v.assign(4, 1.0); int r = write_as(x, p); if (r == 0) mc::report("status", "mm_write_mtx_crd of type %.4s: success, \"%s\"", m.t, show(slurp_file(p)).c_str()); nothing_left("mm_write_mtx_crd"); break; }
    case 5: { FILE *f = fopen("/dev/full", "w"); setvbuf(f, nullptr, _IONBF, 0); int k = mc::choose(3); int r = lib([&] { return k == 0 ? mm_write_banner(f, m.t) : k == 1 ? mm_write_mtx_crd_size(f, 1, 2, 3) : mm_write_mtx_array_size(f, 1, 2); }); fclose(f); if (r != MM_COULD_NOT_WRITE_FILE) mc::report("status", "header writer %d on a full device: %d", k, r); nothing_left("header"); break; }
    case 6: { // the special names
      std::string p = dir + "/so"; fflush(stdout); int old = dup(1), fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(fd, 1); close(fd);
      int r = write_as(m, "stdout"); fflush(stdout); dup2(old, 1); close(old);
      if (r || !well_formed(slurp_file(p), m)) mc::report("stdout", "mm_write_mtx_crd to stdout: %d \"%s\"", r, show(slurp_file(p)).c_str());
      nothing_left("mm_write_mtx_crd");
      old = dup(0); fd = open(p.c_str(), O_RDONLY); dup2(fd, 0); close(fd); clearerr(stdin); fflush(stdin);
      std::string in = "stdin"; in.push_back(0); I = J = nullptr; v = nullptr;
      r = lib([&] { return mm_read_mtx_crd(&in[0], &M, &N, &n, &I, &J, &v, &t); });
      while (getchar() != EOF) {} clearerr(stdin); dup2(old, 0); close(old);
      if (r || M != m.M || N != m.N || n != (int)m.I.size() || memcmp(t, m.t, 4)) mc::report("stdin", "mm_read_mtx_crd from stdin: %d", r);
      if (!r) { nothing_left("mm_read_mtx_crd", {I, J, v}); free(I); free(J); free(v); } else nothing_left("mm_read_mtx_crd");
      break; }
  }
  mc::outcome(what); mc::validated();
}

void mc_body() {
  switch (mc::choose(8)) {
    case 0: typecodes(); break;
    case 1: sizes(); break;
    case 2: size_texts(); break;
    case 3: matrices(); break;
    case 4: exponents(); break;
    case 5: many(); break;
    case 6: damaged(); break;
    case 7: failures(); break;
  }
}
}
