// C08: reading a MatrixMarket file yields exactly the matrix it describes, and everything else is refused.
#include "typedefs.h"
#include "generic/coo.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "io/input.h"
#include <cstring>
#include <array>
#include <fcntl.h>
#include <unistd.h>
#define PLAIN_VALUES
#include "gen.h"
#include "guard.h"
#include "mmref.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() { stderr = fopen("/dev/null", "w"); }

static const char *put(std::string const &s) {
  static char path[600];
  static int fd = -1;
  if (fd < 0) { snprintf(path, sizeof path, "%s/m.mtx", mc::scratch()); fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0666); }
  if (fd < 0 || pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size() || ftruncate(fd, (off_t)s.size()) != 0) { perror("put"); _exit(99); }
  return path;
}
static std::string visible(std::string const &s) {
  std::string o;
  for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); o += b; } else o += c; }
  if (o.size() > 300) o = o.substr(0, 140) + " ... " + o.substr(o.size() - 140);
  return o;
}
struct P3 { int64_t r, c; T_ v; };
static bool operator<(P3 const &a, P3 const &b) { return a.r != b.r ? a.r < b.r : a.c != b.c ? a.c < b.c : a.v < b.v; }
static bool operator==(P3 const &a, P3 const &b) { return a.r == b.r && a.c == b.c && a.v == b.v && std::signbit(a.v) == std::signbit(b.v); }

template <class C> static void read_as(const char *path, std::string const &text, mmref::File const &f, bool by_suffix, const char *kind) {
  C a;
  again = (int)(text.size() % 3);                      // some objects were used before
  build_again<C>(a, [](C &a, C &s) { Coo_to_Coo(&a, &s); });
  int ret = 77;
  guard::Outcome o = guard::run([&] { ret = by_suffix ? read_COO(&a, path) : read_mm_COO(&a, path); });
  mc::step();
  bool ok = o == guard::RETURNED && ret == 0;
  bool refused = o == guard::RETURNED && ret < 0;
  mc::outcome(mc::mix((uint64_t)f.cls * 8 + ok, (uint64_t)(int64_t)ret + 1000));
  static const char *cn[] = {"valid", "invalid", "open"};
  MC_LOG("%s: %s %s -> %s %d", kind, cn[f.cls], f.why, ok ? "read" : "refused", ret);
  if (!ok && !refused) { mc::report("neither", "%s: neither read nor refused (result %d, outcome %d %s): \"%s\"", kind, ret, o, guard::what, visible(text).c_str()); return; }
  if (f.cls == mmref::INVALID && ok) mc::report("accepted", "%s: invalid file (%s) was accepted: \"%s\"", kind, f.why, visible(text).c_str());
  if (f.cls == mmref::VALID && !ok) { mc::report("refused", "%s: valid file was refused with %d: \"%s\"", kind, ret, visible(text).c_str()); return; }
  if (f.cls == mmref::VALID || (f.limit && ok)) {
    if ((int64_t)a.rows != f.rows || (int64_t)a.columns != f.cols) mc::report("dimensions", "%s: read as %ldx%ld, expected %ldx%ld: \"%s\"", kind, (long)a.rows, (long)a.columns, (long)f.rows, (long)f.cols, visible(text).c_str());
    else if ((int64_t)a.nnz != (int64_t)f.e.size()) mc::report("count", "%s: %ld entries, expected %zu: \"%s\"", kind, (long)a.nnz, f.e.size(), visible(text).c_str());
    else {
      std::vector<P3> x, y;
      for (auto &p : f.e) x.push_back(P3{p.r, p.c, (T_)p.v});
      for (size_t i = 0; i < f.e.size(); i++) y.push_back(P3{(int64_t)a.get_row_index((I_)i), (int64_t)a.get_column_index((I_)i), a.get_value((I_)i)});
      std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      for (size_t i = 0; i < x.size(); i++) if (!(x[i] == y[i])) {
        mc::report("entry", "%s: entry (%ld,%ld) = %.17g read, expected (%ld,%ld) = %.17g: \"%s\"", kind, (long)y[i].r, (long)y[i].c, (double)y[i].v, (long)x[i].r, (long)x[i].c, (double)x[i].v, visible(text).c_str());
        break;
      }
    }
  }
  if (ok) release(a);
  if (!mc::failed()) mc::validated();
}
static void check(std::string const &text, mmref::Class want_known = mmref::OPEN) {
  mmref::File f = mmref::parse(text);
  if (want_known != mmref::OPEN && f.cls != want_known) { fprintf(stdout, "reference disagrees with the generator: %s [%s]\n", visible(text).c_str(), f.why); fflush(stdout); _exit(98); }
  mc::state(mc::hash_bytes(text.data(), text.size()));
  MC_LOG("file \"%s\"", visible(text).c_str());
  const char *path = put(text);
  read_as<Coo2<T_, I_>>(path, text, f, false, "COO2");
  if (!mc::failed()) read_as<Coo3<T_, I_>>(path, text, f, true, "COO3");
}

static const char *fields[] = {"real", "integer", "pattern"};
static const char *syms[] = {"general", "symmetric", "skew-symmetric"};
static const char *reals[] = {"1", "-2.5", "1e3", "0.1", "-3.25E-02", "+4", ".5", "7.", "0", "-0.0", "123456.789", "1e-30", "16777217", "3.4e+37", "0.30000000000000004", "000012.50"};
static const char *ints[] = {"1", "-2", "+3", "0", "16777216", "007", "-2147483648"};

struct Style {
  int banner = 0, comment = 0, blank = 0, size_sep = 0, entry_sep = 0, between = 0, eol = 0, tail = 0;
};
struct Src { int64_t rows, cols; int field, sym; std::vector<std::array<int64_t, 2>> at; std::vector<std::string> v; };
static std::string sep3(int k, std::vector<std::string> const &w) {
  static const char *lead[] = {"", "", "  ", "\t", ""}, *mid[] = {" ", "\t", "   ", " \t ", " "}, *end[] = {"", "", " ", "\t ", "                    "};
  std::string s = lead[k];
  for (size_t i = 0; i < w.size(); i++) { if (i) s += mid[k]; s += w[i]; }
  return s + end[k];
}
static std::string render(Src const &m, Style const &y) {
  std::string eol = y.eol ? "\r\n" : "\n", o = "%%MatrixMarket", g = y.banner == 2 ? "   " : y.banner == 3 ? "\t" : " ";
  for (const char *w : {"matrix", "coordinate", fields[m.field], syms[m.sym]}) {
    std::string t = w;
    if (y.banner == 1) for (char &c : t) c = (char)toupper(c);
    if (y.banner >= 2) t[0] = (char)toupper(t[0]);
    o += g + t;
  }
  if (y.banner == 3) o += "  ";
  o += eol;
  switch (y.comment) {
    case 1: o += "% a comment" + eol; break;
    case 2: o += "%" + eol + "%% 3 3 3" + eol + "%1 1 1" + eol; break;
    case 3: o += "% " + std::string(1000, 'x') + eol; break;
    case 4: o += "%" + std::string(1022 - y.eol, '9') + eol; break;
    case 5: o += "%" + std::string(1023, ' ') + eol + "% 2" + eol; break;
    case 6: o += "%" + std::string(1024, '7') + eol; break;
    case 7: for (int i = 0; i < 60; i++) o += "% line " + std::to_string(i) + eol; break;
  }
  static const char *bl[] = {"", "\n", "  \n\n", "\t\r\n"};
  o += bl[y.blank];
  o += sep3(y.size_sep, {std::to_string(m.rows), std::to_string(m.cols), std::to_string(m.at.size())}) + eol;
  for (size_t i = 0; i < m.at.size(); i++) {
    if (y.between == 1 || (y.between == 2 && i == 0)) o += y.between == 1 ? eol : "   \n\n\t\n";
    std::vector<std::string> w = {std::to_string(m.at[i][0]), std::to_string(m.at[i][1])};
    if (m.field != 2) w.push_back(m.v[i]);
    o += sep3(y.entry_sep, w);
    if (i + 1 < m.at.size() || y.tail != 1 || m.at.empty()) o += eol;
  }
  if (y.tail == 2) o += "\n  \n";
  return o;
}
static std::string value(int field, int k) { return field == 0 ? reals[k % 16] : ints[k % 7]; }
static Src base(int k, int field, int sym) {
  Src m; m.field = field; m.sym = sym;
  static const std::vector<std::vector<std::array<int64_t, 2>>> lists = {{}, {{2, 1}}, {{2, 1}, {3, 2}}, {{3, 1}, {2, 1}, {3, 2}}, {{1, 1}, {2, 1}, {3, 3}, {3, 1}}, {{10, 2}, {12, 11}, {9, 8}}};
  m.at = lists[k];
  m.rows = m.cols = k == 5 ? 12 : k == 1 ? 2 : 3;
  if (sym == 0 && k != 1) m.cols++;
  if (sym == 2) for (auto it = m.at.begin(); it != m.at.end();) it = (*it)[0] == (*it)[1] ? m.at.erase(it) : it + 1;
  for (size_t i = 0; i < m.at.size(); i++) m.v.push_back(value(field, (int)(i * 3 + k)));
  return m;
}
static void kinds(int &field, int &sym) { field = mc::choose(3); sym = mc::choose(field == 2 ? 2 : 3); }

static const char alphabet[] = "0123456789 \n-+.eEx%,\t\rm";
static std::string mutate(std::string s, size_t from, size_t to) {    // one change at a position in [from, to]
  int kind = mc::choose(5);
  size_t i = from + (size_t)mc::choose((int)(to - from + (kind == 1)));
  switch (kind) {
    case 0: s.erase(i, 1); break;
    case 1: s.insert(i, 1, alphabet[mc::choose((int)sizeof alphabet - 1)]); break;
    case 2: s[i] = alphabet[mc::choose((int)sizeof alphabet - 1)]; break;
    case 3: s.resize(i); break;
    case 4: if (i + 1 >= s.size()) mc::prune(); std::swap(s[i], s[i + 1]); break;
  }
  return s;
}

void mc_body() {
  int fam = mc::choose(lite() ? 6 : 7);
  Src m; Style y;
  switch (fam) {
    case 0: {                                    // every small matrix, plainly written
      kinds(m.field, m.sym);
      m.rows = mc::range(1, 3); m.cols = m.sym ? (int)m.rows : mc::range(1, 3);
      mc::shard();
      int n = mc::range(0, mc::thorough ? 4 : m.rows * m.cols > 6 || lite() ? 2 : 3);
      for (int i = 0; i < n; i++) {
        int r = mc::range(1, (int)m.rows), c = mc::range(1, m.sym ? r : (int)m.cols);
        if (m.sym == 2 && r == c) mc::prune();
        m.at.push_back({r, c}); m.v.push_back(value(m.field, i + n));
      }
      check(render(m, y), mmref::VALID);
      break;
    }
    case 1: {                                    // every value text
      kinds(m.field, m.sym);
      if (m.field == 2) mc::prune();
      m.rows = m.cols = 3; m.at = {{2, 1}, {3, 1}};
      m.v.push_back(value(m.field, mc::choose(m.field ? 7 : 16))); m.v.push_back(value(m.field, mc::choose(m.field ? 7 : 16)));
      y.entry_sep = mc::choose(5);
      check(render(m, y), mmref::VALID);
      break;
    }
    case 2: {                                    // every way of laying the same matrix out
      kinds(m.field, m.sym);
      y.banner = mc::choose(4); y.comment = mc::choose(8);
      mc::shard();
      m = base(lite() ? 3 : mc::choose(4), m.field, m.sym);
      y.blank = mc::choose(4); y.size_sep = mc::choose(5); y.entry_sep = mc::choose(lite() ? 2 : 5); y.between = mc::choose(3); y.eol = mc::choose(2); y.tail = mc::choose(3);
      if (m.at.empty() && (y.entry_sep || y.between)) mc::prune();
      check(render(m, y), mmref::VALID);
      break;
    }
    case 3: {                                    // every single change of a file
      kinds(m.field, m.sym);
      int b = mc::choose(6);
      m = base(b, m.field, m.sym);
      y.comment = mc::choose(2); y.eol = lite() ? 0 : mc::choose(2);
      mc::shard();
      std::string s = render(m, y);
      check(mutate(s, 0, s.size()));
      break;
    }
    case 4: {                                    // larger matrices, whole lines lost, repeated or exchanged
      kinds(m.field, m.sym);
      static const int ns[] = {1, 2, 9, 10, 99, 100, 300, 66000, 270007};
      int n = ns[mc::choose(lite() ? 6 : 9)];
      int pat = mc::choose(4);
      m.rows = m.cols = n; if (!m.sym) m.cols += 7;
      for (int i = 0; i < n; i++) {
        int r = pat == 0 ? i + 1 : pat == 1 ? n : pat == 2 ? n - i : (i * 7) % n + 1, c = pat == 0 ? i + 1 : pat == 1 ? i + 1 : pat == 2 ? 1 : (i * 3) % r + 1;
        if (m.sym == 2 && r == c) continue;
        m.at.push_back({r, c}); m.v.push_back(value(m.field, i));
      }
      mc::shard();
      std::string s = render(m, y);
      std::vector<std::string> l;
      for (size_t at = 0; at < s.size();) { size_t e = s.find('\n', at); l.push_back(s.substr(at, e + 1 - at)); at = e + 1; }
      int change = mc::choose(n > 1000 ? 2 : 6);
      if (change) {
        if (n > 1000) y.tail = (int)l.size() - 1;
        else if (n > 100 && !mc::thorough) { static const int w[] = {0, 1, 2, 3, 150}; int k = mc::pick(w); if (k >= (int)l.size()) mc::prune(); y.tail = k; }
        else y.tail = mc::choose((int)l.size());
        size_t k = (size_t)y.tail;
        if (change == 1) l.erase(l.begin() + k);
        if (change == 2) l.insert(l.begin() + k, l[k]);
        if (change == 3) { if (k + 1 >= l.size()) mc::prune(); std::swap(l[k], l[k + 1]); }
        if (change == 4) l.resize(k);
        if (change == 5) l.insert(l.begin() + k, "\n");
      }
      std::string t; for (auto &x : l) t += x;
      check(t, change == 0 ? mmref::VALID : mmref::OPEN);
      break;
    }
    case 5: {                                    // dimensions and indices at the limits of the types
      kinds(m.field, m.sym);
      static const int64_t ns[] = {255, 256, 65535, 65536, 65537, 16777216, 16777217, 99999999, 1000000007, 2147483646, 2147483647, 2147483648, 4294967295, 4294967299, 9000000000};
      m.rows = mc::pick(ns); m.cols = m.sym ? m.rows : mc::pick(ns);
      mc::shard();
      int n = mc::range(1, mc::thorough ? 3 : 2);
      for (int i = 0; i < n; i++) {
        int r = mc::choose(4), c = mc::choose(4);
        const int64_t rr[] = {m.rows, m.rows - 1, 1, m.rows / 2}, cc[] = {m.cols, m.cols - 1, 1, m.cols / 2};
        if (m.sym && (rr[r] < cc[c] || (m.sym == 2 && rr[r] == cc[c]))) mc::prune();
        m.at.push_back({rr[r], cc[c]}); m.v.push_back(value(m.field, i));
      }
      check(render(m, y), m.rows > 2147483647 || m.cols > 2147483647 ? mmref::OPEN : mmref::VALID);
      break;
    }
    case 6: {                                    // every pair of changes of the size line and the entries
      kinds(m.field, m.sym);
      if (m.sym == 1 && m.field == 1) mc::prune();
      m = base(1, m.field, m.sym);
      if (!mc::thorough) m.v = {"5"};
      std::string s = render(m, y);
      size_t head = s.find('\n') + 1;
      int kind = mc::choose(2);                  // an insertion, deletion or replacement, twice
      size_t i = head + (size_t)mc::choose((int)(s.size() - head));
      mc::shard();
      std::string t = s;
      if (kind == 0) t[i] = alphabet[mc::choose((int)sizeof alphabet - 1)];
      else t.insert(i, 1, alphabet[mc::choose((int)sizeof alphabet - 1)]);
      check(mutate(t, mc::thorough ? head : i, t.size()));
      break;
    }
  }
}
}
