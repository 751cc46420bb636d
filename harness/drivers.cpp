// C20: the driver programs, run as processes of their own on every small input.
#include <cmath>
#include <dirent.h>
#include "typedefs.h"
#include "utils.h"
#include "gen.h"
#include "blk.h"
#include "mmref.h"
#include "proc.h"
int d_csr(int, char **), d_csr2(int, char **), d_cswr(int, char **), d_csbr(int, char **), d_csbr2(int, char **), d_cgbr(int, char **), d_cgbr2(int, char **), d_partition(int, char **), d_bench(int, char **), d_pbench(int, char **);
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 40;

enum { CSR, CSR2, CSWR, CSBR, CSBR2, CGBR, CGBR2, PARTITION, BENCH, PBENCH, NDRV };
static const struct { const char *n; Tool t; bool blocked; } D[NDRV] = {{"csr", d_csr, false}, {"csr2", d_csr2, false}, {"cswr", d_cswr, false}, {"csbr", d_csbr, true}, {"csbr2", d_csbr2, true}, {"cgbr", d_cgbr, true},
  {"cgbr2", d_cgbr2, true}, {"partition", d_partition, true}, {"bench", d_bench, false}, {"pbench", d_pbench, false}};

typedef I_ U;
void mc_setup() { jail_setup(); }
static std::vector<std::string> names;
static std::string path(std::string const &n) { names.push_back(jail + "/" + n); return names.back(); }
struct Clean { ~Clean() { for (auto &n : names) { unlink(n.c_str()); rmdir(n.c_str()); } names.clear(); unlink((jail + "/stdout").c_str()); unlink((jail + "/stderr").c_str()); } };
static std::string array_bytes(std::vector<U> const &v) { return std::string((const char *)v.data(), v.size() * sizeof(U)); }
static std::string put(std::string const &n, std::string const &s) { std::string p = path(n); put_file(p, s); return p; }

static std::string bin_of(Mat const &m) {
  std::string s; put_bytes(s, (U)m.rows); put_bytes(s, (U)m.cols); put_bytes(s, (U)m.nnz());
  for (auto &e : m.e) put_bytes(s, (U)e.r);
  for (auto &e : m.e) put_bytes(s, (U)e.c);
  for (auto &e : m.e) put_bytes(s, (T_)e.v);
  return s;
}
static std::string mtx_of(Mat const &m) {
  std::string s = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(m.rows) + " " + std::to_string(m.cols) + " " + std::to_string(m.nnz()) + "\n";
  for (auto &e : m.e) s += std::to_string(e.r + 1) + " " + std::to_string(e.c + 1) + " " + std::to_string((int)e.v) + "\n";
  return s;
}
static bool lone(std::string const &err) { return err.find_first_not_of(" \n") == std::string::npos; }
static bool check_files(const char *what, std::vector<std::pair<std::string, std::string>> const &in) {
  for (auto &f : in) if (slurp_file(f.first) != f.second) { mc::report("input", "%s: its input %s was changed", what, f.first.c_str() + jail.size() + 1); return false; }
  size_t n = 0; DIR *d = opendir(jail.c_str()); while (dirent *e = readdir(d)) if (e->d_name[0] != '.' || in.empty()) n++; closedir(d);
  size_t want = 2; for (auto &f : in) if (f.first[jail.size() + 1] != '.') want++;
  if (!in.empty() && n > want) { mc::report("left", "%s: wrote files nobody asked for", what); return false; }
  return true;
}

// ---- reading the output
static long before(std::string const &t, const char *label, int nth = 0) {
  size_t at = 0;
  for (int i = 0; i <= nth; i++) { at = t.find(label, i ? at + 1 : 0); if (at == std::string::npos) return -1; }
  size_t b = at; while (b > 0 && isdigit((unsigned char)t[b - 1])) b--;
  return b == at || (b > 0 && t[b - 1] == '-') ? -1 : atol(t.substr(b, at - b).c_str());
}
static std::vector<double> timing(std::string const &t, std::string const &head) {       // "<head> (<mode>): value" for the four modes
  std::vector<double> v;
  for (auto m : {"best", "median", "mean", "worst"}) {
    std::string l = head + " (" + m + "):"; size_t at = t.find(l);
    if (at == std::string::npos) { v.clear(); return v; }
    char *e; v.push_back(strtod(t.c_str() + at + l.size(), &e)); if (e == t.c_str() + at + l.size()) { v.clear(); return v; }
  }
  return v;
}
static bool expect(const char *what, std::string const &t, const char *label, int64_t want, int nth = 0) {
  long g = before(t, label, nth);
  if (g == want) return true;
  mc::report("statistics", "%s: reports %ld%s, expected %ld", what, g, label, (long)want); return false;
}
static bool measured(const char *what, std::string const &t, const char *method) {
  auto s = timing(t, std::string("Execution time ") + method), f = timing(t, std::string("MFLOP/s        ") + method);
  if (s.empty() || f.empty()) { mc::report("measurement", "%s: no complete measurement of %s is printed", what, method); return false; }
  if (!(s[0] >= 0 && s[0] <= s[1] && s[1] <= s[3] && s[0] <= s[2] && s[2] <= s[3])) { mc::report("measurement", "%s: the times of %s are not in order: %g %g %g %g", what, method, s[0], s[1], s[2], s[3]); return false; }
  return true;
}
static bool measured_csv(const char *what, std::string const &t, const char *method) {
  std::string l = std::string("\n") + method + ","; size_t at = t.find(l);
  if (at == std::string::npos) { mc::report("measurement", "%s: no measurement of %s is printed", what, method); return false; }
  const char *p = t.c_str() + at + l.size(); char *e; int n = 0;
  for (;;) { strtod(p, &e); if (e == p) break; n++; p = e; if (*p != ',') break; p++; }
  if (n != 4 || *p != '\n') { mc::report("measurement", "%s: the measurement of %s has %d numbers, expected 4", what, method, n); return false; }
  return true;
}
static bool blocked_info(const char *what, std::string const &t, Mat const &m, Offs const &ro, Offs const &co) {
  return expect(what, t, " rows x", m.rows) && expect(what, t, " columns", m.cols) && expect(what, t, " block-rows x", (int64_t)ro.size() - 1) && expect(what, t, " block-columns", (int64_t)co.size() - 1) &&
         expect(what, t, " non-zeros in", m.nnz()) && expect(what, t, " blocks\n", true_blocks(m, ro, co));
}

static Mat pick_matrix(bool &big) {
  Mat m;
  big = mc::choose(2) == 1;
  if (!big) {
    int mx = lite() ? 2 : 3;
    int r = mc::range(1, mx), c = mc::range(1, mx);
    m = gen_tiny_dims(r, c, lite() || (!mc::thorough && r * c == 9) ? 1 : mc::thorough ? 3 : 2);
  } else {
    static const int q[][2] = {{1, 40}, {40, 1}, {16, 16}, {65, 17}, {17, 130}, {300, 300}, {2000, 2000}, {70000, 3}, {3, 70000}, {100000, 100000}};
    int s = mc::choose(lite() ? 5 : 10);
    int pat = mc::choose(P_NUM), ord = mc::choose(O_NUM);
    if (s >= 5 && (pat == P_FULL || ord != pat % O_NUM)) mc::prune();
    if ((lite() || !mc::thorough) && ord != pat % O_NUM) mc::prune();
    if (!mc::thorough && s >= 6 && pat % 4 != s % 4) mc::prune();
    m = gen_struct(q[s][0], q[s][1], pat, ord, 60);
    if (m.nnz() > 200000) mc::prune();
  }
  return m;
}
static int pick_workers(bool big) {
  static const int w[] = {1, 2, 3, 4, 8, 16};
  if (lite()) return 2;
  return big || mc::thorough ? mc::pick(w) : 1 + mc::choose(2) * 3;
}
static void do_valid() {
  int d = mc::choose(NDRV);
  const char *what = D[d].n;
  bool big; Mat m = pick_matrix(big);
  int th, file;
  if (mc::thorough) { th = pick_workers(big); file = mc::choose(2); }
  else { static const int w[2][6] = {{1, 3, 1, 2, 1, 4}, {8, 2, 16, 4, 8, 3}}; file = lite() ? (int)m.nnz() % 2 : mc::choose(2); th = lite() ? 2 : big ? w[file][(m.nnz() + m.rows) % 6] : 1 + 3 * file; }
  std::vector<std::pair<std::string, std::string>> in;
  std::vector<std::string> args; Offs ro, co; int64_t width = DEFAULT_CSWR_WIDTH;
  bool sizes = false; std::vector<U> perm;
  if (D[d].blocked) {
    sizes = mc::flip();
    if (sizes) {
      if (big) { int k = mc::choose(lite() ? 3 : (int)OF_NUM); if (k == OF_UNIT && m.rows + m.cols > 400) mc::prune(); ro = offs_family(m.rows, k); co = offs_family(m.cols, k); }
      else if (mc::thorough || m.nnz() <= 1) { ro = offs_any(m.rows); co = offs_any(m.cols); }
      else { ro = offs_strict(m.rows); co = offs_strict(m.cols); }
    }
  }
  if (d == CSWR && mc::flip()) { static const int64_t w[] = {1, 2, 3, 7, 32, 33, 64, 255, 2147483647, 2147483646}; width = mc::pick(w); if (lite() && width > 2 && width < 1000) mc::prune(); if (width > 1000 && m.rows > 256) mc::prune(); }
  if (d == PBENCH) {
    if (m.rows != m.cols) mc::prune();
    perm.resize((size_t)m.rows); for (size_t i = 0; i < perm.size(); i++) perm[i] = (U)i;
    if (!big) { for (size_t i = 0; i + 1 < perm.size(); i++) std::swap(perm[i], perm[i + (size_t)mc::choose((int)(perm.size() - i))]); }
    else switch (mc::choose(3)) { case 0: std::reverse(perm.begin(), perm.end()); break; case 1: std::rotate(perm.begin(), perm.begin() + 1, perm.end()); break;
      default: { Lcg g(7); for (size_t i = perm.size() - 1; i > 0; i--) std::swap(perm[i], perm[g.next() % (i + 1)]); } }
  }
  mc::shard();
  auto give_file = [&](const char *n, std::string const &s) { std::string p = put(n, s); in.push_back({p, s}); args.push_back(p); };
  give_file(file ? "matrix.mtx" : "matrix.bin", file ? mtx_of(m) : bin_of(m));
  if (sizes) {
    std::vector<U> a, b; for (size_t i = 0; i + 1 < ro.size(); i++) a.push_back((U)(ro[i + 1] - ro[i])); for (size_t i = 0; i + 1 < co.size(); i++) b.push_back((U)(co[i + 1] - co[i]));
    give_file("rows", array_bytes(a)); give_file("columns", array_bytes(b));
    MC_LOG("block rows %s columns %s", show(ro).c_str(), show(co).c_str());
  }
  if (d == CSWR && width != DEFAULT_CSWR_WIDTH) args.push_back(std::to_string(width));
  if (d == PBENCH) give_file("perm", array_bytes(perm));
  U beta = (U)pick_block_size((U)m.rows, (U)m.cols, sizeof(T_), th);
  if (!sizes) { ro = offs_const(m.rows, beta); co = offs_const(m.cols, beta); }
  mc::state(mc::mix(mc::mix(m.hash(), d * 64 + th), mc::mix(mc::hash_bytes(ro.data(), ro.size() * 8), mc::mix(mc::hash_bytes(perm.data(), perm.size() * sizeof(U)), width * 2 + file))));
  char full[200]; snprintf(full, sizeof full, "%s, %s %ldx%ld with %ld entries, %d workers%s", what, m.desc, (long)m.rows, (long)m.cols, (long)m.nnz(), th, sizes ? ", block sizes given" : "");
  if (d == PBENCH) { std::vector<U> inv(perm.size()); for (size_t i = 0; i < perm.size(); i++) inv[perm[i]] = (U)i; for (auto &e : m.e) { e.r = inv[(size_t)e.r]; e.c = inv[(size_t)e.c]; } }
  // an index that the 16 bits of CGBR's blocks cannot hold is refused by an assertion
  bool wide = (d == CGBR || d == CGBR2 || d == PARTITION || d == BENCH || d == PBENCH) && max_local(m, ro, co, true, true) > 65535;
  assertion_allowed = wide;
  Run r = run(what, D[d].t, args, th, (d + th) % mcomp::NPOLICY == mcomp::EXPLORE ? mcomp::ROUND_ROBIN : (d + th) % mcomp::NPOLICY);
  assertion_allowed = false;
  if (wide && r.status == 128 + SIGABRT) { mc::validated(); return; }
  if (r.signalled) return;
  if (r.status != 0) { mc::report("status", "%s: exit status %d for valid input: %.200s", full, r.status, r.err.c_str()); return; }
  if (!check_files(full, in)) return;
  std::string t = "\n" + r.out;
  switch (d) {
    case CSR: case CSR2: if (!expect(full, t, " rows", m.rows) || !expect(full, t, " non-zeros", m.nnz()) || !measured(full, t, "CSR")) return; break;
    case CSWR: if (!expect(full, t, " rows", m.rows) || !expect(full, t, " groups", (m.rows + width - 1) / width) || !expect(full, t, " non-zeros", m.nnz()) || !measured(full, t, "CSWR")) return;
      if (t.find(" of " + std::to_string(width) + ",") == std::string::npos) { mc::report("statistics", "%s: the width %ld is not reported", full, (long)width); return; } break;
    case BENCH: case PBENCH: {
      size_t at = t.find("Threads"); if (at == std::string::npos || atol(t.c_str() + std::min(t.size(), t.find(':', at) + 1)) != th) { mc::report("statistics", "%s: reports a wrong number of threads", full); return; }
      at = t.find("Beta ="); if (at == std::string::npos || strtoul(t.c_str() + at + 6, nullptr, 10) != (unsigned long)beta) { mc::report("statistics", "%s: reports a wrong block size, expected %lu", full, (unsigned long)beta); return; }
      if (d == BENCH) { if (!measured(full, t, "CSR") || !measured(full, t, "GSB")) return; }
      else { if (!measured_csv(full, t, "CSR") || !measured_csv(full, t, "GSB") || !blocked_info(full, t, m, ro, co)) return; }
    } break;
    default:
      if (!blocked_info(full, t, m, ro, co)) return;
      if (d != PARTITION) { if (!measured(full, t, "GSB")) return; break; }
      // the partition: for every block-row its number of chunks and the number of blocks in each
      std::vector<int64_t> cnt(ro.size() - 1); { std::set<std::pair<int, int>> s; for (auto &e : m.e) s.insert({block_of(ro, e.r), block_of(co, e.c)}); for (auto &b : s) cnt[(size_t)b.first]++; }
      size_t at = 0;
      for (size_t b = 0; b + 1 < ro.size(); b++) {
        std::string l = "\n" + std::to_string(b) + ",";
        at = t.find(l, at); if (at == std::string::npos) { mc::report("partition", "%s: the partition of block-row %zu is not printed", full, b); return; }
        const char *p = t.c_str() + at + l.size(); char *e; long chunks = strtol(p, &e, 10), n = 0, sum = 0; if (e == p || *e != ':') { mc::report("partition", "%s: the partition of block-row %zu cannot be read", full, b); return; }
        p = e + 1; const char *nl = strchr(p, '\n'); if (!nl) nl = p + strlen(p);
        while (p < nl) { while (p < nl && (*p == ' ' || *p == '\t')) p++; if (p >= nl) break; long v = strtol(p, &e, 10); if (e == p || v < 0) { n = -1; break; } n++; sum += v; p = e; }
        if (n != chunks || sum != cnt[b]) { mc::report("partition", "%s: block-row %zu has %ld chunks of %ld blocks in all, announced %ld chunks, it has %ld blocks", full, b, n, sum, chunks, (long)cnt[b]); return; }
        at++;
      }
  }
  mc::validated();
}
// ---- inputs a driver must refuse
static void do_refuse() {
  int d = mc::choose(NDRV);
  const char *what = D[d].n;
  Mat m; m.rows = 3; m.cols = 3; m.e = {Ent{2, 0, 4}, Ent{0, 1, -2}, Ent{1, 1, 3}}; snprintf(m.desc, sizeof m.desc, "sample");
  std::string bin = bin_of(m), mtx = mtx_of(m), matrix, name, note;
  std::vector<U> rs{1, 2}, cs{2, 1}, perm{2, 0, 1}; std::string rsb = array_bytes(rs), csb = array_bytes(cs), pb = array_bytes(perm);
  bool may_assert = false;     // sizes that do not fit the matrix: the library's assertions are the refusal
  int extra = D[d].blocked && mc::flip() ? 2 : d == PBENCH ? 1 : 0;
  int kind = mc::choose(9);
  matrix = bin; name = "matrix.bin";
  std::vector<std::string> args;
  switch (kind) {
    case 0: {                                                     // every wrong number of arguments
      int k = mc::choose(7);
      bool good = D[d].blocked ? (k == 1 || k == 3) : d == PBENCH ? k == 2 : d == CSWR ? (k == 1 || k == 2) : k == 1;
      if (good || extra == 2) mc::prune();
      mc::shard();
      std::string p = put(name, bin), q = put("rows", rsb);
      for (int i = 0; i < k; i++) args.push_back(i == 0 ? p : q);
      note = std::to_string(k) + " arguments";
    } break;
    case 1: {                                                     // names that are no matrix
      static const char *n[] = {"matrix", "matrix.bi", "matrix.binx", "matrix.BIN", "matrixbin", "bin", "matrix.mtx.gz", "matrix.mt", "mtx", "matrix.bin.", ".", "..", "x", "matrix.mtxbin", "matrix.Mtx", "matrix.", "matrix.bin/"};
      name = n[mc::choose(17)];
      mc::shard();
      if (name.find('/') == std::string::npos && name[0] != '.') put(name, bin);
      args.push_back(jail + "/" + name); note = "the name " + name;
    } break;
    case 2: { static const char *n[] = {"none.bin", "none.mtx", "none/x.bin", "none/x.mtx", ".bin", ".mtx", ""}; name = n[mc::choose(7)]; mc::shard(); args.push_back(name.empty() ? "" : jail + "/" + name); note = "missing file '" + name + "'"; } break;
    case 3: { bool b = mc::flip(); mc::shard(); std::string p = path(b ? "dir.bin" : "dir.mtx"); mkdir(p.c_str(), 0777); args.push_back(p); note = "a directory"; } break;
    case 4: {                                                     // truncated binary files, at every byte; and such with more than they declare missing
      size_t cut = (size_t)mc::choose((int)bin.size()); mc::shard();
      args.push_back(put("matrix.bin", bin.substr(0, cut))); note = std::to_string(cut) + " of " + std::to_string(bin.size()) + " bytes";
    } break;
    case 5: {                                                     // binary files with entries outside of the matrix or a wrong number
      int at = mc::choose(9); static const U bad[] = {3, 4, 255, (U)0x7fffffffu, (U)0xffffffffu}; U v = mc::pick(bad);
      static const int pos[] = {8, 12, 16, 20, 24, 28, 32, 0, 4};
      std::string s = bin; if (at >= 7) v = v == 3 ? 0 : v == 4 ? 1 : v == 255 ? 2 : 2;       // dimensions too small for the entries
      if (at == 0 && v == 3) mc::prune();
      if (at == 0 && (uint64_t)v > 0x7ffffff0u) { if (lite()) mc::prune(); may_assert = true; }    // running out of memory is a refusal
      if (at == 8 && v == 2) mc::prune();                         // the entries use two columns only
      memcpy(&s[(size_t)pos[at] / 4 * sizeof v], &v, sizeof v); mc::shard();
      args.push_back(put("matrix.bin", s)); note = "the value " + std::to_string(v) + " at byte " + std::to_string(pos[at] / 4 * sizeof v);
    } break;
    case 6: {                                                     // MatrixMarket files cut at every byte
      size_t cut = (size_t)mc::choose((int)mtx.size()); mmref::limit = 1e30;
      mmref::File f = mmref::parse(mtx.substr(0, cut)); if (f.cls != mmref::INVALID) mc::prune();
      mc::shard();
      args.push_back(put("matrix.mtx", mtx.substr(0, cut))); note = "a MatrixMarket file of " + std::to_string(cut) + " bytes";
    } break;
    case 7: {                                                     // one character of the MatrixMarket file changed, where that makes it invalid
      if (!mc::thorough && d != CSR && d != CGBR2) mc::prune();
      size_t at = (size_t)mc::choose((int)mtx.size()); static const char ch[] = {'0', '9', '-', '.', 'x', ' ', '\n', '%', '\0'}; char c = mc::pick(ch); if (mtx[at] == c) mc::prune();
      std::string s = mtx; s[at] = c; mmref::limit = 1e30; mmref::File f = mmref::parse(s); if (f.cls != mmref::INVALID) mc::prune();
      mc::shard();
      args.push_back(put("matrix.mtx", s)); note = "byte " + std::to_string(at) + " of a MatrixMarket file changed to character " + std::to_string((int)(unsigned char)c);
    } break;
    case 8: {                                                     // the other files and arguments
      std::string a = rsb, b = csb, p = pb; const char *missing = nullptr; bool dir = false;
      if (D[d].blocked) {
        if (extra != 2) mc::prune();
        std::string &x = mc::flip() ? a : b; std::string orig = x;
        switch (mc::choose(6)) {
          case 0: missing = &x == &a ? "rows" : "columns"; dir = mc::flip(); note = std::string("without ") + missing; break;
          case 1: { size_t cut = (size_t)mc::choose(2 * sizeof(U)); x = x.substr(0, cut); may_assert = cut % sizeof(U) == 0; note = std::to_string(cut) + " bytes of block sizes"; } break;
          case 2: { static const U v[] = {0, 3, 4, (U)0xffffffffu, (U)0x80000000u}; U u = mc::pick(v); int at = mc::choose(2); memcpy(&x[sizeof u * (size_t)at], &u, sizeof u); may_assert = true;
            U s0 = get_bytes<U>(x, 0), s1 = get_bytes<U>(x, sizeof(U)); if ((uint64_t)s0 + s1 == 3) mc::prune(); note = "block sizes " + std::to_string(s0) + " " + std::to_string(s1); } break;
          case 3: { std::string more; U u = (U)mc::choose(3) + 1; put_bytes(more, u); x += more; may_assert = true; note = "a block size too many"; } break;
          case 5: {                                               // sizes whose sum wraps around to the dimension of the matrix
            if (sizeof(U) > 4) mc::prune();
            static const uint32_t w[][2] = {{0x80000000u, 0x80000003u}, {0xffffffffu, 4}, {4, 0xffffffffu}, {0x7fffffffu, 0x80000004u}}; auto &q = w[mc::choose(4)]; memcpy(&x[0], q, 8); may_assert = true;
            note = "block sizes " + std::to_string(q[0]) + " " + std::to_string(q[1]); } break;
          case 4: { x += std::string((size_t)mc::range(1, 3), 'x'); note = "block sizes and a part of another"; } break;
        }
      } else if (d == PBENCH) {
        switch (mc::choose(4)) {
          case 0: missing = "perm"; dir = mc::flip(); note = "without its permutation"; break;
          case 1: { size_t cut = (size_t)mc::choose(3 * sizeof(U)); p = p.substr(0, cut); note = std::to_string(cut) + " bytes of permutation"; } break;
          case 2: { int at = mc::choose(3); static const U v[] = {0, 1, 2, 3, 4, 255, (U)0x7fffffffu, (U)0xffffffffu}; U u = mc::pick(v); if (perm[(size_t)at] == u) mc::prune(); memcpy(&p[sizeof u * (size_t)at], &u, sizeof u); note = "number " + std::to_string(at) + " of the permutation is " + std::to_string(u); } break;
          case 3: { p += std::string((size_t)mc::range(1, 3), '\0'); note = "a permutation and a part of a number"; } break;
        }
      } else if (d == CSWR) {
        static const char *w[] = {"0", "-1", "x", "", "-2147483648", " ", "-x", "+0"}; std::string wv = w[mc::choose(8)]; mc::shard();
        args.push_back(put(name, bin)); args.push_back(wv); note = "width '" + wv + "'"; break;
      } else mc::prune();
      mc::shard();
      args.push_back(put(name, bin));
      auto give_file = [&](const char *n, std::string const &s) { if (missing && !strcmp(n, missing)) { args.push_back(path(n)); if (dir) mkdir(args.back().c_str(), 0777); } else args.push_back(put(n, s)); };
      if (D[d].blocked) { give_file("rows", a); give_file("columns", b); } else give_file("perm", p);
    } break;
  }
  if (kind >= 1 && kind <= 7) {
    if (extra == 2) { args.push_back(put("rows", rsb)); args.push_back(put("columns", csb)); }
    if (extra == 1) args.push_back(put("perm", pb));
  }
  std::string full = std::string(what) + " with " + note;
  mc::state(mc::mix(mc::mix(99, d * 2 + (extra == 2)), mc::hash_bytes(full.data(), full.size())));
  std::vector<std::pair<std::string, std::string>> in; for (auto &a : args) { struct stat st; if (a.compare(0, jail.size(), jail) == 0 && stat(a.c_str(), &st) == 0 && S_ISREG(st.st_mode)) { bool dup = false; for (auto &x : in) dup |= x.first == a; if (!dup) in.push_back({a, slurp_file(a)}); } }
  assertion_allowed = may_assert;
  Run r = run(what, D[d].t, args, 1 + d % 3);
  assertion_allowed = false;
  if (r.signalled && !may_assert) return;          // reported by run()
  if (r.status == 0) { mc::report("accepted", "%s: exit status 0 for input it cannot use", full.c_str()); return; }
  if (lone(r.err)) { mc::report("silent", "%s: refused with status %d but without a message on the error stream", full.c_str(), r.status); return; }
  for (auto &f : in) if (slurp_file(f.first) != f.second) { mc::report("input", "%s: its input %s was changed", full.c_str(), f.first.c_str() + jail.size() + 1); return; }
  mc::validated();
}
// ---- the suffix test, for every short string
static void do_suffix() {
  static const char al[] = "ab.";
  std::string suf; int k = mc::choose(4); for (int i = 0; i < k; i++) suf += al[mc::choose(3)];
  int n = mc::choose(mc::thorough ? 9 : 7);
  mc::shard();
  std::string s; uint64_t all = 1; for (int i = 0; i < n; i++) all *= 3;
  for (uint64_t v = 0; v < all; v++) {
    s.clear(); uint64_t u = v; for (int i = 0; i < n; i++) { s += al[u % 3]; u /= 3; }
    bool want = s.size() >= suf.size() && s.compare(s.size() - suf.size(), suf.size(), suf) == 0;
    std::vector<char> cs(s.c_str(), s.c_str() + s.size() + 1), cf(suf.c_str(), suf.c_str() + suf.size() + 1);
    if ((string_ends_with(cs.data(), cf.data()) != 0) != want) { mc::report("suffix", "string_ends_with(\"%s\", \"%s\") is wrong", s.c_str(), suf.c_str()); return; }
    mc::step(); mc::state(mc::mix(mc::hash_bytes(s.data(), s.size()), mc::hash_bytes(suf.data(), suf.size()))); mc::validated();
  }
}
void mc_body() {
  mcomp::reset();
  Clean clean;
  switch (mc::choose(lite() ? 2 : 3)) {
    case 0: do_valid(); break;
    case 1: do_refuse(); break;
    case 2: do_suffix(); break;
  }
}
}
