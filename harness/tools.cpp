// C17: the command-line tools, run as processes of their own on every small input.
#include <array>
#include <cerrno>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "gen.h"
#include "file.h"
#include "mmref.h"


extern "C" int t_double2float(int, char **);
extern "C" int t_one2zero(int, char **);
extern "C" int t_pprint(int, char **);
int t_convert(int, char **), t_convert_blocked(int, char **), t_expanded(int, char **), t_permute(int, char **), t_ipermute(int, char **), t_prepare(int, char **), t_sort(int, char **);

#include "proc.h"
namespace vp {
const char *mc_name = HNAME;
double mc_exec_limit = 20;
void mc_setup() { jail_setup(); }

static std::vector<std::string> names;                       // every file the execution made
static std::string path(std::string const &n) { names.push_back(jail + "/" + n); return names.back(); }
static void out_name(std::string const &p) { names.push_back(p); }
struct Clean { ~Clean() { for (auto &n : names) unlink(n.c_str()); names.clear(); unlink((jail + "/stdout").c_str()); unlink((jail + "/stderr").c_str());
  unlink((jail + "/tmp/csbr_prepare/rows").c_str()); unlink((jail + "/tmp/csbr_prepare/cols").c_str()); rmdir((jail + "/tmp/csbr_prepare").c_str()); } };

typedef uint32_t U;
struct P { U r, c; float v; };
static std::vector<P> pts;
struct In { std::string rows, cols, vals; };
template <class V> static std::string bytes(std::vector<V> const &v) { return std::string((const char *)v.data(), v.size() * sizeof(V)); }
static In put_matrix(std::vector<P> const &m, std::string const &base = "") {
  std::string r, c, v; for (auto &p : m) { put_bytes(r, p.r); put_bytes(c, p.c); put_bytes(v, p.v); }
  In in{path(base + "r"), path(base + "c"), path(base + "v")};
  put_file(in.rows, r); put_file(in.cols, c); put_file(in.vals, v);
  return in;
}
static std::string put_array(std::string const &n, std::vector<U> const &a) { std::string p = path(n); put_file(p, bytes(a)); return p; }
struct Intact { std::map<std::string, std::string> was; void add(std::string const &p) { was[p] = slurp_file(p); }
  void add(In const &i) { add(i.rows); add(i.cols); add(i.vals); }
  void check(const char *what) { for (auto &w : was) if (slurp_file(w.first) != w.second) mc::report("input", "%s: its input %s was changed", what, w.first.c_str() + jail.size() + 1); } };
static std::string show(std::vector<U> const &v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? "," : "") + std::to_string(v[i]); return s + (v.size() > 12 ? ",..." : ""); }

// key of an entry in the asked order, then its value's bits; entries with the same coordinates may come in any order
typedef std::array<uint64_t, 5> Rec;
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static bool same(const char *what, const char *file, std::vector<Rec> got, std::vector<Rec> want, size_t keys, const char *order) {
  for (size_t i = 0; i + 1 < got.size(); i++) if (std::lexicographical_compare(got[i + 1].begin(), got[i + 1].begin() + keys, got[i].begin(), got[i].begin() + keys)) {
    mc::report("order", "%s: %s is not sorted by %s: entry %zu is followed by a smaller one", what, file, order, i); return false; }
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got.size() != want.size()) { mc::report("entries", "%s: %s holds %zu entries, expected %zu", what, file, got.size(), want.size()); return false; }
  for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) {
    mc::report("entries", "%s: %s holds an entry (%lu,%lu) with bits %lx and key %lu,%lu instead of (%lu,%lu) with bits %lx and key %lu,%lu", what, file, got[i][2], got[i][3], got[i][4], got[i][0], got[i][1], want[i][2], want[i][3], want[i][4], want[i][0], want[i][1]);
    return false; }
  return true;
}
static bool missing_file(const char *what, std::string const &p) {
  if (access(p.c_str(), F_OK) == 0) return false;
  mc::report("missing", "%s: did not write %s", what, p.size() > jail.size() ? p.c_str() + jail.size() + 1 : p.c_str()); return true;
}
// the .bin format: rows, columns, number, row indices, column indices, values
static void check_bin(const char *what, std::string const &p, std::vector<P> const &m, uint64_t rows, uint64_t cols, bool by_row, bool dims_free = false) {
  if (missing_file(what, p)) return;
  std::string s = slurp_file(p); size_t n = m.size();
  const char *file = p.c_str() + jail.size() + 1;
  if (s.size() != 12 + n * 12) { mc::report("size", "%s: %s has %zu bytes, expected %zu", what, file, s.size(), 12 + n * 12); return; }
  U r = get_bytes<U>(s, 0), c = get_bytes<U>(s, 4), k = get_bytes<U>(s, 8);
  if ((!dims_free && (r != rows || c != cols)) || k != n) { mc::report("header", "%s: %s is %u x %u with %u entries, expected %lu x %lu with %zu", what, file, r, c, k, rows, cols, n); return; }
  std::vector<Rec> got, want;
  auto key = [&](uint64_t r, uint64_t c, uint64_t v) { return by_row ? Rec{r, c, r, c, v} : Rec{c, r, r, c, v}; };
  for (size_t i = 0; i < n; i++) { got.push_back(key(get_bytes<U>(s, 12 + 4 * i), get_bytes<U>(s, 12 + 4 * (n + i)), get_bytes<U>(s, 12 + 4 * (2 * n + i)))); want.push_back(key(m[i].r, m[i].c, bits(m[i].v))); }
  same(what, file, got, want, 2, by_row ? "row, column" : "column, row");
}
static size_t block_at(std::vector<U> const &off, U i) { for (size_t b = 0; b + 1 < off.size(); b++) if (off[b] <= i && i < off[b + 1]) return b; return (size_t)-1; }
static std::vector<U> offsets(std::vector<U> const &size) { std::vector<U> o{0}; for (U s : size) o.push_back(o.back() + s); return o; }
// the blocked format: rows, columns, number, block-rows, block-columns, non-empty blocks, then block, row, column, value of each entry
static void check_blocked(const char *what, std::string const &p, std::vector<P> const &m, std::vector<U> const &sizes) {
  if (missing_file(what, p)) return;
  std::string s = slurp_file(p); size_t n = m.size();
  const char *file = p.c_str() + jail.size() + 1;
  std::vector<U> off = offsets(sizes);
  if (s.size() != 24 + n * 16) { mc::report("size", "%s: %s has %zu bytes, expected %zu", what, file, s.size(), 24 + n * 16); return; }
  std::vector<Rec> got, want; std::set<uint64_t> blocks;
  for (auto &e : m) { uint64_t b = block_at(off, e.r) * sizes.size() + block_at(off, e.c); blocks.insert(b); want.push_back({b, e.r, e.r, e.c, bits(e.v)}); }
  uint64_t head[6] = {off.back(), off.back(), n, sizes.size(), sizes.size(), blocks.size()};
  for (int i = 0; i < 6; i++) if (get_bytes<U>(s, 4 * i) != head[i]) { mc::report("header", "%s: number %d of the header of %s is %u, expected %lu", what, i, file, get_bytes<U>(s, 4 * i), head[i]); return; }
  for (size_t i = 0; i < n; i++) { size_t a = 24 + 16 * i; uint64_t b = get_bytes<U>(s, a), r = get_bytes<U>(s, a + 4), c = get_bytes<U>(s, a + 8), v = get_bytes<U>(s, a + 12); got.push_back({b, r, r, c, v}); }
  same(what, file, got, want, 2, "block, row");
}
static U expanded_size(std::vector<U> const &sizes) { U mx = *std::max_element(sizes.begin(), sizes.end()), p = 1; while (p < mx) p *= 2; return p; }
static std::vector<P> expand(std::vector<P> m, std::vector<U> const &sizes) {
  std::vector<U> off = offsets(sizes); U n = expanded_size(sizes);
  for (auto &p : m) { size_t a = block_at(off, p.r), b = block_at(off, p.c); p.r = p.r - off[a] + (U)a * n; p.c = p.c - off[b] + (U)b * n; }
  return m;
}
static bool ok(const char *what, Run const &r) {
  if (r.signalled) return false;
  if (r.status != 0) { mc::report("status", "%s: exit status %d for valid input: %.300s", what, r.status, r.err.c_str()); return false; }
  return true;
}
static void refused(const char *what, Run const &r) { if (!r.signalled && r.status == 0) mc::report("accepted", "%s: exit status 0 for input it cannot use", what); }

static float fval(size_t k) { static const uint32_t v[] = {0x3f800000, 0xc0490fdb, 0x00000001, 0x7f7fffff, 0x80000000, 0x3dcccccd, 0x4b7fffff, 0x80800000}; uint32_t u = k < 8 ? v[k] : bits((float)(k % 1000) * 0.37f - 100.0f); float f; memcpy(&f, &u, 4); return f; }
static std::vector<P> from(Mat const &m, bool equal_dims = true) { std::vector<P> p; size_t k = 0; (void)equal_dims; for (auto &e : m.e) p.push_back({(U)e.r, (U)e.c, fval(k++)}); return p; }
static U limit_of(std::vector<P> const &m, bool row) { U x = 0; for (auto &p : m) x = std::max(x, row ? p.r : p.c); return x + 1; }
static uint64_t hash(std::vector<P> const &m) { uint64_t h = 5; for (auto &p : m) h = mc::mix(mc::mix(mc::mix(h, p.r), p.c), bits(p.v)); return h; }

// a matrix: every ordered list of entries up to a number, or a structured one
static std::vector<P> pick_matrix(U &n, bool &big, int threads_[1]) {
  Mat m;
  int sel = mc::choose(2);
  big = sel == 1;
  threads_[0] = 1;
  if (sel == 0) {
    n = lite() ? 3 : (U)mc::range(1, 3);
    m = gen_tiny_dims(n, n, lite() ? 1 : mc::thorough ? 3 : 2);
  } else {
    static const U q[] = {16, 65, 300, 2000, 65541};      // the last: counters beyond 16 bits
    n = lite() ? 65 : mc::pick(q);
    int pat = mc::choose(P_NUM), ord = mc::choose(O_NUM);
    if (n > 300 && pat == P_FULL) mc::prune();
    if (n > 2000 && pat != P_DIAG && pat != P_LCG && pat != P_ROW0 && pat != P_COLL) mc::prune();
    if ((lite() || n > 2000) && ord != pat % O_NUM) mc::prune();
    mc::shard();
    threads_[0] = 1 + (pat + ord) % 3;
    m = gen_struct(n, n, pat, ord, 40 + (int)n);
    return from(m);
  }
  mc::shard();
  return from(m);
}
static std::vector<U> pick_sizes(U n, bool big) {      // block sizes that add up to at least n
  std::vector<U> s;
  if (big) {
    switch (mc::choose(6)) {
      case 0: s = {n}; break;
      case 1: if (n > 2000) mc::prune(); s.assign(n, 1); break;
      case 2: for (U d = 0; d < n; d += 7) s.push_back(std::min<U>(7, n - d)); break;
      case 3: for (U d = 0; d < n; d += 16) { s.push_back(16); s.push_back(0); } break;
      case 4: s = {0, n / 3, n / 3, n - 2 * (n / 3) + 5, 0}; break;
      case 5: { U d = 0, k = 1; while (d < n) { s.push_back(k); d += k; k = k * 3 % 37 + 1; } } break;
    }
    return s;
  }
  int k = lite() ? 2 : mc::range(1, mc::thorough ? 4 : 3); U sum = 0;
  for (int i = 0; i < k; i++) { s.push_back((U)mc::choose(mc::thorough ? 5 : 4)); sum += s.back(); }
  if (sum < n) mc::prune();
  return s;
}
static std::vector<U> pick_perm(U n, bool big) {
  std::vector<U> p(n); for (U i = 0; i < n; i++) p[i] = i;
  if (big) {
    switch (mc::choose(4)) {
      case 0: break;
      case 1: std::reverse(p.begin(), p.end()); break;
      case 2: std::rotate(p.begin(), p.begin() + 1, p.end()); break;
      case 3: { Lcg g(n); for (U i = n - 1; i > 0; i--) std::swap(p[i], p[g.next() % (i + 1)]); } break;
    }
    return p;
  }
  for (U i = 0; i + 1 < n; i++) std::swap(p[i], p[i + (U)mc::choose((int)(n - i))]);
  return p;
}
static std::vector<P> permuted(std::vector<P> m, std::vector<U> const &p) { for (auto &e : m) { e.r = p[e.r]; e.c = p[e.c]; } return m; }

static void do_convert() {
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  In in = put_matrix(m); Intact keep; keep.add(in);
  mc::state(mc::mix(1, hash(m)));
  static const char *opt[] = {"bin", "mtx", "all"};
  for (int o = 0; o < 3; o++) {
    std::string out = path("out"); out_name(out + ".bin"); out_name(out + ".mtx");
    Run r = run("convert", t_convert, {in.rows, in.cols, in.vals, out, opt[o]}, th);
    if (!ok("convert", r)) return;
    if (o != 1) check_bin("convert", out + ".bin", m, limit_of(m, true), limit_of(m, false), false, m.empty());
    if (o != 0 && !missing_file("convert", out + ".mtx")) {
      mmref::File f = mmref::parse(slurp_file(out + ".mtx"));
      if (f.cls == mmref::INVALID) { mc::report("format", "convert: the MatrixMarket file is not valid: %s", f.why); return; }
      std::vector<Rec> got, want;
      for (auto &p : f.e) { got.push_back({(uint64_t)p.c, (uint64_t)p.r, (uint64_t)p.r, (uint64_t)p.c, bits((float)p.v)}); }
      for (auto &p : m) want.push_back({p.c, p.r, p.r, p.c, bits(p.v)});
      if (f.cls == mmref::VALID || !got.empty()) {
        if (!m.empty() && ((uint64_t)f.rows != limit_of(m, true) || (uint64_t)f.cols != limit_of(m, false))) mc::report("header", "convert: the MatrixMarket file is %ld x %ld, expected %u x %u", (long)f.rows, (long)f.cols, limit_of(m, true), limit_of(m, false));
        same("convert", "out.mtx", got, want, 2, "column, row");
      }
    }
    if (o == 0 && access((out + ".mtx").c_str(), F_OK) == 0) mc::report("extra", "convert: bin also wrote a MatrixMarket file");
    if (o == 1 && access((out + ".bin").c_str(), F_OK) == 0) mc::report("extra", "convert: mtx also wrote a binary file");
    keep.check("convert");
    unlink((out + ".bin").c_str()); unlink((out + ".mtx").c_str());
    if (mc::failed()) return;
  }
  mc::validated();
}
static void do_blocks() {          // convert_blocked, expanded
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  auto sizes = pick_sizes(n, big);
  if (*std::max_element(sizes.begin(), sizes.end()) == 0) mc::prune();
  In in = put_matrix(m); std::string bs = put_array("bs", sizes);
  Intact keep; keep.add(in); keep.add(bs);
  mc::state(mc::mix(mc::mix(2, hash(m)), mc::hash_bytes(sizes.data(), sizes.size() * 4)));
  MC_LOG("block sizes %s", show(sizes).c_str());
  std::string out = path("out");
  if (!ok("convert_blocked", run("convert_blocked", t_convert_blocked, {in.rows, in.cols, in.vals, bs, out}, th))) return;
  check_blocked("convert_blocked", out, m, sizes);
  std::string ex = out + ".exp" + std::to_string(expanded_size(sizes)); out_name(ex);
  if (!ok("expanded", run("expanded", t_expanded, {in.rows, in.cols, in.vals, bs, out}, th))) return;
  check_bin("expanded", ex, expand(m, sizes), (uint64_t)expanded_size(sizes) * sizes.size(), (uint64_t)expanded_size(sizes) * sizes.size(), false);
  keep.check("convert_blocked and expanded");
  if (!mc::failed()) mc::validated();
}
static void do_permute() {         // permute, ipermute and both one after the other
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  auto perm = pick_perm(n, big);
  In in = put_matrix(m); std::string pf = put_array("perm", perm);
  Intact keep; keep.add(in); keep.add(pf);
  mc::state(mc::mix(mc::mix(3, hash(m)), mc::hash_bytes(perm.data(), perm.size() * 4)));
  MC_LOG("permutation %s", show(perm).c_str());
  std::vector<U> inv(n); for (U i = 0; i < n; i++) inv[perm[i]] = i;
  auto cmp = [&](const char *what, std::string const &p, bool row, std::vector<P> const &want) {
    std::vector<U> w; for (auto &e : want) w.push_back(row ? e.r : e.c);
    if (missing_file(what, p)) return;
    if (slurp_file(p) != bytes(w)) mc::report("permuted", "%s: wrong %s indices", what, row ? "row" : "column");
  };
  struct { const char *n; Tool t; std::vector<U> *p; Tool back; const char *bn; } q[2] = {{"permute", t_permute, &perm, t_ipermute, "ipermute"}, {"ipermute", t_ipermute, &inv, t_permute, "permute"}};
  for (auto &t : q) {
    std::string pr = in.rows + ".permuted", pc = in.cols + ".permuted"; out_name(pr); out_name(pc); out_name(pr + ".permuted"); out_name(pc + ".permuted");
    if (!ok(t.n, run(t.n, t.t, {in.rows, in.cols, pf}, th))) return;
    cmp(t.n, pr, true, permuted(m, *t.p)); cmp(t.n, pc, false, permuted(m, *t.p));
    if (!ok(t.bn, run(t.bn, t.back, {pr, pc, pf}, th))) return;
    cmp(t.bn, pr + ".permuted", true, m); cmp(t.bn, pc + ".permuted", false, m);
    keep.check(t.n);
    for (auto &x : {pr, pc, pr + ".permuted", pc + ".permuted"}) unlink(x.c_str());
    if (mc::failed()) return;
  }
  mc::validated();
}
static void do_prepare() {
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  auto perm = pick_perm(n, big);
  auto sizes = pick_sizes(n, big);
  if (*std::max_element(sizes.begin(), sizes.end()) == 0) mc::prune();
  In in = put_matrix(m); std::string pf = put_array("perm", perm), bs = put_array("bs", sizes);
  Intact keep; keep.add(in); keep.add(pf); keep.add(bs);
  MC_LOG("permutation %s, block sizes %s", show(perm).c_str(), show(sizes).c_str());
  mc::state(mc::mix(mc::mix(4, hash(m)), mc::mix(mc::hash_bytes(perm.data(), perm.size() * 4), mc::hash_bytes(sizes.data(), sizes.size() * 4))));
  std::string out = path("out"); U e = expanded_size(sizes), sum = offsets(sizes).back();
  std::string row = out + ".row", col = out + ".col", blk = out + ".block", ex = out + ".col.exp" + std::to_string(e);
  for (auto &x : {row, col, blk, ex}) out_name(x);
  if (!ok("prepare", run("prepare", t_prepare, {in.rows, in.cols, in.vals, pf, bs, out}, th))) return;
  auto pm = permuted(m, perm);
  check_bin("prepare", row, pm, sum, sum, true);
  check_bin("prepare", col, pm, sum, sum, false);
  check_blocked("prepare", blk, pm, sizes);
  check_bin("prepare", ex, expand(pm, sizes), (uint64_t)e * sizes.size(), (uint64_t)e * sizes.size(), false);
  keep.check("prepare");
  if (access((jail + "/tmp/csbr_prepare").c_str(), F_OK) == 0) mc::report("left", "prepare: its temporary directory was left behind");
  if (!mc::failed()) mc::validated();
}
static void do_sort() {
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  bool blocked = mc::flip(), mtx = mc::flip();
  std::vector<U> sizes; if (blocked) sizes = pick_sizes(n, big);
  std::string bs; Intact keep;
  if (blocked) { bs = put_array("bs", sizes); keep.add(bs); MC_LOG("block sizes %s", show(sizes).c_str()); }
  mc::state(mc::mix(mc::mix(5 + blocked + 2 * mtx, hash(m)), mc::hash_bytes(sizes.data(), sizes.size() * 4)));
  std::vector<U> off = offsets(sizes);
  auto bid = [&](uint64_t r, uint64_t c) { return blocked ? block_at(off, (U)r) * sizes.size() + block_at(off, (U)c) : 0; };
  auto dbl = [](double d) { uint64_t u; memcpy(&u, &d, 8); return u; };
  auto key = [&](uint64_t r, uint64_t c, double v) { return blocked ? Rec{bid(r, c), r, r, c, dbl(v)} : Rec{r, c, r, c, dbl(v)}; };
  std::vector<Rec> want, got; size_t k = 0; std::vector<double> vals;
  for (auto &p : m) { double v = (double)p.v * (1.0 + 1e-12 * (double)k++); vals.push_back(v); want.push_back(key(p.r, p.c, v)); }
  if (mtx) {
    std::string in = path("in.mtx"), text = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(n) + " " + std::to_string(n) + " " + std::to_string(m.size()) + "\n";
    char b[100]; for (size_t i = 0; i < m.size(); i++) { snprintf(b, sizeof b, "%u %u %.17g\n", m[i].r + 1, m[i].c + 1, vals[i]); text += b; }
    put_file(in, text); keep.add(in); out_name(in + ".sorted");
    Run r = blocked ? run("sort", t_sort, {in, bs}, th) : run("sort", t_sort, {in}, th);
    if (!ok("sort", r) || missing_file("sort", in + ".sorted")) return;
    mmref::limit = 1e300;
    mmref::File f = mmref::parse(slurp_file(in + ".sorted"));
    if (f.cls == mmref::INVALID) { mc::report("format", "sort: the MatrixMarket file is not valid: %s", f.why); return; }
    if (f.cls == mmref::VALID && ((U)f.rows != n || (U)f.cols != n)) mc::report("header", "sort: the MatrixMarket file is %ld x %ld, expected %u x %u", (long)f.rows, (long)f.cols, n, n);
    for (auto &p : f.e) got.push_back(key((uint64_t)p.r, (uint64_t)p.c, p.v));
  } else {
    In in = put_matrix(m); put_file(in.vals, bytes(vals)); keep.add(in);
    for (auto &x : {in.rows, in.cols, in.vals}) out_name(x + ".sorted");
    Run r = blocked ? run("sort", t_sort, {in.rows, in.cols, in.vals, bs}, th) : run("sort", t_sort, {in.rows, in.cols, in.vals}, th);
    if (!ok("sort", r) || missing_file("sort", in.rows + ".sorted") || missing_file("sort", in.cols + ".sorted") || missing_file("sort", in.vals + ".sorted")) return;
    std::string a = slurp_file(in.rows + ".sorted"), b = slurp_file(in.cols + ".sorted"), v = slurp_file(in.vals + ".sorted");
    if (a.size() != 4 * m.size() || b.size() != 4 * m.size() || v.size() != 8 * m.size()) { mc::report("size", "sort: %zu, %zu and %zu bytes were written for %zu entries", a.size(), b.size(), v.size(), m.size()); return; }
    for (size_t i = 0; i < m.size(); i++) got.push_back(key(get_bytes<U>(a, 4 * i), get_bytes<U>(b, 4 * i), get_bytes<double>(v, 8 * i)));
  }
  same("sort", "its output", got, want, 2, blocked ? "block, row" : "row, column");
  keep.check("sort");
  if (!mc::failed()) mc::validated();
}
// vectors: double2float, one2zero, pprint vector; several files at once
static void do_vectors() {
  int tool = mc::choose(3), files = mc::range(1, tool == 2 ? 1 : 3);
  std::vector<std::vector<uint32_t>> idx; std::vector<std::vector<double>> dbl;
  static const double dv[] = {0.0, -0.0, 1.5, -3.25, 0.1, 1e-40, 1e-46, 3.4e38, 16777217.0, 1.0 / 3};
  static const uint32_t iv[] = {1, 2, 7, 0xffffffffu, 0x80000000u};
  for (int f = 0; f < files; f++) {
    static const int lens[] = {0, 1, 2, 3, 64, 1024, 5000, 70001};
    int len = mc::choose(files == 1 ? 8 : 4); len = lens[len];
    std::vector<double> d; std::vector<uint32_t> i;
    for (int k = 0; k < len; k++) {
      int c = len <= 2 && files == 1 ? mc::choose(tool == 0 ? 10 : 5) : (k * 7 + f) % (tool == 0 ? 10 : 5);
      if (tool == 0) d.push_back(dv[c] * (len > 2 && k >= 10 ? k : 1)); else i.push_back(len > 2 && k >= 10 ? (uint32_t)k * 2654435761u | 1 : iv[c]);
    }
    idx.push_back(i); dbl.push_back(d);
  }
  mc::shard();
  std::vector<std::string> in; Intact keep; uint64_t h = tool;
  for (int f = 0; f < files; f++) { in.push_back(path("vec" + std::to_string(f))); std::string b = tool == 0 ? bytes(dbl[f]) : bytes(idx[f]); h = mc::mix(h, mc::hash_bytes(b.data(), b.size())); put_file(in[f], b); keep.add(in[f]); out_name(in[f] + ".float"); out_name(in[f] + ".zero"); }
  mc::state(mc::mix(9, h));
  if (tool == 2) {
    Run r = run("pprint", t_pprint, {in[0], "vector"}); if (!ok("pprint", r)) return;
    std::vector<uint32_t> got; const char *p = r.out.c_str(); for (;;) { char *e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; got.push_back((uint32_t)v); p = e; }
    while (*p == ' ' || *p == '\n') p++;
    if (*p || got != idx[0]) mc::report("print", "pprint: the printed vector differs from the file (%zu of %zu numbers)", got.size(), idx[0].size());
  } else {
    const char *what = tool == 0 ? "double2float" : "one2zero";
    if (!ok(what, run(what, tool == 0 ? t_double2float : t_one2zero, in))) return;
    for (int f = 0; f < files; f++) {
      std::string want; if (tool == 0) for (double d : dbl[f]) put_bytes(want, (float)d); else for (uint32_t u : idx[f]) put_bytes(want, u - 1);
      std::string o = in[f] + (tool == 0 ? ".float" : ".zero");
      if (missing_file(what, o)) return;
      if (slurp_file(o) != want) { mc::report("vector", "%s: file %d of %d was converted wrongly", what, f + 1, files); return; }
    }
  }
  keep.check("vector tools");
  if (!mc::failed()) mc::validated();
}
static std::vector<std::string> tokens(std::string const &s) { std::vector<std::string> w; std::string c; for (char ch : s + "\n") { if (isspace((unsigned char)ch)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; } return w; }
static bool near(std::string const &t, float v, double abs_) { char *e; double d = strtod(t.c_str(), &e); if (*e || e == t.c_str()) return false; if (std::isnan(v)) return std::isnan(d); return d == (double)v || std::fabs(d - (double)v) <= abs_ + 1e-6 * std::fabs((double)v); }
static void do_pprint() {
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  if (big && m.size() > 3000) mc::prune();
  int mode = mc::choose(3);      // triples, blocks, default
  mc::state(mc::mix(mc::mix(11, mode), hash(m)));
  std::string f = path("file"), s; size_t k = m.size();
  if (mode == 0) { put_bytes(s, n); put_bytes(s, n); put_bytes(s, (U)k); for (auto &p : m) put_bytes(s, p.r); for (auto &p : m) put_bytes(s, p.c); for (auto &p : m) put_bytes(s, p.v); }
  else { for (U x : {n, n, (U)k, 1u, 1u, 1u}) put_bytes(s, x); for (auto &p : m) { put_bytes(s, (U)(p.r * 3 + 1)); put_bytes(s, p.r); put_bytes(s, p.c); put_bytes(s, p.v); } }
  put_file(f, s); Intact keep; keep.add(f);
  Run r = mode == 0 ? run("pprint", t_pprint, {f, "triples"}) : mode == 1 ? run("pprint", t_pprint, {f, "blocks"}) : run("pprint", t_pprint, {f});
  if (!ok("pprint", r)) return;
  std::string body = r.out;
  if (mode == 2) { size_t a = body.find('\n'); body = a == std::string::npos ? "" : body.substr(a + 1); }     // the remark on the assumed format
  auto w = tokens(body); size_t at = 0;
  std::vector<std::string> num; for (auto &t : w) if (isdigit((unsigned char)t[0]) || (t[0] == '-' && t.size() > 1 && isdigit((unsigned char)t[1]))) num.push_back(t);
  auto bad = [&](const char *why) { mc::report("print", "pprint %s: %s", mode == 0 ? "triples" : "blocks", why); };
  if (mode == 0) {
    if (num.size() != 3 + 3 * k) { bad("another number of values is printed than the file holds"); return; }
    if (num[0] != std::to_string(n) || num[1] != std::to_string(n) || num[2] != std::to_string(k)) { bad("the dimensions are wrong"); return; }
    at = 3;
    for (auto &p : m) if (num[at++] != std::to_string(p.r)) { bad("a row index is wrong"); return; }
    for (auto &p : m) if (num[at++] != std::to_string(p.c)) { bad("a column index is wrong"); return; }
    for (auto &p : m) if (!near(num[at++], p.v, 1e-6)) { bad("a value is wrong"); return; }
  } else {
    if (num.size() != 4 * k) { bad("another number of values is printed than the file holds"); return; }
    for (auto &p : m) { if (num[at] != std::to_string(p.r * 3 + 1) || num[at + 1] != std::to_string(p.r) || num[at + 2] != std::to_string(p.c) || !near(num[at + 3], p.v, 1e-44)) { bad("an entry is wrong"); return; } at += 4; }
  }
  keep.check("pprint");
  mc::validated();
}
// path names of every length
static std::string long_name(std::string const &tag, size_t len) {       // an absolute path of exactly len characters, if it can be had
  std::string p = jail + "/";
  if (len < p.size() + 1) return "";
  while (len - p.size() > 250) { size_t part = std::min<size_t>(200, len - p.size() - 20); p += std::string(part, 'd') + "/"; __real_mkdir(p.substr(0, p.size() - 1).c_str(), 0777); }
  std::string last(len - p.size(), 'n'); for (size_t i = 0; i < tag.size() && i < last.size(); i++) last[i] = tag[i];
  return p + last;
}
static void do_names() {
  int tool = mc::choose(10);
  int fam = mc::choose(2);
  size_t len;
  if (fam == 0) len = jail.size() + 2 + (size_t)mc::choose(239);
  else { static const size_t q[] = {300, 500, 511, 512, 513, 1000, 1019, 1023, 1024, 1025, 2000, 2043, 2047, 2048, 2049, 3000, 4000, 4070}; len = mc::pick(q); if (len <= jail.size() + 240) mc::prune(); }
  if (lite() && fam == 0 && (len - jail.size()) % 16 != 2) mc::prune();
  mc::shard();
  mc::state(mc::mix(mc::mix(12, tool), len - jail.size()));
  MC_LOG("path names of %zu characters", len);
  std::vector<P> m = {{2, 0, 1.5f}, {0, 1, -2.0f}, {1, 1, 3.0f}};
  std::vector<U> perm = {2, 0, 1}, sizes = {1, 2};
  auto nm = [&](const char *t) { std::string p = long_name(t, len); out_name(p); return p; };
  std::string r = nm("a"), c = nm("b"), v = nm("c"), p = nm("d"), b = nm("e"), o = nm("f");
  if (r == c) mc::prune();
  std::string br, bc, bv, bd; for (auto &e : m) { put_bytes(br, e.r); put_bytes(bc, e.c); put_bytes(bv, e.v); put_bytes(bd, (double)e.v); }
  put_file(r, br); put_file(c, bc); put_file(v, tool == 6 ? bd : bv); put_file(p, bytes(perm)); put_file(b, bytes(sizes));
  auto out = [&](std::string const &x) { out_name(x); return x; };
  Run x;
  auto arr = [&](const char *what, std::string const &f, std::string const &want) { if (!missing_file(what, f) && slurp_file(f) != want) mc::report("names", "%s: wrong contents with path names of %zu characters", what, len); };
  std::string pr, pc; for (auto &e : m) { put_bytes(pr, perm[e.r]); put_bytes(pc, perm[e.c]); }
  // outputs carry a suffix: it must fit in the file name
  if (fam == 0 && len - jail.size() - 1 > 238) mc::prune();
  switch (tool) {
    case 0: out(o + ".bin"); out(o + ".mtx"); x = run("convert", t_convert, {r, c, v, o, "all"}); if (ok("convert", x)) check_bin("convert", o + ".bin", m, 3, 2, false), missing_file("convert", o + ".mtx"); break;
    case 1: x = run("convert_blocked", t_convert_blocked, {r, c, v, b, o}); if (ok("convert_blocked", x)) check_blocked("convert_blocked", o, m, sizes); break;
    case 2: out(o + ".exp2"); x = run("expanded", t_expanded, {r, c, v, b, o}); if (ok("expanded", x)) check_bin("expanded", o + ".exp2", expand(m, sizes), 4, 4, false); break;
    case 3: out(r + ".permuted"); out(c + ".permuted"); x = run("permute", t_permute, {r, c, p}); if (ok("permute", x)) arr("permute", r + ".permuted", pr), arr("permute", c + ".permuted", pc); break;
    case 4: { out(r + ".permuted"); out(c + ".permuted"); std::vector<U> inv = {1, 2, 0}; std::string ir, ic; for (auto &e : m) { put_bytes(ir, inv[e.r]); put_bytes(ic, inv[e.c]); }
      x = run("ipermute", t_ipermute, {r, c, p}); if (ok("ipermute", x)) arr("ipermute", r + ".permuted", ir), arr("ipermute", c + ".permuted", ic); } break;
    case 5: for (auto e : {".row", ".col", ".block", ".col.exp2"}) out(o + e); x = run("prepare", t_prepare, {r, c, v, p, b, o}); if (ok("prepare", x)) check_bin("prepare", o + ".row", permuted(m, perm), 3, 3, true), check_blocked("prepare", o + ".block", permuted(m, perm), sizes),
      check_bin("prepare", o + ".col", permuted(m, perm), 3, 3, false), check_bin("prepare", o + ".col.exp2", expand(permuted(m, perm), sizes), 4, 4, false); break;
    case 6: for (auto &e : {r, c, v}) out(e + ".sorted"); x = run("sort", t_sort, {r, c, v}); if (ok("sort", x)) { std::string a, q; for (U i : {0u, 1u, 2u}) put_bytes(a, i); arr("sort", r + ".sorted", a); for (U i : {1u, 1u, 0u}) put_bytes(q, i); arr("sort", c + ".sorted", q); missing_file("sort", v + ".sorted"); } break;
    case 7: { out(v + ".float"); std::string d; for (double y : {1.0, 2.5}) put_bytes(d, y); put_file(v, d); std::string w; for (float y : {1.0f, 2.5f}) put_bytes(w, y); x = run("double2float", t_double2float, {v}); if (ok("double2float", x)) arr("double2float", v + ".float", w); } break;
    case 8: { out(v + ".zero"); std::string d, w; for (U y : {1u, 9u}) put_bytes(d, y), put_bytes(w, y - 1); put_file(v, d); x = run("one2zero", t_one2zero, {v}); if (ok("one2zero", x)) arr("one2zero", v + ".zero", w); } break;
    case 9: x = run("pprint", t_pprint, {r, "vector"}); if (ok("pprint", x) && tokens(x.out) != std::vector<std::string>{"2", "0", "1"}) mc::report("names", "pprint: wrong output with path names of %zu characters", len); break;
  }
  if (!mc::failed()) mc::validated();
}
// inputs the tools cannot use
static void do_refuse() {
  static const struct { const char *n; Tool t; const char *args; } T[10] = {     // r c v: matrix, d: double values, p: permutation, b: block sizes, o: output, k: kind; x: vector, D: vector of doubles, B: blocked file
    {"convert", t_convert, "rcvok"}, {"convert_blocked", t_convert_blocked, "rcvbo"}, {"expanded", t_expanded, "rcvbo"}, {"permute", t_permute, "rcp"}, {"ipermute", t_ipermute, "rcp"},
    {"prepare", t_prepare, "rcvpbo"}, {"sort", t_sort, "rcdb"}, {"double2float", t_double2float, "D"}, {"one2zero", t_one2zero, "x"}, {"pprint", t_pprint, "B"}};
  int ti = mc::choose(10); auto &t = T[ti];
  std::vector<P> m = {{2, 0, 1.5f}, {0, 1, -2.0f}, {1, 1, 3.0f}};
  std::vector<U> perm = {2, 0, 1}, sizes = {1, 2};
  std::vector<std::string> args; size_t n = strlen(t.args); Intact keep; std::vector<std::string> body;
  for (size_t i = 0; i < n; i++) {
    std::string s; char k = t.args[i];
    for (auto &e : m) { if (k == 'r') put_bytes(s, e.r); if (k == 'c') put_bytes(s, e.c); if (k == 'v') put_bytes(s, e.v); if (k == 'd' || k == 'D') put_bytes(s, (double)e.v); if (k == 'x') put_bytes(s, e.r + 1); }
    if (k == 'p') s = bytes(perm); if (k == 'b') s = bytes(sizes);
    if (k == 'B') { for (U x : {3u, 3u, 3u, 1u, 1u, 1u}) put_bytes(s, x); for (auto &p : m) { put_bytes(s, (U)0); put_bytes(s, p.r); put_bytes(s, p.c); put_bytes(s, p.v); } }
    std::string p = k == 'k' ? "all" : path(std::string("f") + k);
    if (k != 'k' && k != 'o') put_file(p, s);
    args.push_back(p); body.push_back(s);
  }
  for (auto &a : std::vector<std::string>(args)) for (auto e : {".bin", ".mtx", ".exp2", ".permuted", ".sorted", ".float", ".zero", ".row", ".col", ".block", ".col.exp2"}) out_name(a + e);
  auto is_in = [&](size_t i) { return t.args[i] != 'o' && t.args[i] != 'k'; };
  int kind = mc::choose(9); std::string what = t.n;
  switch (kind) {
    case 0: {                                               // every number of arguments but the right ones
      int k = mc::choose(9);
      bool good = k == (int)n || (ti == 6 && (k == 1 || k == 2 || k == 3)) || (ti == 7 && k >= 1) || (ti == 8 && k >= 1) || (ti == 9 && k >= 1) || (ti == 2 && k > 5);
      if (good) mc::prune();
      while ((int)args.size() > k) args.pop_back(); while ((int)args.size() < k) args.push_back(args.empty() ? "x" : args[0]);
      what += " with " + std::to_string(k) + " arguments";
    } break;
    case 1: { size_t i = (size_t)mc::choose((int)n); if (!is_in(i)) mc::prune(); args[i] = jail + "/none/such"; if (mc::flip()) args[i] = jail + "/nosuch"; what += std::string(" without file ") + t.args[i]; } break;
    case 2: {                                               // truncated files: not whole elements, or shorter than their companions
      size_t i = (size_t)mc::choose((int)n); if (!is_in(i)) mc::prune();
      size_t cut = (size_t)mc::choose((int)body[i].size());
      size_t el = t.args[i] == 'd' || t.args[i] == 'D' ? 8 : 4; char k = t.args[i];
      bool whole = cut % el == 0;
      if (whole && (k == 'D' || k == 'x' || k == 'r' || k == 'c') && (k == 'D' || k == 'x' || ti == 3 || ti == 4)) mc::prune();    // a shorter vector is a vector
      put_file(args[i], body[i].substr(0, cut)); what += std::string(" with ") + std::to_string(cut) + " bytes of " + t.args[i];
    } break;
    case 3: { bool has = strchr(t.args, 'o'); if (!has) mc::prune(); size_t i = strchr(t.args, 'o') - t.args; args[i] = jail + "/none/out"; what += " with an output that cannot be written"; } break;
    case 4: {                                               // indices beyond the permutation or the blocks
      size_t i = (size_t)mc::choose((int)n); char k = t.args[i]; if (k != 'r' && k != 'c' && k != 'p') mc::prune();
      if (ti == 0) mc::prune();
      int at = mc::choose(3); static const U bad[] = {3, 4, 64, 0x7fffffffu, 0xfffffffeu}; U v = mc::pick(bad);
      std::string s = body[i]; memcpy(&s[4 * at], &v, 4); put_file(args[i], s); body[i] = s;
      what += std::string(" with index ") + std::to_string(v) + " in " + k;
    } break;
    case 5: {                                               // special to one tool
      if (ti == 0) { static const char *q[] = {"", "b", "bi", "binx", "BIN", "mt", "mtxx", "al", "all ", "x"}; args[4] = mc::pick(q); what += " with kind '" + args[4] + "'"; }
      else if (ti == 8) { int at = mc::choose(3); U z = 0; std::string s = body[0]; memcpy(&s[4 * at], &z, 4); put_file(args[0], s); body[0] = s; what += " with an index 0"; }
      else mc::prune();
    } break;
    case 7: {                                               // a vector with a repeated index has no inverse
      if (ti != 4) mc::prune();
      int at = mc::choose(3); U v = (U)mc::choose(3); if (perm[at] == v) mc::prune();
      size_t i = strchr(t.args, 'p') - t.args; memcpy(&body[i][4 * at], &v, 4); put_file(args[i], body[i]); what += " with a repeated index " + std::to_string(v);
    } break;
    case 8: {                                               // block sizes whose sum, or whose expansion, does not fit in an index
      const char *b = strchr(t.args, 'b'); if (!b) mc::prune();
      static const U q[][3] = {{0x80000000u, 0x80000003u}, {0xffffffffu, 4}, {4, 0xffffffffu}, {0x7fffffffu, 0x80000004u}, {0xffffffffu, 0xffffffffu, 5}, {1, 0xffffffffu, 3},      // sums
                               {0x80000000u, 3}, {3, 0x80000001u}, {0x40000001u, 5}, {0x60000000u, 0x60000000u}, {1, 0x80000000u}, {0x80000001u, 0x7ffffffeu}};       // expansions
      int w = mc::choose(12); if (w >= 6 && ti != 2 && ti != 5) mc::prune();
      std::string s; for (int k = 0; k < (q[w][2] ? 3 : 2); k++) put_bytes(s, q[w][k]);
      size_t i = b - t.args; put_file(args[i], s); body[i] = s; what += " with block sizes " + std::to_string(q[w][0]) + " " + std::to_string(q[w][1]);
    } break;
    case 6: {                                               // a file that cannot be read: a directory
      size_t i = (size_t)mc::choose((int)n); if (!is_in(i)) mc::prune(); args[i] = jail; what += std::string(" with a directory as ") + t.args[i];
    } break;
  }
  mc::shard();
  for (size_t i = 0; i < args.size(); i++) if (args[i].compare(0, jail.size() + 1, jail + "/") == 0 && access(args[i].c_str(), F_OK) == 0) keep.add(args[i]);
  mc::state(mc::mix(mc::mix(13, ti), mc::hash_bytes(what.data(), what.size())));
  assertion_allowed = kind == 8;           // the library's assertions are the refusal
  Run r = run(t.n, t.t, args);
  assertion_allowed = false;
  refused(what.c_str(), r);
  keep.check(what.c_str());
  if (!mc::failed()) mc::validated();
}
// chains of tools: the outputs of one are the inputs of the next
static void do_chain() {
  U n; bool big; int th; auto m = pick_matrix(n, big, &th);
  auto perm = pick_perm(n, big);
  std::vector<U> sizes = big ? std::vector<U>{n / 2, n - n / 2} : std::vector<U>{1, n};
  mc::state(mc::mix(mc::mix(14, hash(m)), mc::hash_bytes(perm.data(), perm.size() * 4)));
  // one-based indices and double values -> one2zero, double2float -> permute -> convert_blocked, expanded, sort; and prepare at once
  std::string r, c, v; for (auto &p : m) { put_bytes(r, p.r + 1); put_bytes(c, p.c + 1); put_bytes(v, (double)p.v); }
  std::string fr = path("r"), fc = path("c"), fv = path("v"), pf = put_array("perm", perm), bs = put_array("bs", sizes), o1 = path("one"), o2 = path("two");
  put_file(fr, r); put_file(fc, c); put_file(fv, v);
  for (auto e : {".zero", ".zero.permuted", ".zero.permuted.sorted"}) out_name(fr + e), out_name(fc + e);
  out_name(fv + ".float"); out_name(fv + ".sorted");
  if (!ok("one2zero", run("one2zero", t_one2zero, {fr, fc}))) return;
  if (!ok("double2float", run("double2float", t_double2float, {fv}))) return;
  if (!ok("permute", run("permute", t_permute, {fr + ".zero", fc + ".zero", pf}, th))) return;
  if (!ok("sort", run("sort", t_sort, {fr + ".zero.permuted", fc + ".zero.permuted", fv}, th))) return;
  std::string ex = ".exp" + std::to_string(expanded_size(sizes));
  for (auto &x : {o1 + ex, o2 + ".row", o2 + ".col", o2 + ".block", o2 + ".col" + ex}) out_name(x);
  if (!ok("convert_blocked", run("convert_blocked", t_convert_blocked, {fr + ".zero.permuted", fc + ".zero.permuted", fv + ".float", bs, o1}, th))) return;
  if (!ok("expanded", run("expanded", t_expanded, {fr + ".zero.permuted", fc + ".zero.permuted", fv + ".float", bs, o1}, th))) return;
  if (!ok("prepare", run("prepare", t_prepare, {fr + ".zero", fc + ".zero", fv + ".float", pf, bs, o2}, th))) return;
  auto pm = permuted(m, perm);
  check_blocked("convert_blocked", o1, pm, sizes);
  check_blocked("prepare", o2 + ".block", pm, sizes);
  check_bin("expanded", o1 + ex, expand(pm, sizes), 2 * (uint64_t)expanded_size(sizes), 2 * (uint64_t)expanded_size(sizes), false);
  std::string sr = slurp_file(fr + ".zero.permuted.sorted"), sc = slurp_file(fc + ".zero.permuted.sorted"), sv = slurp_file(fv + ".sorted");
  std::vector<Rec> got, want;
  if (sr.size() != 4 * m.size() || sc.size() != sr.size() || sv.size() != 2 * sr.size()) { mc::report("size", "sort: wrong sizes"); return; }
  for (size_t i = 0; i < m.size(); i++) { uint64_t a = get_bytes<U>(sr, 4 * i), b = get_bytes<U>(sc, 4 * i); got.push_back({a, b, a, b, bits((float)get_bytes<double>(sv, 8 * i))}); want.push_back({pm[i].r, pm[i].c, pm[i].r, pm[i].c, bits(pm[i].v)}); }
  same("sort", "its output", got, want, 2, "row, column");
  if (!mc::failed()) mc::validated();
}

void mc_body() {
  mcomp::reset();
  mmref::limit = 1e300;
  Clean clean;
  switch (mc::choose(9)) {
    case 0: do_convert(); break;
    case 1: do_blocks(); break;
    case 2: do_permute(); break;
    case 3: do_prepare(); break;
    case 4: do_sort(); break;
    case 5: do_vectors(); break;
    case 6: do_pprint(); break;
    case 7: if (mc::flip()) do_names(); else do_refuse(); break;
    case 8: do_chain(); break;
  }
}
}
