// C06: what is built from files, and the arrays and helpers around it, is memory safe and gives everything back.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#include "permute.h"
#include "expand.h"
#include "blk.h"
#include "capture.h"
#include "ledger.h"
namespace vp {

#if __has_feature(memory_sanitizer)
static const bool msan = true;
#else
static const bool msan = false;
#endif
const char *mc_name = HNAME;
double mc_exec_limit = 10;
typedef Coo<T_, I_, I_> C1;
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;
void mc_setup() { ledger_setup(); }

typedef std::vector<char> Bytes;         // not std::string: MemorySanitizer cannot see into the C++ library
static void add(Bytes &b, Bytes const &c) { b.insert(b.end(), c.begin(), c.end()); }
static void add(Bytes &b, const char *c) { b.insert(b.end(), c, c + strlen(c)); }
struct Path { char s[300]; const char *c_str() const { return s; } };
struct Dir {}; static Dir dir() { return Dir(); }
static Path operator+(Dir, const char *n) { Path p; snprintf(p.s, sizeof p.s, "%s/%s", mc::scratch(), n); return p; }
static void store(const char *n, Bytes const &s) { FILE *f = fopen((dir() + n).c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
template <class V> static void put(Bytes &s, V v) { const char *p = (const char *)&v; s.insert(s.end(), p, p + sizeof v); }
static Bytes rows_of(Mat const &m) { Bytes s; for (auto &e : m.e) put(s, (I_)e.r); return s; }
static Bytes cols_of(Mat const &m) { Bytes s; for (auto &e : m.e) put(s, (I_)e.c); return s; }
static Bytes vals_of(Mat const &m) { Bytes s; for (auto &e : m.e) put(s, mval(e.v)); return s; }
static Bytes bin_of(Mat const &m) { Bytes s; put(s, (I_)m.rows); put(s, (I_)m.cols); put(s, (I_)m.nnz()); add(s, rows_of(m)); add(s, cols_of(m)); add(s, vals_of(m)); return s; }
static int sym;                 // 0 general, 1 symmetric, 2 skew-symmetric, 3 pattern
static Bytes mtx_of(Mat const &m) {
  static const char *h[] = {"real general", "real symmetric", "real skew-symmetric", "pattern general", "complex hermitian", "integer general"};
  Bytes s; char b[160];
  snprintf(b, sizeof b, "%%%%MatrixMarket matrix coordinate %s\n%%\n%ld %ld %ld\n", h[sym], (long)m.rows, (long)m.cols, (long)m.nnz()); add(s, b);
  for (auto &e : m.e) {
    if (sym == 3) snprintf(b, sizeof b, "%ld %ld\n", (long)e.r + 1, (long)e.c + 1); else snprintf(b, sizeof b, "%ld %ld %.17g\n", (long)e.r + 1, (long)e.c + 1, (double)mval(e.v));
    add(s, b);
  }
  return s;
}
static Mat m, described;
static Offs ro, co;
static bool ok, dense;
static char what[100];
static void good(int r) { if (r != 0) { mc::report("status", "%s: %d", what, r); ok = false; } }
template <class A> static void mult(A &a) {
  if (!ok || mc::failed() || sym == 3) return;          // what a pattern's entries are worth is C08's
  MultCheck k(described, !dense);          // no NaN where a dense block multiplies every column
  k.run("memory", what, [&](T_ const *x, T_ *y) { Lib l; a.spmv(x, y); }, 1);
  mc::outcome(k.hash());
}
template <class A> static void info(A &a) { if (ok && !msan) { Capture c; { Lib l; print_info(a); } c.close(); } }
template <class A> static void drop(A &a) { if (ok) { Lib l; release(a); } }
// write what was read once more, in every format
template <class A> static void write_all(A &a) {
  if (!ok) return;
  Path f = dir() + "o1", g = dir() + "o2", h = dir() + "o3"; Lib l;
  good(write_mm_COO(&a, f.c_str())); good(write_bin_COO(&a, f.c_str(), g.c_str(), h.c_str())); good(write_bin_COO(a, f.c_str()));
}
enum { BIN2, BIN3, MM2, MM3, COO2_BY_NAME, COO3_BY_NAME, CSR_, CSR2_, THREE1, THREE2, THREE3, B_CSBR, B_CSBR2, B_CGBR8, B_CGBR64, FNUM };
static const char *fname[] = {"binary to COO2", "binary to COO3", "MatrixMarket to COO2", "MatrixMarket to COO3", "file to COO2", "file to COO3", "binary to CSR", "binary to CSR2", "three files to COO", "three files to COO2",
                              "three files to COO3", "blocked file to CSBR", "blocked file to CSBR2", "blocked file to CGBR (8 bit)", "blocked file to CGBR (64 bit)"};
template <class A, class F> static void loaded(F read, int then) {
  A a;
  { Lib l; good(read(&a)); }
  mc::step();
  if constexpr (std::is_same<A, C2>::value || std::is_same<A, C3>::value) {
    mult(a); write_all(a);
    // and on to another representation
    if (ok && then == 1) { Csr<T_, I_> b; { Lib l; Coo_to_Csr(&b, &a); } mult(b); drop(b); }
    if (ok && then == 2) { Cswr<T_, I_, uint16_t> b; { Lib l; Coo_to_Cswr(&b, &a, (I_)2); } mult(b); drop(b); }
    if constexpr (std::is_same<A, C3>::value) if (ok && then == 3) { Cgbr2<T_, I_, uint16_t> b; { Lib l; Coo_to_Blocked(&b, &a, (I_)1, (I_)1); } mult(b); drop(b); }
    if (ok && then == 4) { C1 b; { Lib l; Coo_to_Coo(&b, &a); } mult(b); drop(b); }
  } else { mult(a); if constexpr (!std::is_same<A, C1>::value) info(a); }
  drop(a);
}
static void from_files() {
  int k = mc::choose(FNUM), then = 0;
  bool mm = k == MM2 || k == MM3; sym = mm ? mc::choose(4) : 0;
  if (k < CSR_ || k == THREE2 || k == THREE3) then = mc::choose(5);
  if (then == 3 && k != BIN3 && k != MM3 && k != COO3_BY_NAME && k != THREE3) mc::prune();
  mc::shard();
  int fam = mc::choose(2);
  if (fam == 0) { int r = mc::range(1, 2), c = mc::range(1, 2); m = gen_tiny_dims(r, c, mc::thorough ? 4 : 3); }
  else { static const int n[] = {5, 17, 65}; int q = mc::pick(n), sh = mc::choose(3); m = gen_struct(sh == 1 ? 3 : q, sh == 2 ? 4 : q, mc::choose(P_NUM), O_MIX); }
  if (sym == 1 || sym == 2) {
    if (m.rows != m.cols) mc::prune();
    std::vector<Ent> e; for (auto &x : m.e) if (x.r > x.c || (sym == 1 && x.r == x.c)) e.push_back(x);
    m.e = e;
  }
  described = m;
  if (sym == 1 || sym == 2) for (auto &e : m.e) if (e.r != e.c) described.e.push_back(Ent{e.c, e.r, sym == 2 ? -e.v : e.v});
  snprintf(what, sizeof what, "%s", fname[k]);
  m.show(); MC_LOG("%s, then %d, kind %d", what, then, sym);
  Path f = dir() + "i.bin", g = dir() + "j", h = dir() + "v", t = dir() + "i.mtx", b = dir() + "b";
  if (k >= B_CSBR) {
    if (fam == 0) { ro = offs_any(m.rows); co = offs_any(m.cols); } else { int q = mc::choose(OF_NUM); if (q == OF_EMPTIES && (m.rows < 6 || m.cols < 6)) mc::prune(); ro = offs_family(m.rows, q); co = offs_family(m.cols, q); }
    MC_LOG("rows %s columns %s", show(ro).c_str(), show(co).c_str());
    C3 s = make_coo3<C3>(m); I_ *r = give(ro), *c = give(co), nr = (I_)(ro.size() - 1), nc = (I_)(co.size() - 1);
    { Lib l; calculate_block_id(s.elements, s.nnz, r, nr, c, nc); sort_elements_blocks(s.elements, s.nnz); s.blockrows = nr; s.blockcols = nc; s.nnzblocks = count_blocks(s.elements, s.nnz); good(write_bin_blocked(s, b.c_str())); }
    release(s); delete[] r; delete[] c;
  } else if (k >= THREE1) {
    store("i.bin", rows_of(m)); store("j", cols_of(m)); store("v", vals_of(m));
    described.rows = described.cols = 1; for (auto &e : m.e) { described.rows = std::max(described.rows, e.r + 1); described.cols = std::max(described.cols, e.c + 1); }
  } else {
    if (k == CSR_ || k == CSR2_) std::stable_sort(m.e.begin(), m.e.end(), [](Ent const &x, Ent const &y) { return x.r != y.r ? x.r < y.r : x.c < y.c; });
    store("i.bin", bin_of(m)); if (k < CSR_) store("i.mtx", mtx_of(m));
  }
  dense = k == B_CGBR8 || k == B_CGBR64;
  mc::state(mc::mix(mc::mix(m.hash(), k * 32 + then * 4 + sym), mc::mix(mc::hash_bytes(ro.data(), ro.size() * 8), mc::hash_bytes(co.data(), co.size() * 8))));
  auto blocked = [&](auto *a) { I_ *r, *c; { Own o; r = give(ro); c = give(co); } return read_bin_blocked(a, b.c_str(), r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1)); };
  switch (k) {
    case BIN2: loaded<C2>([&](C2 *a) { return read_bin_COO(a, f.c_str()); }, then); break;
    case BIN3: loaded<C3>([&](C3 *a) { return read_bin_COO(a, f.c_str()); }, then); break;
    case MM2: loaded<C2>([&](C2 *a) { return read_mm_COO(a, t.c_str()); }, then); break;
    case MM3: loaded<C3>([&](C3 *a) { return read_mm_COO(a, t.c_str()); }, then); break;
    case COO2_BY_NAME: loaded<C2>([&](C2 *a) { return read_COO(a, m.nnz() % 2 ? f.c_str() : t.c_str()); }, then); break;
    case COO3_BY_NAME: loaded<C3>([&](C3 *a) { return read_COO(a, m.nnz() % 2 ? t.c_str() : f.c_str()); }, then); break;
    case CSR_: loaded<Csr<T_, I_>>([&](Csr<T_, I_> *a) { return read_bin_CSR(a, f.c_str()); }, 0); break;
    case CSR2_: loaded<Csr2<T_, I_>>([&](Csr2<T_, I_> *a) { return read_bin_CSR(a, f.c_str()); }, 0); break;
    case THREE1: loaded<C1>([&](C1 *a) { return read_bin_COO(a, f.c_str(), g.c_str(), h.c_str()); }, 0); break;
    case THREE2: loaded<C2>([&](C2 *a) { return read_bin_COO(a, f.c_str(), g.c_str(), h.c_str()); }, then); break;
    case THREE3: loaded<C3>([&](C3 *a) { return read_bin_COO(a, f.c_str(), g.c_str(), h.c_str()); }, then); break;
    case B_CSBR: loaded<Csbr<T_, I_>>(blocked, 0); break;
    case B_CSBR2: loaded<Csbr2<T_, I_>>(blocked, 0); break;
    case B_CGBR8: loaded<Cgbr<T_, I_, uint8_t>>(blocked, 0); break;
    case B_CGBR64: loaded<Cgbr<T_, I_, uint64_t>>(blocked, 0); break;
  }
}
// files that end too early: a reader that says so itself has taken back what it allocated
static void refused() {
  int k = mc::choose(CSR2_ + 1);
  bool mm = k == MM2 || k == MM3; sym = mm ? mc::choose(6) : 0;
  static const int n[] = {0, 1, 2, 9};
  int q = mc::pick(n);
  m.rows = m.cols = 3; m.e.clear();
  for (int i = 0; i < q; i++) m.e.push_back(Ent{i / 3, i % 3, gen_val(i)});
  if (sym == 1 || sym == 2) for (auto &e : m.e) { e.r = 2; e.c = e.c % 2; }
  Bytes s = mm ? mtx_of(m) : bin_of(m);
  int how = mc::choose(3); size_t at = 0;
  if (how == 0) { at = (size_t)mc::choose((int)s.size()); s.resize(at); }
  else if (how == 1) { at = (size_t)mc::choose((int)s.size()); if (!mm && at >= 2 * sizeof(I_) && at < 3 * sizeof(I_)) mc::prune(); s[at] = (char)(mm ? '9' : 0x7f); }      // a wrong number of entries is C13's
  else { if (!mm) mc::prune(); at = (size_t)mc::choose((int)s.size()); s[at] = 'x'; }
  mc::shard();
  if (how == 1 && !mm && at < 2 * sizeof(I_)) mc::prune();
  snprintf(what, sizeof what, "%s", fname[k]);
  MC_LOG("%s, kind %d, %d entries, change %d at %zu", what, sym, q, how, at);
  mc::state(mc::mix(mc::hash_bytes(s.data(), s.size()), k));
  store(mm ? "i.mtx" : "i.bin", s);
  Path f = dir() + "i.bin", t = dir() + "i.mtx"; int r = 0;
  auto one = [&](auto *a, auto read) { { Capture c; { Lib l; r = read(a); } c.close(); } if (r == 0) { Lib l; release(*a); } };
  C2 c2; C3 c3; Csr<T_, I_> s1; Csr2<T_, I_> s2;
  if (mm && how == 1) { // keep the sizes of what is allocated small
    int nl = 0; for (size_t i = 0; i < at; i++) nl += s[i] == '\n'; if (nl < 3) mc::prune();
  }
  switch (k) {
    case BIN2: one(&c2, [&](C2 *a) { return read_bin_COO(a, f.c_str()); }); break;
    case BIN3: one(&c3, [&](C3 *a) { return read_bin_COO(a, f.c_str()); }); break;
    case MM2: one(&c2, [&](C2 *a) { return read_mm_COO(a, t.c_str()); }); break;
    case MM3: one(&c3, [&](C3 *a) { return read_mm_COO(a, t.c_str()); }); break;
    case COO2_BY_NAME: one(&c2, [&](C2 *a) { return read_COO(a, f.c_str()); }); break;
    case COO3_BY_NAME: one(&c3, [&](C3 *a) { return read_COO(a, f.c_str()); }); break;
    case CSR_: one(&s1, [&](Csr<T_, I_> *a) { return read_bin_CSR(a, f.c_str()); }); break;
    case CSR2_: one(&s2, [&](Csr2<T_, I_> *a) { return read_bin_CSR(a, f.c_str()); }); break;
  }
  mc::outcome(r);
}
// arrays in files, permutations, expansion, sorting
static void around() {
  int k = mc::choose(8);
  static const int n[] = {0, 1, 2, 5, 63, 64, 65, 499, 501, 2100};
  int q = mc::pick(n), teams = mc::range(1, 3); mc::shard();
  use(Sched{teams, teams == 2 ? mcomp::LAST : mcomp::ROUND_ROBIN});
  mc::state(mc::mix(k, q * 4 + teams));
  static const char *wn[] = {"arrays in files", "inverting a permutation", "permuting indices", "permuting a matrix", "expanding indices", "expanding a matrix", "sorting triplets", "sorting elements"};
  snprintf(what, sizeof what, "%s", wn[k]); MC_LOG("%s: %d, team %d", what, q, teams);
  std::vector<I_> p(q), idx(q); for (int i = 0; i < q; i++) { p[i] = (I_)((i + q / 2) % q); idx[i] = (I_)((int64_t)i * 37 % q); }
  Mat s; s.rows = s.cols = std::max(q, 1); for (int i = 0; i < q; i++) s.e.push_back(Ent{(int64_t)i * 37 % q, (int64_t)i * 11 % q, gen_val(i)});
  std::vector<I_> bs(std::max(1, q / 3 + 1), 3), off(bs.size() + 1, 0); bs.back() = (I_)(std::max(q, 1) - 3 * ((int)bs.size() - 1)); if (bs.back() == 0) bs.back() = 1; for (size_t i = 0; i < bs.size(); i++) off[i + 1] = off[i] + bs[i];
  std::vector<I_> r(q);
  switch (k) {
    case 0: { Path f = dir() + "a"; I_ *d = nullptr; size_t num = 9; { Lib l; good(write_bin_array(f.c_str(), idx.data(), (size_t)q)); good(read_bin_array(f.c_str(), &d, &num)); }
      if (num != (size_t)q || (q && memcmp(d, idx.data(), q * sizeof(I_)))) mc::report("memory", "array of %d differs", q);
      free(d); break; }
    case 1: { I_ *d; { Lib l; d = invert_permutation(p.data(), (I_)q); } if (q) for (int i = 0; i < q; i++) if (d[p[i]] != (I_)i) { mc::report("memory", "inverse of %d numbers", q); break; }
      delete[] d;
      if (q > 1) { p[0] = p[1]; I_ *e; { Lib l; e = invert_permutation(p.data(), (I_)q); } if (e) mc::report("memory", "no permutation of %d numbers was inverted", q); p[0] = (I_)q; { Lib l; e = invert_permutation(p.data(), (I_)q); } if (e) mc::report("memory", "no permutation"); }
      break; }
    case 2: { Lib l; permute_indeces(idx.data(), p.data(), (I_)q); break; }
    case 3: { C3 c = make_coo3<C3>(s); { Lib l; permute_indeces(c.elements, c.nnz, p.data()); } release(c); break; }
    case 4: { I_ z; { Lib l; z = expand_indeces(idx.data(), (I_)q, bs.data(), (I_)bs.size()); } mc::outcome(z); break; }
    case 5: { C3 c = make_coo3<C3>(s); { Lib l; expand_indeces(c.elements, c.nnz, bs.data(), off.data(), (I_)bs.size()); } release(c); break; }
    case 6: { C2 c = make_coo2<C2>(s); { Lib l; sort_triplets(c.triplets, c.nnz, true); sort_triplets(c.triplets, c.nnz, false); sort_triplets_widerows(c.triplets, c.nnz, (I_)4); sort_triplets_blocks(c.triplets, c.nnz, off.data(), (I_)bs.size(), off.data(), (I_)bs.size()); } release(c); break; }
    case 7: { C3 c = make_coo3<C3>(s); { Lib l; calculate_block_id(c.elements, c.nnz, off.data(), (I_)bs.size(), off.data(), (I_)bs.size()); sort_elements_blocks(c.elements, c.nnz); mc::outcome(count_blocks(c.elements, c.nnz)); } release(c); break; }
  }
}
void mc_body() {
  mcomp::reset();
  m = Mat(); described = Mat(); ro.clear(); co.clear(); ok = true; sym = 0; ledger_reset(); mc::phase = "";
  switch (mc::choose(3)) { case 0: from_files(); break; case 1: refused(); break; case 2: around(); break; }
  if (!mc::failed() && owned) { size_t n = 0; for (size_t i = 0; i < LN; i++) if (ledger[i] > 1) n += size_[i]; mc::report("leak", "%s: %ld objects (%zu bytes) remain", what, owned, n); }
  if (!mc::failed()) mc::validated();
}
}
