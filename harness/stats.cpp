// C18: the statistics every representation reports are the true ones.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/dense.h"
#include "capture.h"
#include "guard.h"
#define PLAIN_VALUES
#include "blk.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}

typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;
enum { BF_DEFAULT, BF_COO, BF_CSR, BF_CSRPAR, BF_DENSE, BF_DENSEPAR, BF_ALT, BF_NUM };

// what a block really is
template <class S> static int type_of(BlockBase<T_, I_> *b) {
  if (dynamic_cast<BlockCsrParallel<T_, I_, S> *>(b)) return BLOCK_CSR_PAR;      // derived from the serial one
  if (dynamic_cast<BlockCsrSerial<T_, I_, S> *>(b)) return BLOCK_CSR;
  if (dynamic_cast<DenseSerial<T_, I_> *>(b) || dynamic_cast<DenseParallel<T_, I_> *>(b)) return BLOCK_DENSE;
  if (dynamic_cast<Coo<T_, I_, S> *>(b)) return BLOCK_COO;
  return -1;
}
template <class S> struct Factory : public BlockFactory<T_, I_> {
  int kind, n = 0;
  BlockFactoryDefault<T_, I_, S> def;
  explicit Factory(int k) : kind(k) {}
  MatrixType create(BlockBase<T_, I_> **target, Element<T_, I_> *a, I_ rows, I_ columns, I_ nnz) {
    int k = kind == BF_ALT ? BF_COO + (n++ % 5) : kind;
    switch (k) {
      case BF_DEFAULT: return def.create(target, a, rows, columns, nnz);
      case BF_COO: *target = new Coo<T_, I_, S>(a, nnz); return BLOCK_COO;
      case BF_CSR: *target = new BlockCsrSerial<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR;
      case BF_CSRPAR: *target = new BlockCsrParallel<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR_PAR;
      case BF_DENSE: *target = new DenseSerial<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
      default: *target = new DenseParallel<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
    }
  }
};

static Mat m;
static Offs ro, co;
static int64_t bs_r, bs_c;
static bool shared_offsets;
static char what[96];
static const size_t sits_[] = {1, 2, 4, 8};

template <class A, class SRC> static void by_blocks(A *a, SRC *s) {
  build_again<SRC>(*a, [](A &a, SRC &s) { if (bs_r) Coo_to_Blocked(&a, &s, (I_)2, (I_)3); else Coo_to_Blocked(&a, &s, give(Offs{0, 1, (int64_t)s.rows}), (I_)2, give(Offs{0, 2, (int64_t)s.columns}), (I_)2); });
  if (bs_r) Coo_to_Blocked(a, s, (I_)bs_r, (I_)bs_c);
  else {
    I_ *r = give(ro), *c = shared_offsets ? r : give(co);
    Coo_to_Blocked(a, s, r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1));
  }
}
// ---- reading the printed report
static std::string text;
static void expect(const char *label, int64_t want, int nth = 0, bool before = true) {
  size_t at = 0;
  for (int i = 0; i <= nth; i++) { at = text.find(label, i ? at + 1 : 0); if (at == std::string::npos) break; }
  if (at == std::string::npos) { mc::report("report", "%s: the report does not tell the%s", what, label); return; }
  size_t e = at; while (e > 0 && text[e - 1] == ' ') e--;
  size_t b = e; while (b > 0 && isdigit((unsigned char)text[b - 1])) b--;
  bool neg = b > 0 && text[b - 1] == '-';
  long got = b == e ? -1 : atol(text.substr(b, e - b).c_str());
  if (b == e || neg || got != want) mc::report("report", "%s: reports %s%ld%s, expected %ld (%s %ldx%ld, %ld entries, rows %s columns %s)", what, neg ? "-" : "", got, label, (long)want, m.desc, (long)m.rows, (long)m.cols, (long)m.nnz(), show(ro).c_str(), show(co).c_str());
}
static void percent(const char *label, double want) {
  size_t at = text.find(label);
  if (at == std::string::npos) { mc::report("report", "%s: the report does not tell the%s", what, label); return; }
  size_t b = at; while (b > 0 && (isdigit((unsigned char)text[b - 1]) || text[b - 1] == '.')) b--;
  double got = b == at ? -1 : atof(text.substr(b, at - b).c_str());
  if (!(std::fabs(got - want) <= 0.000051 + 1e-6 * want)) mc::report("percent", "%s: reports %f%s, expected %f", what, got, label, want);
}
template <class F> static void capture(F &&f) { Capture c; f(); text = c.stop(); mc::step(); mc::outcome(mc::hash_bytes(text.data(), text.size())); }
static void same(const char *name, int64_t got, int64_t want) {
  if (got != want) mc::report("accessor", "%s: %s is %ld, expected %ld (%s %ldx%ld, %ld entries, rows %s columns %s)", what, name, (long)got, (long)want, m.desc, (long)m.rows, (long)m.cols, (long)m.nnz(), show(ro).c_str(), show(co).c_str());
}
// entries of every non-empty block, in the order of the blocks
static std::vector<std::pair<int64_t, int64_t>> true_counts() {    // entries, cells
  std::vector<std::pair<std::pair<int, int>, int64_t>> v;
  std::vector<std::pair<int, int>> ids;
  for (auto &e : m.e) ids.push_back({block_of(ro, e.r), block_of(co, e.c)});
  std::sort(ids.begin(), ids.end());
  std::vector<std::pair<int64_t, int64_t>> out;
  for (size_t i = 0; i < ids.size();) { size_t j = i; while (j < ids.size() && ids[j] == ids[i]) j++;
    out.push_back({(int64_t)(j - i), (ro[ids[i].first + 1] - ro[ids[i].first]) * (co[ids[i].second + 1] - co[ids[i].second])}); i = j; }
  return out;
}
static void blocked_report(bool per_type, bool sizes_only = false) {
  int64_t nb = true_blocks(m, ro, co), br = (int64_t)ro.size() - 1, bc = (int64_t)co.size() - 1;
  expect(" rows x", m.rows);
  expect(" columns", m.cols);
  if (sizes_only) { expect(" x ", br, 1); expect(" blocks of size", bc); }
  else { expect(" block-rows", br); expect(" block-columns", bc); }
  expect(" non-zeros in", m.nnz());
  expect(" blocks\n", nb);
  percent("% non-zeros", 100.0 * (double)m.nnz() / ((double)m.rows * (double)m.cols));
  percent("% non-zero blocks", 100.0 * (double)nb / ((double)br * (double)bc));
  (void)per_type;
}
template <class A> static void blocked_fields(A const &a) {
  same("rows", (int64_t)a.rows, m.rows);
  same("columns", (int64_t)a.columns, m.cols);
  same("blockrows", (int64_t)a.blockrows, (int64_t)ro.size() - 1);
  same("blockcols", (int64_t)a.blockcols, (int64_t)co.size() - 1);
  same("nnzblocks", (int64_t)a.nnzblocks, true_blocks(m, ro, co));
  same("nnz", (int64_t)a.nnz, m.nnz());
}
template <class A> static void offsets_same(A const &a) {
  for (size_t i = 0; i < ro.size(); i++) same("block-row offset", (int64_t)a.get_block_row_offset((I_)i), ro[i]);
  for (size_t i = 0; i < co.size(); i++) same("block-column offset", (int64_t)a.get_block_column_offset((I_)i), co[i]);
}
// blocks and entries per type, from the blocks themselves
template <class A, class F> static void types(A const &a, F &&type) {
  auto t = true_counts();
  if ((int64_t)a.nnzblocks != (int64_t)t.size()) return;             // reported already
  int64_t nb[MATRIX_TYPE_NUM] = {}, nz[MATRIX_TYPE_NUM] = {};
  for (size_t i = 0; i < t.size(); i++) {
    int k = type((I_)i);
    if (k < 0 || k >= MATRIX_TYPE_NUM) { mc::report("type", "%s: block %zu has no known type", what, i); return; }
    nb[k]++; nz[k] += t[i].first;
    int64_t n = (int64_t)a.block_nonzeros((I_)i);
    if (n != t[i].first && !(k == BLOCK_DENSE && n == t[i].second)) mc::report("block", "%s: block %zu reports %ld entries, expected %ld", what, i, (long)n, (long)t[i].first);
  }
  for (int k = 0; k < MATRIX_TYPE_NUM; k++) {
    if ((int64_t)a.type_block_count[k] != nb[k] || (int64_t)a.type_nnz_count[k] != nz[k])
      mc::report("type", "%s: counts %ld blocks with %ld entries of type %d, there are %ld with %ld", what, (long)a.type_block_count[k], (long)a.type_nnz_count[k], k, (long)nb[k], (long)nz[k]);
  }
  static const struct { const char *l; int k; } L[] = {{" COO,", BLOCK_COO}, {" CSR,", BLOCK_CSR}, {" CSR (parallel),", BLOCK_CSR_PAR}, {" dense", BLOCK_DENSE}};
  for (auto &l : L) { expect(l.l, nb[l.k], 0); expect(l.l, nz[l.k], 1); }
  bool says = text.find("\tBalanced") != std::string::npos, says_not = text.find("\tUnbalanced") != std::string::npos;
  if (says == says_not || says != (bool)a.balanced) mc::report("balanced", "%s: the report does not tell whether the block-rows are balanced (%d)", what, (int)a.balanced);
}
template <class S> static void do_cgbr(C3 *s) {
  Cgbr<T_, I_, S> a; by_blocks(&a, s);
  bool heavy = false;                       // the balance test: no block-row with more than twice the mean
  blocked_fields(a); offsets_same(a);
  same("nonzeros()", (int64_t)a.nonzeros(), m.nnz());
  capture([&] { print_info(a); });
  blocked_report(true); types(a, [&](I_ i) { return (int)a.block(i)->type; });
  if (a.type_block_count[BLOCK_DENSE] == 0) {
    std::vector<int64_t> per(ro.size() - 1, 0); for (auto &e : m.e) per[block_of(ro, e.r)]++;
    double mean = (double)m.nnz() / (double)per.size(); for (auto p : per) if ((double)p > 2.0 * mean * (1 + 1e-6)) heavy = true;
    bool edge = false; for (auto p : per) if (std::fabs((double)p - 2.0 * mean) <= 2e-6 * mean) edge = true;
    if (!edge && a.is_balanced() == heavy) mc::report("balance", "%s: is_balanced() is %d although the heaviest block-row has %stwice the mean", what, (int)!heavy, heavy ? "more than " : "at most ");
  }
  release(a);
}
template <class S> static void do_cgbr2(C3 *s, int bf) {
  Cgbr2<T_, I_, S> a; Factory<S> fac(bf);
  if (bf == BF_DEFAULT) by_blocks(&a, s);
  else {
    build_again<C3>(a, [&](Cgbr2<T_, I_, S> &a, C3 &s) { Factory<S> f((bf + 1 - BF_COO) % 5 + BF_COO); Coo_to_Cgbr(&a, &s, give(Offs{0, 1, (int64_t)s.rows}), (I_)2, give(Offs{0, 2, (int64_t)s.columns}), (I_)2, f); });
    I_ *r = give(ro), *c = shared_offsets ? r : give(co); Coo_to_Cgbr(&a, s, r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1), fac); }
  blocked_fields(a); offsets_same(a);
  same("nonzeros()", (int64_t)a.nonzeros(), m.nnz());
  capture([&] { print_info(a); });
  blocked_report(true); types(a, [&](I_ i) { return type_of<S>(a.block(i)); });
  release(a);
}
template <class S> static void do_csbr3(C3 *s) {
  Csbr3<T_, I_, S> a; build_again<C3>(a, [](Csbr3<T_, I_, S> &a, C3 &s) { Coo_to_Blocked(&a, &s, (I_)2, (I_)2); }); Coo_to_Blocked(&a, s, (I_)bs_r, (I_)bs_r);
  blocked_fields(a);
  same("nonzeros()", (int64_t)a.nonzeros(), m.nnz());
  capture([&] { print_info(a); });
  blocked_report(false, true);
  size_t at = text.find("of size "); if (at == std::string::npos || atol(text.c_str() + at + 8) != bs_r) mc::report("report", "%s: the report does not tell the block size %ld", what, (long)bs_r);
  release(a);
}
template <class S> static void do_single(C3 *s) {
  { BlockCoo<T_, I_, S> a; Coo_to_Coo(&a, s->elements, s->nnz); same("block COO nonzeros()", (int64_t)a.nonzeros(), m.nnz()); release(a); }
  { BlockCoo2<T_, I_, S> a; Coo_to_Coo(&a, s->elements, s->nnz); same("block COO2 nonzeros()", (int64_t)a.nonzeros(), m.nnz()); release(a); }
  { BlockCsr<T_, I_, S> a; Coo_to_Csr(&a, s->elements, s->rows, s->columns, s->nnz, false); same("block CSR nonzeros()", (int64_t)a.nonzeros(), m.nnz()); release(a); }
  { std::vector<Element<T_, I_>> e(s->elements, s->elements + s->nnz); Coo<T_, I_, S> a(e.data(), s->nnz); same("COO block nonzeros()", (int64_t)a.nonzeros(), m.nnz()); }
  { std::vector<Element<T_, I_>> e(s->elements, s->elements + s->nnz); BlockCsrSerial<T_, I_, S> a(e.data(), s->rows, s->columns, s->nnz); same("CSR block nonzeros()", (int64_t)a.nonzeros(), m.nnz()); }
}
static int64_t filled_rows() { std::set<int64_t> r; for (auto &e : m.e) r.insert(e.r); return (int64_t)r.size(); }
template <class S> static void do_cswr(C3 *s, int width) {
  Cswr<T_, I_, S> a; build_again<C3>(a, [](auto &a, C3 &s) { Coo_to_Cswr(&a, &s, (I_)2); }); Coo_to_Cswr(&a, s, (I_)width);
  int64_t groups = (m.rows + width - 1) / width;
  same("rows", (int64_t)a.rows, m.rows); same("columns", (int64_t)a.columns, m.cols); same("width", (int64_t)a.width, width);
  same("nwrows", (int64_t)a.nwrows, groups); same("nonzeros()", (int64_t)a.nonzeros(), m.nnz());
  capture([&] { print_info(a); });
  expect(" rows in", m.rows); expect(" groups", groups); expect(", ", width); expect(" non-zeros", m.nnz());
  release(a);
}
template <class A> static void listing(A const &a, std::vector<std::pair<std::pair<int64_t, int64_t>, double>> want) {     // show(): every entry as (row, column, value)
  capture([&] { show(a); });
  if (m.nnz() > 20) return;
  std::vector<std::pair<std::pair<int64_t, int64_t>, double>> got;
  for (const char *p = text.c_str(); (p = strchr(p, '(')); p++) { long r, c; double v; if (sscanf(p, "(%ld, %ld, %lf)", &r, &c, &v) == 3) got.push_back({{r, c}, v}); }
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got != want) mc::report("listing", "%s: the listing shows %zu entries or wrong ones, expected %zu", what, got.size(), want.size());
}
enum { F_CSR, F_COO, F_CSWR, F_CSBR_COO2, F_CSBR_COO3, F_CSBR2, F_CSBR3, F_CGBR, F_CGBR2_0, F_CGBR2_L = F_CGBR2_0 + BF_NUM - 1, F_SINGLE, F_COUNT, F_NUM };
static const char *fname[] = {"CSR", "COO", "CSWR", "CSBR (from COO2)", "CSBR (from COO3)", "CSBR2", "CSBR3", "CGBR", "CGBR2 default", "CGBR2 coo", "CGBR2 csr", "CGBR2 csrpar", "CGBR2 dense", "CGBR2 densepar",
                              "CGBR2 mixed", "single blocks", "counting helpers"};

void mc_body() {
  mcomp::reset();
  ro.clear(); co.clear(); bs_r = bs_c = 0; shared_offsets = false;
  int f = mc::choose(F_NUM);
  bool flat = f <= F_CSWR || f == F_SINGLE, has_sit = f >= F_CSBR3 && f < F_COUNT, consts_only = f == F_CSBR3, no_const = f > F_CGBR2_0 || f == F_COUNT;
  static const int sitq[] = {2, 3, 0, 1};
  int sit = has_sit || f == F_CSWR ? sitq[mc::choose(lite() ? 2 : 4)] : 2;
  int fam = mc::choose(5);
  bool constant = flat ? false : consts_only ? true : no_const ? false : mc::flip();
  if (fam == 0) {
    int r = mc::range(1, 3), c = mc::range(1, 3);
    mc::shard();
    m = gen_tiny_dims(r, c, mc::thorough ? 3 : 2);
    if (flat) { ro = Offs{0, r}; co = Offs{0, c}; }
    else if (constant) { bs_r = mc::range(1, r + 1); bs_c = consts_only ? bs_r : mc::range(1, c + 1); }
    else { ro = offs_any(r); co = offs_any(c); }
  } else if (fam == 1) {
    static const int d[][2] = {{2, 3}, {3, 2}, {1, 4}, {4, 1}, {4, 2}, {3, 3}, {2, 4}};
    auto &p = d[mc::choose(mc::thorough ? 7 : lite() ? 1 : 4)];
    mc::shard();
    m = gen_pattern(p[0], p[1]);
    if (flat) { ro = Offs{0, p[0]}; co = Offs{0, p[1]}; }
    else if (constant) { bs_r = mc::range(1, p[0]); bs_c = consts_only ? bs_r : mc::range(1, p[1]); }
    else { ro = offs_strict(p[0]); co = offs_strict(p[1]); }
  } else if (fam == 4) {      // more blocks, rows or entries than 16 bits can count
    if (lite() || f == F_COO || (has_sit && sits_[sit] != 4)) mc::prune();
    int k = mc::choose(BIG_NUM);
    mc::shard();
    m = big_blocks(k, ro, co);
    bool dense = f == F_CGBR2_0 + BF_DENSE || f == F_CGBR2_0 + BF_DENSEPAR || f == F_CGBR2_0 + BF_ALT;
    if (dense && k >= BIG_HALVES) mc::prune();
    if (flat) { ro = Offs{0, m.rows}; co = Offs{0, m.cols}; }
    else if (constant) { bs_r = k == BIG_ROWS ? 1 : k == BIG_COLS ? 3 : m.rows / 2; bs_c = k == BIG_ROWS ? 3 : k == BIG_COLS ? 1 : m.cols; if (consts_only) bs_c = bs_r; }
  } else if (fam == 3) {      // more cells than 32 bits can count, few entries
    static const int64_t hq[][2] = {{65536, 65536}, {46341, 46341}, {65537, 65537}, {4000000, 1100}, {3, 1500000000}, {65536, 131072}, {3, 8589934597}};
    if (f == F_SINGLE || f == F_COO || (f > F_CGBR2_0 && f < F_CGBR2_0 + BF_NUM) || (has_sit && sits_[sit] < 4)) mc::prune();
    int k = mc::choose(sizeof(I_) == 8 ? 7 : mc::thorough ? 6 : 4); auto &p = hq[k];
    if (k == 6 && has_sit && sits_[sit] < 8) mc::prune();
    mc::shard();
    m = Mat(); m.rows = p[0]; m.cols = p[1]; strcpy(m.desc, "huge");
    int n = mc::choose(4);
    for (int i = 0; i < n; i++) { static const int at[][2] = {{0, 1}, {1, 0}, {1, 1}}; m.e.push_back({at[i][0] * (p[0] - 1), at[i][1] * (p[1] - 1), gen_val(i)}); }
    if (flat) { ro = Offs{0, p[0]}; co = Offs{0, p[1]}; }
    else if (constant) { bs_r = consts_only ? std::max(p[0], p[1]) / 2 : (p[0] + 2) / 3; bs_c = consts_only ? bs_r : (p[1] + 1) / 2; }
    else { ro = Offs{0, p[0] / 3, p[0]}; co = Offs{0, p[1] - 1, p[1]}; }
  } else {
    static const int nq[] = {7, 20, 33, 64, 130}, nt[] = {5, 7, 16, 17, 20, 33, 63, 64, 65, 130, 257};
    int n = mc::thorough ? mc::pick(nt) : lite() ? 33 : mc::pick(nq);
    int shape = mc::choose(3);
    mc::shard();
    int64_t rows = shape == 1 ? 5 : n, cols = shape == 2 ? 6 : n;
    m = gen_struct(rows, cols, mc::choose(P_NUM), mc::choose(lite() ? 2 : O_NUM), 3 * n);
    if (flat) { ro = Offs{0, rows}; co = Offs{0, cols}; }
    else if (constant) { static const int b[] = {1, 2, 3, 7, 16, 100, 256}; bs_r = mc::pick(b); bs_c = consts_only ? bs_r : mc::flip() ? bs_r : 5; if (n > 33 && bs_r < 3) mc::prune(); }
    else { int k = mc::choose(OF_NUM); ro = offs_family(rows, k); if (shape == 0) { bool same = mc::flip(); co = same ? ro : offs_family(cols, (k + 4) % OF_NUM); if (same) shared_offsets = mc::flip(); } else co = offs_family(cols, (k + 3) % OF_NUM); }
  }
  if (constant) {
    if (consts_only) {
      ro = Offs{0}; for (int64_t i = bs_r; i < m.rows; i += bs_r) ro.push_back(i); ro.push_back(m.rows);
      co = Offs{0}; for (int64_t i = bs_r; i < m.cols; i += bs_r) co.push_back(i); co.push_back(m.cols);
    } else { ro = offs_const(m.rows, bs_r); co = offs_const(m.cols, bs_c); }
  }
  int workers = fam == 2 && !flat ? 1 + mc::choose(2) * 4 : 2;
  use(Sched{workers, mcomp::ROUND_ROBIN});
  again = fam == 1 || fam >= 3 || (fam == 0 && (m.nnz() > 2 || m.rows > 2 || m.cols > 2)) || (fam == 2 && m.rows != 33) ? 0 : mc::choose(3);
  snprintf(what, sizeof what, "%s%s%s%d", again ? "reused " : "", fname[f], has_sit ? " small index bytes " : " ", has_sit ? (int)sits_[sit] : 0);
  m.show();
  MC_LOG("%s rows %s columns %s constant %ld %ld, built with %d", what, show(ro).c_str(), show(co).c_str(), (long)bs_r, (long)bs_c, workers);
  uint64_t h = mc::mix(m.hash(), f * 8 + sit + 1000 * again); for (auto v : ro) h = mc::mix(h, v); for (auto v : co) h = mc::mix(h, v + 1000);
  mc::state(h);
  int width = 0;
  if (f == F_CSWR) { static const int w[] = {1, 2, 3, 8, 32, 33, 100}; width = mc::pick(w); }
  auto ents = [&] { std::vector<std::pair<std::pair<int64_t, int64_t>, double>> v; for (auto &e : m.e) v.push_back({{e.r, e.c}, (double)(T_)e.v}); return v; };
  auto r = guard::run([&] {
    if (f == F_COO) {
      C2 s = make_coo2<C2>(m); same("COO2 nonzeros()", (int64_t)s.nonzeros(), m.nnz()); listing(s, ents()); release(s);
      C3 t = make_coo3<C3>(m); same("COO3 nonzeros()", (int64_t)t.nonzeros(), m.nnz()); listing(t, ents());
      C2 q; q = C2(); Coo_to_Coo(&q, &t); same("copied COO2 nonzeros()", (int64_t)q.nonzeros(), m.nnz()); same("copied rows", (int64_t)q.rows, m.rows); same("copied columns", (int64_t)q.columns, m.cols); listing(q, ents()); release(q);
      release(t);
      return;
    }
    if (f == F_CSBR_COO2) {
      C2 s = make_coo2<C2>(m); Csbr<T_, I_> a; by_blocks(&a, &s);
      blocked_fields(a); offsets_same(a); capture([&] { print_info(a); }); blocked_report(false);
      auto t = true_counts(); for (size_t i = 0; i < t.size() && (int64_t)a.nnzblocks == (int64_t)t.size(); i++) same("block_nonzeros", (int64_t)a.block_nonzeros((I_)i), t[i].first);
      release(a); release(s); return;
    }
    C3 s = make_coo3<C3>(m);
    switch (f) {
      case F_CSR: {
        C2 s2 = make_coo2<C2>(m);
        { Csr<T_, I_> a; build_again<C2>(a, [](auto &a, C2 &s) { Coo_to_Csr(&a, &s); }); Coo_to_Csr(&a, &s2); same("nonzeros()", (int64_t)a.nonzeros(), m.nnz()); same("rows", (int64_t)a.rows, m.rows); capture([&] { print_info(a); }); expect(" rows", m.rows); expect(" non-zeros", m.nnz());
          capture([&] { show(a); });
          if (m.rows <= 20) {
            std::vector<std::pair<std::pair<int64_t, int64_t>, double>> got, want = ents();
            long row = -1; for (const char *p = text.c_str(); *p;) { long c; double v; char *e; const char *nl = strchr(p, '\n'); if (!nl) nl = p + strlen(p); row = strtol(p, &e, 10); for (const char *q = e; q < nl && (q = (const char *)memchr(q, '(', nl - q)); q++) if (sscanf(q, "(%ld,%lf)", &c, &v) == 2) got.push_back({{row, c}, v}); p = *nl ? nl + 1 : nl; }
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            if (got != want) mc::report("listing", "CSR: the listing shows %zu entries or wrong ones, expected %zu", got.size(), want.size());
          }
          release(a); }
        { Csr2<T_, I_> a; build_again<C3>(a, [](auto &a, C3 &s) { Coo_to_Csr(&a, &s); }); Coo_to_Csr(&a, &s); strcpy(what, "CSR2"); same("nonzeros()", (int64_t)a.nonzeros(), m.nnz()); same("rows", (int64_t)a.rows, m.rows); capture([&] { print_info(a); }); expect(" rows", m.rows); expect(" non-zeros", m.nnz()); release(a); }
        { CompRowCsr<T_, I_> a; build_again<C3>(a, [](auto &a, C3 &s) { Coo_to_CrCsr(&a, &s); }); Coo_to_CrCsr(&a, &s); strcpy(what, "CompRowCsr"); same("nnz_rows_num", (int64_t)a.nnz_rows_num, filled_rows()); same("nonzeros()", (int64_t)a.nonzeros(), m.nnz()); release(a); }
        release(s2);
      } break;
      case F_CSWR: if (sit == 0) do_cswr<uint8_t>(&s, width); else if (sit == 1) do_cswr<uint16_t>(&s, width); else if (sit == 2) do_cswr<uint32_t>(&s, width); else do_cswr<uint64_t>(&s, width); break;
      case F_CSBR_COO3: { Csbr<T_, I_> a; by_blocks(&a, &s); blocked_fields(a); offsets_same(a); capture([&] { print_info(a); }); blocked_report(false);
        auto t = true_counts(); for (size_t i = 0; i < t.size() && (int64_t)a.nnzblocks == (int64_t)t.size(); i++) same("block_nonzeros", (int64_t)a.block_nonzeros((I_)i), t[i].first);
        release(a); } break;
      case F_CSBR2: { Csbr2<T_, I_> a; by_blocks(&a, &s); blocked_fields(a); same("nonzeros()", (int64_t)a.nonzeros(), m.nnz()); capture([&] { print_info(a); }); blocked_report(false); release(a); } break;
      case F_CSBR3: if (sit == 0) do_csbr3<uint8_t>(&s); else if (sit == 1) do_csbr3<uint16_t>(&s); else if (sit == 2) do_csbr3<uint32_t>(&s); else do_csbr3<uint64_t>(&s); break;
      case F_CGBR: if (sit == 0) do_cgbr<uint8_t>(&s); else if (sit == 1) do_cgbr<uint16_t>(&s); else if (sit == 2) do_cgbr<uint32_t>(&s); else do_cgbr<uint64_t>(&s); break;
      case F_SINGLE: if (sit == 0) do_single<uint8_t>(&s); else if (sit == 1) do_single<uint16_t>(&s); else if (sit == 2) do_single<uint32_t>(&s); else do_single<uint64_t>(&s); break;
      case F_COUNT: {
        I_ *rr = give(ro), *cc = give(co);
        calculate_block_id(s.elements, s.nnz, rr, (I_)(ro.size() - 1), cc, (I_)(co.size() - 1));
        sort_elements_blocks(s.elements, s.nnz);
        same("count_blocks", (int64_t)count_blocks(s.elements, s.nnz), true_blocks(m, ro, co));
        sort_triplets(s.elements, s.nnz);
        same("count_nnz_rows", (int64_t)count_nnz_rows(s.elements, s.nnz), filled_rows());
        delete [] rr; delete [] cc;
      } break;
      default: { int bf = f - F_CGBR2_0; if (sit == 0) do_cgbr2<uint8_t>(&s, bf); else if (sit == 1) do_cgbr2<uint16_t>(&s, bf); else if (sit == 2) do_cgbr2<uint32_t>(&s, bf); else do_cgbr2<uint64_t>(&s, bf); }
    }
    release(s);
  });
  if (r != guard::RETURNED && (sit != 0)) mc::report("stopped", "%s: the program stopped: %s", what, guard::what);
  else if (r == guard::RETURNED && !mc::failed()) mc::validated();
}
}
