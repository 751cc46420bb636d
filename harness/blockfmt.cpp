// C02: every blocked representation, for every way of cutting the matrix, multiplies like the matrix.
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "spmv/omp/csbr.3.h"
#include "guard.h"
#include "blk.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}

typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

// ---- block factories a user could write, one block type each ----
enum { BF_DEFAULT, BF_COO, BF_CSR, BF_CSRPAR, BF_DENSE, BF_DENSEPAR, BF_ALT, BF_NUM };
template <class S> struct OneType : public BlockFactory<T_, I_> {
  int kind, n = 0;
  explicit OneType(int k) : kind(k) {}
  MatrixType create(BlockBase<T_, I_> **target, Element<T_, I_> *a, I_ rows, I_ columns, I_ nnz) {
    int k = kind == BF_ALT ? BF_COO + (n++ % 5) : kind;
    switch (k) {
      case BF_COO: *target = new Coo<T_, I_, S>(a, nnz); return BLOCK_COO;
      case BF_CSR: *target = new BlockCsrSerial<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR;
      case BF_CSRPAR: *target = new BlockCsrParallel<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR_PAR;
      case BF_DENSE: *target = new DenseSerial<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
      default: *target = new DenseParallel<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
    }
  }
};

enum { F_CSBR_COO2, F_CSBR_COO3, F_CSBR2, F_CSBR3, F_CGBR, F_CGBR2_0, F_CGBR2_L = F_CGBR2_0 + BF_NUM - 1, F_BCOO, F_BCOO2, F_BCSR, F_NUM };
static const char *fname[] = {"CSBR (from COO2)", "CSBR (from COO3)", "CSBR2", "CSBR3", "CGBR", "CGBR2 default", "CGBR2 coo", "CGBR2 csr", "CGBR2 csrpar",
                              "CGBR2 dense", "CGBR2 densepar", "CGBR2 mixed", "block COO", "block COO2", "block CSR"};

static Mat m;
static Offs ro, co;
static int64_t bs_r = 0, bs_c = 0;    // constant block sizes, 0 if by offsets
static bool shared_offsets;
static Sched use_later;
static char what[96];
static const char *SIG = "blocked-format";

static bool fits(int64_t mx, size_t sit) { return sit >= 8 || mx < (int64_t(1) << (8 * sit)); }

// construction that may stop; true if the matrix exists
template <class F> static bool build(size_t sit, F &&f) {
  auto r = guard::run(f);
  mc::step();
  if (r == guard::RETURNED) return true;
  if (sit == 0 || fits(max_local(m, ro, co, true, true), sit))
    mc::report("refused", "%s refused a matrix it can represent (%s %ldx%ld nnz %ld, rows %s columns %s): %s", what, m.desc, (long)m.rows, (long)m.cols,
               (long)m.nnz(), show(ro).c_str(), show(co).c_str(), guard::what);
  return false;
}
template <class A, class SRC> static void by_blocks(A *a, SRC *s) {
  build_again<SRC>(*a, [](A &a, SRC &s) { if (bs_r) Coo_to_Blocked(&a, &s, (I_)2, (I_)3); else Coo_to_Blocked(&a, &s, give(Offs{0, 1, (int64_t)s.rows}), (I_)2, give(Offs{0, 2, (int64_t)s.columns}), (I_)2); });
  if (bs_r) Coo_to_Blocked(a, s, (I_)bs_r, (I_)bs_c);
  else {
    I_ *r = give(ro), *c = shared_offsets ? r : give(co);
    Coo_to_Blocked(a, s, r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1));
  }
}
template <class F> static void multiply(bool poison, F &&f) {
  MultCheck k(m, poison);
  Sched keep = use_later;
  use(keep);
  k.run(SIG, what, f);
  mc::outcome(k.hash());
  if (!mc::failed()) mc::validated();
}

template <class S> static void do_cgbr(C3 *s, bool flipbal) {
  Cgbr<T_, I_, S> a;
  if (!build(sizeof(S), [&] { by_blocks(&a, s); })) return;
  if (flipbal) a.balanced = !a.balanced;
  bool dense = a.type_block_count[BLOCK_DENSE] != 0;
  multiply(!dense, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
  if (!mc::failed()) {
    strcat(what, " serial");
    MultCheck k(m, !dense);
    k.run(SIG, what, [&](T_ const *x, T_ *y) { a.spmv_serial(x, y); }, 1);
  }
  release(a);
}
template <class S> static void do_cgbr2(C3 *s, int bf, bool flipbal) {
  Cgbr2<T_, I_, S> a;
  OneType<S> fac(bf);
  bool ok = build(sizeof(S), [&] {
    if (bf == BF_DEFAULT) by_blocks(&a, s);
    else {
      build_again<C3>(a, [&](Cgbr2<T_, I_, S> &a, C3 &s) { OneType<S> f((bf + 1 - BF_COO) % 5 + BF_COO); Coo_to_Cgbr(&a, &s, give(Offs{0, 1, (int64_t)s.rows}), (I_)2, give(Offs{0, 2, (int64_t)s.columns}), (I_)2, f); });
      I_ *r = give(ro), *c = shared_offsets ? r : give(co);
      Coo_to_Cgbr(&a, s, r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1), fac);
    }
  });
  if (!ok) return;
  if (flipbal) a.balanced = !a.balanced;
  multiply(a.type_block_count[BLOCK_DENSE] == 0, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
  release(a);
}
template <class S> static void do_csbr3(C3 *s) {
  Csbr3<T_, I_, S> a;
  if (!build(sizeof(S), [&] { build_again<C3>(a, [](Csbr3<T_, I_, S> &a, C3 &s) { Coo_to_Blocked(&a, &s, (I_)2, (I_)2); }); Coo_to_Blocked(&a, s, (I_)bs_r, (I_)bs_r); })) return;
  multiply(true, [&](T_ const *x, T_ *y) { spmv_balanced(&a, x, y); });
  release(a);
}
// a block on its own: the whole matrix is one block
template <class S> static void do_single(C3 *s, int f) {
  if (f == F_BCOO) {
    BlockCoo<T_, I_, S> a;
    if (build(sizeof(S), [&] { build_again<C3>(a, [](auto &a, C3 &s) { Coo_to_Coo(&a, s.elements, s.nnz); }); Coo_to_Coo(&a, s->elements, s->nnz); })) { multiply(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); }
  } else if (f == F_BCOO2) {
    BlockCoo2<T_, I_, S> a;
    if (build(sizeof(S), [&] { build_again<C3>(a, [](auto &a, C3 &s) { Coo_to_Coo(&a, s.elements, s.nnz); }); Coo_to_Coo(&a, s->elements, s->nnz); })) { multiply(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); }
  } else {
    BlockCsr<T_, I_, S> a;
    if (!build(sizeof(S), [&] { build_again<C3>(a, [](auto &a, C3 &s) { Coo_to_Csr(&a, s.elements, s.rows, s.columns, s.nnz, false); }); Coo_to_Csr(&a, s->elements, s->rows, s->columns, s->nnz, false); })) return;
    multiply(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
    MultCheck k(m, true);
    k.run(SIG, "block CSR serial", [&](T_ const *x, T_ *y) { a.spmv_serial(x, y); }, 1);
    release(a);
  }
}
template <class S> static void with_sit(int f, C3 *s, bool flipbal) {
  if (f == F_CGBR) do_cgbr<S>(s, flipbal);
  else if (f == F_CSBR3) do_csbr3<S>(s);
  else if (f >= F_CGBR2_0 && f <= F_CGBR2_L) do_cgbr2<S>(s, f - F_CGBR2_0, flipbal);
  else do_single<S>(s, f);
}

void mc_body() {
  mcomp::reset();
  m = Mat(); ro.clear(); co.clear(); bs_r = bs_c = 0; shared_offsets = false;
  int f = mc::choose(F_NUM);
  bool has_sit = f >= F_CSBR3, consts_only = f == F_CSBR3, single = f >= F_BCOO, no_const = f > F_CGBR2_0 && f <= F_CGBR2_L;
  bool has_bal = f == F_CSBR_COO2 || f == F_CSBR_COO3 || (f >= F_CGBR && f <= F_CGBR2_L);
  int fam = mc::choose(5);
  int sit = has_sit ? mc::choose(4) : 2;
  bool constant = single ? false : consts_only ? true : no_const ? false : mc::flip();
  if (fam == 0) {            // every entry list x every boundary list
    int r = mc::range(1, lite() ? 2 : 3), c = mc::range(1, lite() ? 2 : 3);
    mc::shard();
    m = gen_tiny_dims(r, c, mc::thorough ? 3 : 2);
    if (single) { ro = Offs{0, r}; co = Offs{0, c}; }
    else if (constant) { bs_r = mc::range(1, r + 1); bs_c = consts_only ? bs_r : mc::range(1, c + 1); }
    else { ro = offs_any(r); co = offs_any(c); }
  } else if (fam == 1) {     // every pattern x every strict boundary list
    static const int d[][2] = {{1, 4}, {4, 1}, {2, 3}, {3, 2}, {4, 2}, {2, 4}, {3, 3}};
    auto &p = d[mc::choose(mc::thorough ? 7 : lite() ? 2 : 4)];
    mc::shard();
    m = gen_pattern(p[0], p[1]);
    if (single) { ro = Offs{0, p[0]}; co = Offs{0, p[1]}; }
    else if (constant) { bs_r = mc::range(1, p[0]); bs_c = consts_only ? bs_r : mc::range(1, p[1]); }
    else { ro = offs_strict(p[0]); co = offs_strict(p[1]); }
  } else if (fam == 2) {     // structured
    static const int nq[] = {7, 16, 17, 33, 64, 257}, nt[] = {6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 300};
    static const int nl[] = {33};
    int n = mc::thorough ? mc::pick(nt) : lite() ? mc::pick(nl) : mc::pick(nq);
    int shape = mc::choose(3);
    mc::shard();
    int64_t rows = shape == 1 ? 5 : n, cols = shape == 2 ? 4 : n;
    int pat = mc::choose(P_NUM);
    if (pat == P_FULL && n > 64) mc::prune();
    m = gen_struct(rows, cols, pat, mc::choose(2) ? O_ROW : O_MIX);
    if (single) { ro = Offs{0, rows}; co = Offs{0, cols}; }
    else if (constant) {
      static const int b[] = {1, 2, 3, 7, 16, 100, 256, 1000};
      bs_r = mc::pick(b);
      bs_c = consts_only ? bs_r : mc::flip() ? bs_r : 5;
      if (n > 65 && (bs_r < 3 || bs_c < 3)) mc::prune();
    } else {
      int k = mc::choose(OF_NUM);
      ro = offs_family(rows, k);
      if (shape == 0) { bool same = mc::flip(); co = same ? ro : offs_family(cols, (k + 4) % OF_NUM); if (same) shared_offsets = mc::flip(); }
      else co = offs_family(cols, mc::flip() ? OF_ONE : (k + 3) % OF_NUM);
    }
  } else if (fam == 4) {     // more blocks, rows or entries than 16 bits can count
    if (lite() || (has_sit && sit != 2)) mc::prune();
    int k = mc::choose(BIG_NUM + !lite());
    mc::shard();
    m = big_blocks(k, ro, co);
    if (f >= F_CGBR2_0 + BF_DENSE && f <= F_CGBR2_L && k >= BIG_HALVES) mc::prune();
    if (single) { ro = Offs{0, m.rows}; co = Offs{0, m.cols}; }
    else if (constant) { bs_r = k == BIG_ROWS ? 1 : k == BIG_COLS ? 3 : m.rows / 2; bs_c = k == BIG_ROWS ? 3 : k == BIG_COLS ? 1 : m.cols; if (consts_only) bs_c = bs_r; }
  } else {                   // blocks around the limits of the small index types
    if (!has_sit) mc::prune();
    static const int64_t n8[] = {255, 256, 257, 258}, n16[] = {65535, 65536, 65537};
    if (sit > 1) mc::prune();
    int64_t big = sit == 0 ? mc::pick(n8) : mc::pick(n16);
    mc::shard();
    bool wide = mc::flip();
    int64_t rows = wide ? 4 : 2 * big, cols = wide ? 2 * big : 4;
    if (f >= F_CGBR2_0 + BF_DENSE && f <= F_CGBR2_L && sit == 1) mc::prune();
    m.rows = rows; m.cols = cols;
    snprintf(m.desc, sizeof m.desc, "limit");
    int at = mc::choose(4);   // entries at the last, first or both ends of the blocks
    int64_t B = big;
    auto add = [&](int64_t i) { if (i < 2 * B) m.e.push_back(wide ? Ent{(int64_t)m.e.size() % 4, i, gen_val(m.e.size())} : Ent{i, (int64_t)m.e.size() % 4, gen_val(m.e.size())}); };
    if (at == 0 || at == 2) { add(B - 1); add(0); }
    if (at == 1 || at == 2) { add(2 * B - 1); add(B); }
    if (at == 3) { add(B - 2); add(B - 1); add(2 * B - 2); for (int i = 0; i < 40; i++) add(i * 3); }
    if (single) { ro = Offs{0, rows}; co = Offs{0, cols}; }
    else if (constant) { bs_r = consts_only ? B : wide ? 4 : B; bs_c = consts_only ? B : wide ? B : 4; }
    else { ro = wide ? Offs{0, 4} : Offs{0, B, 2 * B}; co = wide ? Offs{0, B, 2 * B} : Offs{0, 4}; }
  }
  if (constant) {
    if (consts_only) {
      ro = Offs{0}; for (int64_t i = bs_r; i < m.rows; i += bs_r) ro.push_back(i); ro.push_back(m.rows);
      co = Offs{0}; for (int64_t i = bs_r; i < m.cols; i += bs_r) co.push_back(i); co.push_back(m.cols);
    } else { ro = offs_const(m.rows, bs_r); co = offs_const(m.cols, bs_c); }
  }
  again = fam == 1 || fam == 4 || (fam == 0 && (m.nnz() > 2 || m.rows > 2 || m.cols > 2)) || (fam == 2 && (m.rows != 33 || lite())) ? 0 : mc::choose(mc::thorough || fam == 2 ? 3 : 2);
  bool flipbal = has_bal && !again && mc::flip();
  Sched build_with{1, mcomp::FIRST};
  if (fam == 4 && !mc::thorough) build_with = Sched{2, mcomp::ROUND_ROBIN};
  else if (fam != 0 || mc::thorough) { static const Sched b[] = {{1, mcomp::FIRST}, {2, mcomp::ROUND_ROBIN}, {8, mcomp::LAST}}; build_with = mc::pick(b); }
  else { static const Sched b[] = {{1, mcomp::FIRST}, {5, mcomp::ROUND_ROBIN}}; build_with = mc::pick(b); }
  if (fam == 4 && !mc::thorough) { static const Sched b[] = {{1, mcomp::FIRST}, {67, mcomp::LAST}}; use_later = mc::pick(b); }
  else if (flipbal || (f >= F_CGBR && f <= F_CGBR2_L)) use_later = pick_sched(mc::thorough && fam == 2);
  else { static const Sched b[] = {{1, mcomp::FIRST}, {3, mcomp::LAST}}; use_later = mc::pick(b); }
  use(build_with);
  static const size_t sits[] = {1, 2, 4, 8};
  snprintf(what, sizeof what, "%s%s%d", fname[f], has_sit ? " small index bytes " : " ", has_sit ? (int)sits[sit] : 0);
  m.show();
  MC_LOG("%s rows %s columns %s constant %ld %ld, balanced flag %s, earlier use %d, built with %d", what, show(ro).c_str(), show(co).c_str(), (long)bs_r, (long)bs_c,
         flipbal ? "flipped" : "kept", again, build_with.threads);
  uint64_t h = mc::mix(m.hash(), f * 8 + sit + 1000 * again);
  for (auto v : ro) h = mc::mix(h, v);
  for (auto v : co) h = mc::mix(h, v + 1000);
  mc::state(h);
  if (f == F_CSBR_COO2) {
    C2 s = make_coo2<C2>(m);
    Csbr<T_, I_> a;
    if (build(0, [&] { by_blocks(&a, &s); })) {
      if (flipbal) a.balanced = !a.balanced;
      multiply(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      release(a);
    }
    release(s);
    return;
  }
  C3 s = make_coo3<C3>(m);
  if (f == F_CSBR_COO3) {
    Csbr<T_, I_> a;
    if (build(0, [&] { if (bs_r) Coo_to_Csbr(&a, &s, (I_)bs_r, (I_)bs_c); else by_blocks(&a, &s); })) {
      if (flipbal) a.balanced = !a.balanced;
      multiply(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      release(a);
    }
  } else if (f == F_CSBR2) {
    Csbr2<T_, I_> a;
    if (build(0, [&] { by_blocks(&a, &s); })) {
      multiply(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      release(a);
    }
  } else if (sit == 0) with_sit<uint8_t>(f, &s, flipbal);
  else if (sit == 1) with_sit<uint16_t>(f, &s, flipbal);
  else if (sit == 2) with_sit<uint32_t>(f, &s, flipbal);
  else with_sit<uint64_t>(f, &s, flipbal);
  release(s);
}
}
