// C04: the chunks of a block-row cover its blocks exactly once, in order, and are cut by the fair-share rule.
#include "typedefs.h"
#include "generic/csr.h"
#include "generic/coo.h"
#include "generic/gsb.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csbr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "blk.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

static int workers;
static char what[64];

template <class A> static void check_row(A *a, BlockRowPartition<I_> &p, int64_t s, int64_t e, int64_t nnz) {
  std::vector<int64_t> c(p.chunks.begin(), p.chunks.end()), nz;
  MC_LOG("block-row [%ld,%ld) chunks %s", (long)s, (long)e, show(c).c_str());
  auto bad = [&](const char *sig, const char *why) {
    std::string z;
    for (int64_t b = s; b < e; b++) z += (z.empty() ? "" : ",") + std::to_string((long)a->block_nonzeros((I_)b));
    mc::report(sig, "%s: %s: block-row is blocks [%ld,%ld) with non-zeros %s of %ld, %d workers, chunks %s", what, why, (long)s, (long)e, z.c_str(), (long)nnz, workers, show(c).c_str());
  };
  if (c.size() < 2 || (int64_t)p.nchunks() != (int64_t)c.size() - 1) return bad("cover", "wrong number of chunks");
  if (c.front() != s) return bad("cover", "does not begin at the first block");
  if (c.back() != e) return bad("cover", "does not end after the last block");
  for (size_t i = 1; i < c.size(); i++) if (c[i] < c[i - 1]) return bad("cover", "chunks are not in order");
  const int64_t share = (int64_t)PARTITION_FACTOR * nnz / ((int64_t)PARTITION_FACTOR_INV * workers);
  for (size_t i = 0; i + 1 < c.size(); i++) {
    bool last = i + 2 == c.size();
    int64_t all = 0, inner = 0;
    for (int64_t b = c[i]; b < c[i + 1]; b++) {
      int64_t n = a->block_nonzeros((I_)b);
      all += n;
      if (b != c[i] && !(last && b == c[i + 1] - 1)) inner += n;
    }
    if (!last && all + (int64_t)a->block_nonzeros((I_)c[i + 1]) <= share) return bad("share", "a chunk was closed although the next block fits its share");
    if (inner > share) return bad("share", "a chunk holds more than its share");
  }
}
template <class A> static void check_all(A *a, Mat const &m, Offs const &ro, Offs const &co) {
  int64_t b = 0;
  std::vector<std::set<int>> filled(ro.size());
  for (auto &e : m.e) filled[block_of(ro, e.r)].insert(block_of(co, e.c));
  for (size_t br = 0; br + 1 < ro.size(); br++) {
    int64_t end = b + (int64_t)filled[br].size();
    if ((int64_t)a->blockrow_ptr[br] != b || (int64_t)a->blockrow_ptr[br + 1] != end) { mc::report("cover", "%s: block-row %zu does not hold its blocks", what, br); return; }
    check_row(a, a->partition[br], b, end, m.nnz());
    mc::step();
    b = end;
  }
  // any range of blocks can be partitioned
  if (mc::failed()) return;
  static const int wmore[] = {1, 2, 3, 4, 5, 6, 7, 8, 16, 33, 1000};
  if (b <= 16) for (int w : wmore) for (int64_t s = 0; s <= b; s++)
    for (int64_t e = s; e <= b; e++) {
      mcomp::set_threads(workers = w);
      BlockRowPartition<I_> p;
      p.chunks.assign(3, (I_)99);
      partition_blockrow(a, &p, (I_)s, (I_)e);
      check_row(a, p, s, e, m.nnz());
      mc::step();
      if (mc::failed()) return;
    }
}

// Block-rows of a CSBR matrix whose blocks claim to hold any number of non-zeros: the partition depends on nothing else.
static void heavy() {
  static const int w[] = {1, 2, 3, 7, 67, 1000};
  static const int64_t tot[] = {1, 7, 1000, 65535, 65537, 16777217, 33554435, 2147483647, 4294967295LL, 1099511627779LL, 9007199254740993LL, 2305843009213693951LL};
  workers = mc::pick(w);
  int64_t nnz = mc::pick(tot);
  mc::shard();
  if (nnz > (int64_t)(std::numeric_limits<I_>::max() / PARTITION_FACTOR)) mc::prune();
  mcomp::set_threads(workers);
  const int64_t share = (int64_t)PARTITION_FACTOR * nnz / ((int64_t)PARTITION_FACTOR_INV * workers);
  int n = mc::range(1, mc::thorough ? 6 : 5);
  const int64_t alpha[] = {0, 1, share / 2, share - share / 2, share, share + 1, nnz};
  std::vector<I_> ptr(2 * n, 0), col(n), rowp{0, (I_)n}, ro{0, 1}, co(n + 1);
  int64_t left = nnz;
  for (int i = 0; i < n; i++) {
    int64_t v = alpha[mc::choose(7)];
    if (v == nnz) v = left;                       // all the rest
    if (v > left || v < 0) mc::prune();
    left -= v; ptr[2 * i + 1] = (I_)v; col[i] = (I_)i; co[i + 1] = (I_)(i + 1);
  }
  std::vector<Csr<T_, I_>> blk(n);
  for (int i = 0; i < n; i++) { memset((void *)&blk[i], 0, sizeof blk[i]); blk[i].rows = 1; blk[i].row_ptr = &ptr[2 * i]; }
  Csbr<T_, I_> a;
  a.blocks = blk.data(); a.blockrow_ptr = rowp.data(); a.blockcol_ind = col.data(); a.blockrow_offset = ro.data(); a.blockcol_offset = co.data();
  a.blockrows = 1; a.blockcols = (I_)n; a.nnzblocks = (I_)n; a.rows = 1; a.columns = (I_)n; a.nnz = (I_)nnz; a.col_ind = nullptr; a.val = nullptr; a.partition = nullptr;
  snprintf(what, sizeof what, "CSBR (%d blocks)", n);
  mc::state(mc::mix(mc::hash_bytes(ptr.data(), ptr.size() * sizeof(I_)), mc::mix(nnz, workers)));
  uint64_t h = 0;
  for (int s = 0; s <= n; s++) for (int e = s; e <= n; e++) {
    BlockRowPartition<I_> p;
    partition_blockrow(&a, &p, (I_)s, (I_)e);
    check_row(&a, p, s, e, nnz);
    h = mc::mix(h, p.chunks.size());
    mc::step();
    if (mc::failed()) return;
  }
  mc::outcome(h); mc::validated();
}

void mc_body() {
  mcomp::reset();
  int f = mc::choose(5);
  if (f == 4) return heavy();
  static const char *fn[] = {"CSBR", "CSBR (COO3)", "CGBR", "CGBR2"};
  snprintf(what, sizeof what, "%s", fn[f]);
  Mat m;
  Offs ro{0}, co{0};
  int fam = mc::choose(3);
  if (fam == 2) {              // counters beyond 16 bits
    static const int w[] = {1, 5, 67};
    workers = mc::pick(w);
    int k = mc::choose(BIG_NUM);
    if ((f == 3 && k == BIG_HALVES) || (workers == 67 && k != BIG_SPARSE)) mc::prune();        // blocks too large for its index type
    mc::shard();
    m = big_blocks(k, ro, co);
  } else if (fam == 0) {       // every distribution of non-zeros over few blocks
    static const int shapesq[][2] = {{1, 5}, {2, 2}, {2, 3}, {4, 1}}, shapest[][2] = {{1, 7}, {2, 4}, {4, 2}, {3, 3}};
    auto &sh = mc::thorough ? mc::pick(shapest) : mc::pick(shapesq);
    static const int w[] = {1, 3, 8};
    workers = mc::pick(w);
    mc::shard();
    static const int cq[] = {0, 1, 2, 5, 12}, ct[] = {0, 1, 2, 3, 6, 12};
    int R = sh[0], C = sh[1], bw = 4;
    m.rows = R * bw; m.cols = C * bw;
    for (int i = 0; i < R * C; i++) {
      int n = mc::thorough && R * C <= 8 ? mc::pick(ct) : mc::pick(cq);
      for (int k = 0; k < n; k++) m.e.push_back(Ent{(i / C) * bw + (k / bw) % bw, (i % C) * bw + k % bw, gen_val(k)});
    }
    for (int i = 1; i <= R; i++) ro.push_back(i * bw);
    for (int i = 1; i <= C; i++) co.push_back(i * bw);
  } else {                     // structured matrices
    static const int n[] = {1, 2, 5, 16, 33, 100};
    int k = mc::pick(n), pat = mc::choose(P_NUM), fam = mc::choose(OF_NUM);
    static const int w[] = {1, 2, 3, 7, 16, 65};
    workers = mc::pick(w);
    mc::shard();
    m = gen_struct(k, k, pat, O_ROW);
    ro = offs_family(k, fam);
    co = mc::flip() ? ro : offs_family(k, (fam + 3) % OF_NUM);
  }
  MC_LOG("%s, %d workers, rows %s columns %s", what, workers, show(ro).c_str(), show(co).c_str());
  m.show();
  mc::state(mc::mix(mc::mix(m.hash(), mc::hash_bytes(ro.data(), 8 * ro.size())), workers * 4 + f));
  mcomp::set_threads(workers);
  I_ nr = (I_)(ro.size() - 1), nc = (I_)(co.size() - 1);
  uint64_t h = 0;
  if (f == 0) {
    C2 s = make_coo2<C2>(m);
    Csbr<T_, I_> a;
    Coo_to_Csbr(&a, &s, give(ro), nr, give(co), nc);
    check_all(&a, m, ro, co);
    for (size_t i = 0; i < nr; i++) h = mc::mix(h, a.partition[i].chunks.size());
    release(a); release(s);
  } else {
    C3 s = make_coo3<C3>(m);
    if (f == 1) { Csbr<T_, I_> a; Coo_to_Csbr(&a, &s, give(ro), nr, give(co), nc); check_all(&a, m, ro, co); for (size_t i = 0; i < nr; i++) h = mc::mix(h, a.partition[i].chunks.size()); release(a); }
    else if (f == 2) { Cgbr<T_, I_, uint64_t> a; Coo_to_Cgbr(&a, &s, give(ro), nr, give(co), nc); check_all(&a, m, ro, co); for (size_t i = 0; i < nr; i++) h = mc::mix(h, a.partition[i].chunks.size()); release(a); }
    else { Cgbr2<T_, I_, uint16_t> a; Coo_to_Blocked(&a, &s, give(ro), nr, give(co), nc); check_all(&a, m, ro, co); for (size_t i = 0; i < nr; i++) h = mc::mix(h, a.partition[i].chunks.size()); release(a); }
    release(s);
  }
  mc::outcome(h);
  if (!mc::failed()) mc::validated();
}
}
