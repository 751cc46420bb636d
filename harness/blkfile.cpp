// C12: blocked files load into matrices equal to the original.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.3.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "io/output.h"
#include "io/blocked.h"
#include <array>
#include <functional>
#include <memory>
#include "blk.h"
#include "guard.h"
#include "file.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() { stderr = fopen("/dev/null", "w"); }
typedef Coo3<T_, I_> C3;

static Mat m; static Offs ro, co; static bool flipbal; static Sched sc; static int build_workers, fam_;
static std::string path() { return std::string(mc::scratch()) + "/b.blk"; }

template <class F> static guard::Outcome guarded(F &&f) { guard::Outcome o = guard::run(f); mc::step(); return o; }

template <class A> static void load(const char *kind, bool dense, bool may_refuse, std::function<void(A &)> extra) {
  auto a = new A;                                        // left behind when the library stops the program
  if (fam_ == 2 || m.nnz() <= 2) again = (int)((m.nnz() + m.rows + ro.size()) % 3); else again = 0;      // some objects were used before
  build_again<C3>(*a, [](A &a, C3 &s) { Coo_to_Blocked(&a, &s, give(Offs{0, 1, (int64_t)s.rows}), (I_)2, give(Offs{0, 2, (int64_t)s.columns}), (I_)2); });
  I_ *r = give(ro), *c = give(co);
  int ret = 77;
  mcomp::set_threads(build_workers);
  guard::Outcome o = guarded([&] { ret = read_bin_blocked(a, path().c_str(), r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1)); });
  mc::outcome(mc::mix(o, ret + 100));
  if (may_refuse && (o != guard::RETURNED || ret < 0)) { mc::validated(); return; }
  if (may_refuse) { mc::report("index", "%s: indices that do not fit were accepted", kind); return; }
  if (o != guard::RETURNED || ret != 0) { mc::report("read", "%s: reading a correct file failed (%d, %d %s)", kind, ret, o, guard::what); return; }
  int64_t nb = true_blocks(m, ro, co);
  if ((int64_t)a->rows != m.rows || (int64_t)a->columns != m.cols || (int64_t)a->nnz != m.nnz() || (int64_t)a->blockrows != (int64_t)ro.size() - 1 || (int64_t)a->blockcols != (int64_t)co.size() - 1 || (int64_t)a->nnzblocks != nb) {
    mc::report("counts", "%s: reports %ldx%ld, %ld entries, %ldx%ld blocks, %ld non-empty; expected %ldx%ld, %ld, %zux%zu, %ld", kind, (long)a->rows, (long)a->columns, (long)a->nnz, (long)a->blockrows,
               (long)a->blockcols, (long)a->nnzblocks, (long)m.rows, (long)m.cols, (long)m.nnz(), ro.size() - 1, co.size() - 1, (long)nb);
    return;
  }
  use(sc);
  MultCheck k(m, !dense);
  if (!k.run("product", kind, [&](T_ const *x, T_ *y) { a->spmv(x, y); }, 2)) return;
  if (extra) extra(*a);
  if (mc::failed()) return;
  MultCheck q(m, !dense);
  if (!q.run("product", kind, [&](T_ const *x, T_ *y) { a->spmv(x, y); }, 1)) return;
  if (!mc::failed()) { release(*a); mc::step(); mc::validated(); }
  delete a;
}
template <class S> static void load_cgbr(const char *kind) {
  int64_t big = std::numeric_limits<S>::max() > (uint64_t)INT64_MAX ? INT64_MAX : (int64_t)std::numeric_limits<S>::max();
  bool too_big = max_local(m, ro, co, true, true) > big;
  if (!too_big && std::max(max_block(ro), max_block(co)) > big) mc::prune();      // may be refused or not: the entries fit, the block does not
  load<Cgbr<T_, I_, S>>(kind, true, too_big, [](Cgbr<T_, I_, S> &a) {
    int64_t blocks = 0, nz = 0;
    for (int i = 0; i < MATRIX_TYPE_NUM; i++) { blocks += (int64_t)a.type_block_count[i]; nz += (int64_t)a.type_nnz_count[i]; }
    if (blocks != (int64_t)a.nnzblocks || nz != m.nnz()) mc::report("statistics", "counts per type add up to %ld blocks and %ld entries, expected %ld and %ld", (long)blocks, (long)nz, (long)a.nnzblocks, (long)m.nnz());
    if (flipbal) a.balanced = !a.balanced;
    MultCheck s(m, false);
    s.run("product", "CGBR serial", [&](T_ const *x, T_ *y) { a.spmv_serial(x, y); }, 1);
  });
}
static std::string image(C3 const &t, int64_t nb) {
  std::string s;
  for (int64_t v : {m.rows, m.cols, m.nnz(), (int64_t)ro.size() - 1, (int64_t)co.size() - 1, nb}) put_bytes(s, (I_)v);
  for (int64_t i = 0; i < m.nnz(); i++) { put_bytes(s, t.elements[i].block); put_bytes(s, t.elements[i].row); put_bytes(s, t.elements[i].col); put_bytes(s, t.elements[i].val); }
  return s;
}

void mc_body() {
  mcomp::reset();
  m = Mat(); ro.clear(); co.clear(); flipbal = false;
  int fam = mc::choose(5);
  int kind = mc::choose(5);
  fam_ = fam;
  if (fam == 0) {                                        // every small matrix, every boundary list
    int r = mc::range(1, 3), c = mc::range(1, 3);
    m = gen_tiny_dims(r, c, mc::thorough ? 3 : 2);
    mc::shard();
    ro = offs_any(m.rows); co = offs_any(m.cols);
  } else if (fam == 1) {                                 // every pattern
    static const int s[][2] = {{2, 3}, {3, 2}, {1, 6}, {6, 1}, {2, 4}, {4, 2}, {3, 3}};
    int k = mc::choose(mc::thorough ? 7 : lite() ? 2 : 4);
    m = gen_pattern(s[k][0], s[k][1]);
    mc::shard();
    ro = offs_strict(m.rows); co = offs_strict(m.cols);
  } else if (fam == 2) {                                 // structured matrices
    static const int nq[] = {5, 17, 33, 100}, nt[] = {4, 5, 8, 16, 17, 31, 33, 64, 65, 100, 130};
    int n = mc::thorough ? mc::pick(nt) : nq[mc::choose(lite() ? 3 : 4)];
    int shape = mc::choose(3);
    int pat = mc::choose(P_NUM), ord = mc::choose(O_NUM);
    mc::shard();
    m = gen_struct(shape == 1 ? 7 : n, shape == 2 ? 7 : n, pat, ord, mc::flip() ? 0 : n * 4);
    int k = mc::choose(OF_NUM);
    ro = offs_family(m.rows, k); co = offs_family(m.cols, m.rows == m.cols ? k : (k + 2) % OF_NUM);
  } else if (fam == 4) {                                 // more blocks, rows or entries than 16 bits can count
    if (lite() || kind == 2 || kind == 4) mc::prune();
    int k = mc::choose(BIG_NUM + 1);
    mc::shard();
    m = big_blocks(k, ro, co);
  } else {                                               // limits of the small indices
    if (kind < 2) mc::prune();
    static const int ns[] = {255, 256, 257, 258, 300};
    int n = mc::pick(ns);
    static const int ps[] = {P_DIAG, P_CORNERS, P_ROWL, P_COLL, P_COL0};
    m = gen_struct(n, n, mc::pick(ps), O_MIX);
    mc::shard();
    ro = mc::flip() ? Offs{0, n} : Offs{0, 1, n}; co = mc::flip() ? Offs{0, n} : Offs{0, n - 1, n};
  }
  flipbal = kind >= 2 && mc::flip();
  build_workers = mc::flip() ? 4 : 1;
  static const Sched ss[] = {{1, mcomp::FIRST}, {2, mcomp::LAST}, {3, mcomp::ROUND_ROBIN}};
  sc = fam == 0 ? ss[mc::choose(2)] : ss[mc::choose(mc::thorough ? 3 : 2)];
  static const char *kn[] = {"CSBR", "CSBR2", "CGBR (8 bit)", "CGBR (16 bit)", "CGBR (64 bit)"};
  m.show();
  MC_LOG("%s, rows %s columns %s, built by %d workers, team %d, flip %d", kn[kind], show(ro).c_str(), show(co).c_str(), build_workers, sc.threads, flipbal);
  uint64_t h = mc::mix(m.hash(), kind * 8 + flipbal * 4 + build_workers + sc.threads * 64);
  for (auto v : ro) h = mc::mix(h, v);
  for (auto v : co) h = mc::mix(h, v + 1000);
  mc::state(h);

  // write the file as the tools do
  C3 t = make_coo3<C3>(m);
  { I_ *r = give(ro), *c = give(co);
    mcomp::set_threads(build_workers);
    guard::Outcome o = guarded([&] { calculate_block_id(t.elements, (I_)m.nnz(), r, (I_)(ro.size() - 1), c, (I_)(co.size() - 1)); sort_elements_blocks(t.elements, (I_)m.nnz()); });
    delete[] r; delete[] c;
    if (o != guard::RETURNED) { mc::report("blocks", "calculating blocks stopped: %s", guard::what); return; } }
  t.blockrows = (I_)(ro.size() - 1); t.blockcols = (I_)(co.size() - 1);
  t.nnzblocks = count_blocks(t.elements, (I_)m.nnz());
  int64_t nb = true_blocks(m, ro, co);
  if ((int64_t)t.nnzblocks != nb) { mc::report("blocks", "%ld non-empty blocks counted, expected %ld", (long)t.nnzblocks, (long)nb); return; }
  // the list must be the original, with the right block numbers, sorted by block
  std::vector<std::array<int64_t, 4>> x, y;
  for (auto &e : m.e) x.push_back({block_of(ro, e.r) * (int64_t)(co.size() - 1) + block_of(co, e.c), e.r, e.c, e.v});
  for (int64_t i = 0; i < m.nnz(); i++) { auto &e = t.elements[i]; y.push_back({(int64_t)e.block, (int64_t)e.row, (int64_t)e.col, unmval(e.val)}); if (i && t.elements[i - 1].block > e.block) mc::report("blocks", "the list is not sorted by block"); }
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  if (x != y) { mc::report("blocks", "the block-sorted list is not the original matrix"); return; }
  int ret = 77;
  guard::Outcome o = guarded([&] { ret = write_bin_blocked(t, path().c_str()); });
  if (o != guard::RETURNED || ret != 0) { mc::report("write", "writing failed: %d", ret); return; }
  std::string want = image(t, nb);
  if (slurp_file(path()) != want) { mc::report("layout", "the blocked file differs from the documented layout"); return; }
  if (mc::failed()) return;
  release(t);
  switch (kind) {
    case 0: load<Csbr<T_, I_>>(kn[0], false, false, nullptr); break;
    case 1: load<Csbr2<T_, I_>>(kn[1], false, false, nullptr); break;
    case 2: load_cgbr<uint8_t>(kn[2]); break;
    case 3: load_cgbr<uint16_t>(kn[3]); break;
    case 4: load_cgbr<uint64_t>(kn[4]); break;
  }
  if (!mc::failed() && slurp_file(path()) != want) mc::report("input", "reading changed the file");
}
}
