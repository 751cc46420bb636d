// C06: building, using and releasing is memory safe, uses no uninitialised data, and gives everything back.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "spmv/omp/csbr.3.h"
#include <functional>
#include <memory>
#include "blk.h"
#include "capture.h"
#include "ledger.h"
namespace vp {

#if __has_feature(memory_sanitizer)
static const bool msan = true;      // the C++ library is not instrumented: streams cannot be used
#else
static const bool msan = false;
#endif
const char *mc_name = HNAME;
double mc_exec_limit = 10;
typedef Coo<T_, I_, I_> C1;
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

void mc_setup() { ledger_setup(); }
template <class S> struct OneType : public BlockFactory<T_, I_> {
  int kind, n = 0;
  explicit OneType(int k) : kind(k) {}
  MatrixType create(BlockBase<T_, I_> **target, Element<T_, I_> *a, I_ rows, I_ columns, I_ nnz) {
    switch (kind == 5 ? n++ % 5 : kind) {
      case 0: *target = new Coo<T_, I_, S>(a, nnz); return BLOCK_COO;
      case 1: *target = new BlockCsrSerial<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR;
      case 2: *target = new BlockCsrParallel<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR_PAR;
      case 3: *target = new DenseSerial<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
      default: *target = new DenseParallel<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
    }
  }
};

enum { O_CSR, O_CSR2, O_CSWR, O_CRCSR, O_DENSE, O_COO, O_COO2, O_COO3, O_COOE, O_BCOO, O_BCOO2, O_BCSR, O_CLASSES,
       O_CSBR, O_CSBR2, O_CSBR3, O_CGBR16, O_CGBR64, O_CGBR2, O_CGBR2ONE, OBJ_NUM };
static const char *oname[] = {"CSR", "CSR2", "CSWR", "compressed-row CSR", "dense", "COO", "COO2", "COO3", "COO from elements", "block COO", "block COO2", "block CSR", "block classes",
                              "CSBR", "CSBR2", "CSBR3", "CGBR (16 bit)", "CGBR (64 bit)", "CGBR2", "CGBR2 with a factory"};
struct Obj {
  const char *name; bool dense = true;
  std::function<void(T_ const *, T_ *)> mult, serial;
  std::function<void()> info, drop;
};
static Mat m;
static Offs ro, co;
static int64_t cs = 0;      // constant block size
static bool shared_offsets;
static int bf; static I_ width;
static bool flipbal;

template <class A> static Obj object(const char *n, std::shared_ptr<A> a, bool dense = false) {
  Obj o; o.name = n; o.dense = dense;
  o.drop = [a]() { Lib l; release(*a); };
  (void)0;
  return o;
}
static void args(I_ *&r, I_ &nr, I_ *&c, I_ &nc) { r = give(ro); nr = (I_)(ro.size() - 1); c = shared_offsets ? r : give(co); nc = (I_)(co.size() - 1); }
template <class A, class S> static void build_blocked(A *a, S *s) {
  if (cs) Coo_to_Blocked(a, s, (I_)cs, (I_)cs);
  else { I_ *r, *c, nr, nc; args(r, nr, c, nc); Coo_to_Blocked(a, s, r, nr, c, nc); }
}
template <class A> static void with_info(Obj &o, std::shared_ptr<A> a) { o.info = [a]() { Lib l; print_info(*a); }; }
template <class A> static void with_spmv(Obj &o, std::shared_ptr<A> a) { o.mult = [a](T_ const *x, T_ *y) { Lib l; a->spmv(x, y); }; }
template <class A> static void with_serial(Obj &o, std::shared_ptr<A> a) { o.serial = [a](T_ const *x, T_ *y) { Lib l; a->spmv_serial(x, y); }; }

static std::shared_ptr<void> place;         // the object to build in again, once it has been released
static bool keep_place;
template <class A> static std::shared_ptr<A> object_for() {
  if (place) return std::static_pointer_cast<A>(place);
  auto a = std::make_shared<A>(); if (keep_place) place = a;
  return a;
}
#define NEW(...) auto a = object_for<__VA_ARGS__>(); Obj o = object(oname[k], a)
#define BUILD(...) { Lib l; __VA_ARGS__; }
template <class S> static Obj make(int k, S *s) {
  constexpr bool is3 = std::is_same<S, C3>::value;
  switch (k) {
    case O_CSR: { NEW(Csr<T_, I_>); BUILD(Coo_to_Csr(a.get(), s)) with_spmv(o, a); with_serial(o, a); if (!msan) with_info(o, a); return o; }
    case O_CSR2: { NEW(Csr2<T_, I_>); BUILD(Coo_to_Csr(a.get(), s)) with_spmv(o, a); with_serial(o, a); if (!msan) with_info(o, a); return o; }
    case O_CSWR: { NEW(Cswr<T_, I_, uint16_t>); BUILD(Coo_to_Cswr(a.get(), s, width)) with_spmv(o, a); with_info(o, a); return o; }
    case O_CRCSR: {
      NEW(CompRowCsr<T_, I_>); BUILD(Coo_to_CrCsr(a.get(), s))
      o.mult = [a](T_ const *x, T_ *y) { Lib l; spmv(a.get(), x, y); }; o.serial = [a](T_ const *x, T_ *y) { Lib l; spmv_serial(a.get(), x, y); };
      return o;
    }
    case O_DENSE: { NEW(BlockDense<T_, I_>); o.dense = true; BUILD(Coo_to_Dense(a.get(), s)) with_spmv(o, a); with_serial(o, a); return o; }
    case O_COO: {
      NEW(C1); BUILD(Coo_to_Coo(a.get(), s)) with_spmv(o, a);
      if (flipbal) { C1 *p; { Lib l; p = new C1; Coo_to_Coo(p, s); } o.mult = [p](T_ const *x, T_ *y) { Lib l; p->spmv(x, y); }; release(*a); o.drop = [p]() { Lib l; delete p; }; }
      return o;
    }
    case O_COO2: { NEW(C2); BUILD(Coo_to_Coo(a.get(), s)) with_spmv(o, a); if (!msan) o.info = [a]() { Lib l; show(*a); }; return o; }
    case O_COO3: { NEW(C3); BUILD(Coo_to_Coo(a.get(), s)) with_spmv(o, a); if (!msan) o.info = [a]() { Lib l; show(*a); }; return o; }
    case O_COOE: {
      C3 t = make_coo3<C3>(m);
      C1 *p; { Lib l; p = new C1(t.elements, t.nnz); }
      release(t);
      Obj o; o.name = oname[k]; o.dense = false; o.mult = [p](T_ const *x, T_ *y) { Lib l; p->spmv(x, y); };
      o.drop = [p]() { Lib l; if (flipbal) delete (BlockBase<T_, I_> *)p; else { release(*p); delete p; } };
      return o;
    }
    case O_BCOO: { NEW(BlockCoo<T_, I_, uint16_t>); C3 t = make_coo3<C3>(m); BUILD(Coo_to_Coo(a.get(), t.elements, t.nnz)) release(t); with_spmv(o, a); return o; }
    case O_BCOO2: { NEW(BlockCoo2<T_, I_, uint16_t>); C3 t = make_coo3<C3>(m); BUILD(Coo_to_Coo(a.get(), t.elements, t.nnz)) release(t); with_spmv(o, a); return o; }
    case O_BCSR: { NEW(BlockCsr<T_, I_, uint16_t>); C3 t = make_coo3<C3>(m); BUILD(Coo_to_Csr(a.get(), t.elements, t.rows, t.columns, t.nnz, false)) release(t); with_spmv(o, a); with_serial(o, a); return o; }
    case O_CLASSES: {
      C3 t = make_coo3<C3>(m);
      std::stable_sort(t.elements, t.elements + t.nnz, [](auto &a, auto &b) { return a.row != b.row ? a.row < b.row : a.col < b.col; });   // as blocks are handed over
      BlockBase<T_, I_> *p; { Lib l; OneType<uint16_t> f(bf % 5); f.create(&p, t.elements, t.rows, t.columns, t.nnz); }
      release(t);
      Obj o; o.name = oname[k]; o.mult = [p](T_ const *x, T_ *y) { Lib l; p->spmv(x, y); }; o.drop = [p]() { Lib l; delete p; };
      return o;
    }
    case O_CSBR: { NEW(Csbr<T_, I_>); BUILD(build_blocked(a.get(), s)) if (flipbal) a->balanced = !a->balanced; with_spmv(o, a); with_info(o, a); return o; }
    case O_CSBR2: if constexpr (is3) { NEW(Csbr2<T_, I_>); BUILD(build_blocked(a.get(), s)) with_spmv(o, a); with_info(o, a); return o; } break;
    case O_CSBR3: if constexpr (is3) {
      NEW(Csbr3<T_, I_, uint16_t>); I_ b = (I_)(cs ? cs : 2); BUILD(Coo_to_Blocked(a.get(), s, b, b)) o.mult = [a](T_ const *x, T_ *y) { Lib l; spmv_balanced(a.get(), x, y); }; with_info(o, a); return o;
    } break;
    case O_CGBR16: if constexpr (is3) { NEW(Cgbr<T_, I_, uint16_t>); o.dense = true; BUILD(build_blocked(a.get(), s)) if (flipbal) a->balanced = !a->balanced; with_spmv(o, a); with_serial(o, a); with_info(o, a); return o; } break;
    case O_CGBR64: if constexpr (is3) { NEW(Cgbr<T_, I_, uint64_t>); o.dense = true; BUILD(build_blocked(a.get(), s)) if (flipbal) a->balanced = !a->balanced; with_spmv(o, a); with_serial(o, a); with_info(o, a); return o; } break;
    case O_CGBR2: if constexpr (is3) { NEW(Cgbr2<T_, I_, uint16_t>); o.dense = true; BUILD(build_blocked(a.get(), s)) if (flipbal) a->balanced = !a->balanced; with_spmv(o, a); with_info(o, a); return o; } break;
    case O_CGBR2ONE: if constexpr (is3) {
      NEW(Cgbr2<T_, I_, uint16_t>); o.dense = true; OneType<uint16_t> f(bf);
      BUILD({ I_ *r, *c, nr, nc; args(r, nr, c, nc); Coo_to_Cgbr(a.get(), s, r, nr, c, nc, f); })
      if (flipbal) a->balanced = !a->balanced; with_spmv(o, a); with_info(o, a); return o;
    } break;
  }
  mc::prune();
}
static void use_object(Obj &o, bool info) {
  mc::phase = o.name;
  if (info && o.info) { Capture c; o.info(); c.close(); }
  MultCheck k(m, !o.dense);
  if (!k.run("memory", o.name, o.mult, 2)) return;
  if (o.serial) { MultCheck q(m, !o.dense); q.run("memory", o.name, o.serial, 1); }
  mc::outcome(k.hash());
}
static bool destroys(int k) { return k == O_CSBR || k >= O_CGBR16; }    // the source is consumed (CSBR: from COO2)

template <class S> static void life(S (*mk)(Mat const &), int ka, int kb, int order, bool info) {
  S *s;
  { Lib l; s = new S(mk(m)); }
  std::vector<Obj> os;
  mc::phase = oname[ka];
  os.push_back(make(ka, s));
  mc::step();
  use_object(os[0], info);
  if (kb >= 0 && !mc::failed()) { mc::phase = oname[kb]; os.push_back(make(kb, s)); mc::step(); use_object(os[1], info); if (!mc::failed()) use_object(os[0], false); }
  // release in every order; the remaining ones are still usable
  std::vector<int> left; for (int i = 0; i < (int)os.size(); i++) left.push_back(i);
  left.push_back(-1);
  while (!left.empty()) {
    int i = order % (int)left.size(); order /= (int)left.size();
    int who = left[i]; left.erase(left.begin() + i);
    MC_LOG("release %s", who < 0 ? "the source" : os[who].name);
    mc::phase = who < 0 ? "releasing the source" : os[who].name;
    if (who < 0) { { Lib l; release(*s); } delete s; } else os[who].drop();
    mc::step();
    for (int w : left) if (w >= 0 && !mc::failed()) { MultCheck k(m, !os[w].dense); k.run("memory", os[w].name, os[w].mult, 1); }
  }
  os.clear();
}

// the same object is built, used and released for one matrix after another
template <class S> static void rebuild(S (*mk)(Mat const &), int k, std::vector<Mat> const &ms) {
  keep_place = true;
  for (auto &q : ms) {
    if (mc::failed()) break;
    m = q; if (k >= O_CSBR && !cs) { static int fam; fam = (int)(m.nnz() % OF_NUM); if (m.rows < 6 && fam == OF_EMPTIES) fam = OF_HALF; ro = offs_family(m.rows, fam); co = offs_family(m.cols, fam == OF_EMPTIES ? OF_HALF : fam); }
    m.show(); MC_LOG("%s in the same object, rows %s columns %s constant %ld", oname[k], show(ro).c_str(), show(co).c_str(), (long)cs);
    mc::phase = oname[k];
    S *s; { Lib l; s = new S(mk(m)); }
    Obj o = make(k, s); mc::step();
    use_object(o, true);
    o.drop(); { Lib l; release(*s); } delete s;
  }
  place.reset(); keep_place = false;
}

void mc_body() {
  mcomp::reset(); place.reset(); keep_place = false;
  m = Mat(); ro.clear(); co.clear(); cs = 0; shared_offsets = false; bf = 0; width = 2; flipbal = false; mc::phase = "";
  ledger_reset();
  int fam = mc::choose(4);
  int ka = mc::choose(OBJ_NUM), kb = -1;
  bool three = true;
  if (ka <= O_CSBR) three = mc::flip();
  bool blk = ka >= O_CSBR;
  if (fam == 0) {
    int r = mc::range(1, 2), c = mc::range(1, 2);
    mc::shard();
    m = gen_tiny_dims(r, c, lite() ? 2 : 3);
  } else if (fam == 1) {
    static const int nq[] = {5, 17, 65}, nt[] = {4, 5, 16, 17, 33, 64, 65, 130};
    int n = mc::thorough ? mc::pick(nt) : nq[mc::choose(lite() ? 2 : 3)];
    int shape = mc::choose(3);
    mc::shard();
    m = gen_struct(shape == 1 ? 3 : n, shape == 2 ? 4 : n, mc::choose(P_NUM), mc::thorough ? mc::choose(O_NUM) : O_MIX);
  } else if (fam == 3) {
    if (ka == O_COOE || ka == O_CLASSES) mc::prune();     // objects that are created with their contents
    mc::shard();
    std::vector<Mat> ms; int n = mc::thorough ? 3 : mc::range(2, lite() ? 2 : 3);
    for (int i = 0; i < n; i++) { static const int p[][3] = {{5, 6, P_LCG}, {1, 1, P_EMPTY}, {9, 4, P_FULL}, {3, 3, P_CORNERS}, {30, 20, P_ONE_HEAVY}}; auto &q = p[mc::choose(5)]; ms.push_back(gen_struct(q[0], q[1], q[2], O_MIX)); }
    if (ka == O_CGBR2ONE) bf = mc::choose(6);
    if (ka >= O_CSBR && ka != O_CGBR2ONE && mc::flip()) cs = mc::range(1, 2);
    if (ka == O_CSBR || ka >= O_CGBR16) flipbal = mc::flip();
    use(mc::flip() ? Sched{2, mcomp::LAST} : Sched{1, mcomp::FIRST});
    uint64_t h = 3; for (auto &q : ms) h = mc::mix(h, q.hash());
    mc::state(mc::mix(mc::mix(h, ka * 64 + bf * 4 + flipbal * 2 + three), cs));
    if (three) rebuild<C3>([](Mat const &q) { return make_coo3<C3>(q); }, ka, ms);
    else rebuild<C2>([](Mat const &q) { return make_coo2<C2>(q); }, ka, ms);
    if (!mc::failed() && owned) mc::report("leak", "%ld objects remain after building %s in the same object %zu times and releasing it each time", owned, oname[ka], ms.size());
    if (!mc::failed()) mc::validated();
    return;
  } else {
    kb = mc::choose(OBJ_NUM);
    if (kb < ka && !mc::thorough) mc::prune();
    if (kb >= O_CSBR2 && !three) mc::prune();
    if (destroys(ka) && (ka != O_CSBR || !three)) mc::prune();   // nothing can be built from a consumed source
    blk = blk || kb >= O_CSBR;
    mc::shard();
    static const int p[] = {P_LCG, P_EMPTY, P_CORNERS};
    int i = mc::choose(4);
    m = i == 3 ? gen_struct(70, 60, P_LCG, O_MIX, 2300) : gen_struct(5, 6, p[i], O_MIX);
  }
  if (ka == O_CSWR) { static const int w[] = {1, 2, 3, 100}; width = (I_)mc::pick(w); }
  if (ka == O_CLASSES || ka == O_CGBR2ONE) bf = mc::choose(6);
  if (ka == O_COO || ka == O_COOE || ka == O_CSBR || ka >= O_CGBR16) flipbal = mc::flip();
  if (blk) {
    if (ka != O_CGBR2ONE && mc::flip()) { static const int b[] = {1, 2, 3, 64}; cs = mc::pick(b); if (m.rows > 60 && cs < 3) mc::prune(); ro = offs_const(m.rows, cs); co = offs_const(m.cols, cs); }
    else if (fam == 0) { ro = offs_any(m.rows); co = offs_any(m.cols); if (m.rows == m.cols && mc::flip()) { if (ro != co) mc::prune(); shared_offsets = true; } }
    else { int k = mc::choose(OF_NUM); ro = offs_family(m.rows, k); co = m.rows == m.cols ? ro : offs_family(m.cols, (k + 2) % OF_NUM); if (m.rows == m.cols) shared_offsets = mc::flip(); }
  }
  Sched s{1, mcomp::FIRST};
  if (fam != 0) { static const Sched q[] = {{1, mcomp::FIRST}, {3, mcomp::ROUND_ROBIN}}; s = mc::pick(q); } else if (mc::flip()) s = Sched{2, mcomp::LAST};
  int order = mc::choose(kb >= 0 ? 6 : 2);
  bool info = fam == 0 || order == 0;
  use(s);
  m.show();
  MC_LOG("%s then %s from COO%d, rows %s columns %s constant %ld shared %d, block type %d width %d flag %d, team %d, release order %d", oname[ka], kb < 0 ? "nothing" : oname[kb], three ? 3 : 2,
         show(ro).c_str(), show(co).c_str(), (long)cs, shared_offsets, bf, (int)width, flipbal, s.threads, order);
  uint64_t h = mc::mix(mc::mix(m.hash(), ka * 64 + kb + 1), order * 16 + bf * 2 + flipbal);
  for (auto v : ro) h = mc::mix(h, v);
  for (auto v : co) h = mc::mix(h, v + 1000);
  mc::state(mc::mix(h, cs * 64 + three * 2 + shared_offsets + s.threads * 5 + width * 77));
  if (three) life<C3>([](Mat const &q) { return make_coo3<C3>(q); }, ka, kb, order, info);
  else life<C2>([](Mat const &q) { return make_coo2<C2>(q); }, ka, kb, order, info);
  if (!mc::failed() && owned) {
    size_t n = 0; for (size_t i = 0; i < LN; i++) if (ledger[i] > 1) n += size_[i];
    mc::report("leak", "%ld objects (%zu bytes) remain after everything was released: %s%s%s from COO%d (%s %ldx%ld nnz %ld)", owned, n, oname[ka], kb < 0 ? "" : " and ", kb < 0 ? "" : oname[kb], three ? 3 : 2,
               m.desc, (long)m.rows, (long)m.cols, (long)m.nnz());
  }
  if (!mc::failed()) mc::validated();
}
}
