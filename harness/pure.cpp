// C22: multiplying changes neither the matrix nor the input vector, can be repeated in every order, and multiplications may overlap.
#include <cfenv>
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "spmv/omp/csbr.3.h"
#include <functional>
#include <memory>
#include <sys/mman.h>
#include "blk.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
typedef Coo<T_, I_, I_> C1;
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

// ---- everything allocated while a matrix is built lives in one region, which is compared after every multiplication ----
static bool building = false;
#ifdef ARENA
static const size_t AN = 64u << 20;
static char *arena = nullptr; static size_t used = 0; static std::vector<char> *image;
static bool inside(void *p) { return arena && (char *)p >= arena && (char *)p < arena + AN; }
static void *carve(size_t n) {
  size_t at = (used + 31) / 16 * 16;
  if (at + n > AN) return nullptr;
  used = at + n;
  *(size_t *)(arena + at - 8) = n;
  return arena + at;
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { return building ? carve(n) : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if (!building) return __real_calloc(n, m); void *p = carve(n * m); if (p) memset(p, 0, n * m); return p; }
void *__wrap_realloc(void *q, size_t n) {
  if (!inside(q) && !(building && !q)) return __real_realloc(q, n);
  void *p = building ? carve(n) : __real_malloc(n);
  if (p && q) memcpy(p, q, std::min(n, ((size_t *)q)[-1]));
  return p;
}
void __wrap_free(void *p) { if (!inside(p)) __real_free(p); }
}
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
namespace vp {
void mc_setup() { arena = (char *)mmap(nullptr, AN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); image = new std::vector<char>; }
static void fresh() { used = 0; }
static void photograph() { image->assign(arena, arena + used); }
static long altered() { if (!used || memcmp(image->data(), arena, used) == 0) return -1; for (size_t i = 0; i < used; i++) if ((*image)[i] != arena[i]) return (long)i; return -1; }
#else
void mc_setup() {}
static void fresh() {}
static void photograph() {}
static long altered() { return -1; }
#endif
struct Build { Build() { building = true; } ~Build() { building = false; } };

template <class S> struct OneType : public BlockFactory<T_, I_> {
  int kind;
  explicit OneType(int k) : kind(k) {}
  MatrixType create(BlockBase<T_, I_> **target, Element<T_, I_> *a, I_ rows, I_ columns, I_ nnz) {
    switch (kind) {
      case 0: *target = new Coo<T_, I_, S>(a, nnz); return BLOCK_COO;
      case 1: *target = new BlockCsrSerial<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR;
      case 2: *target = new BlockCsrParallel<T_, I_, S>(a, rows, columns, nnz); return BLOCK_CSR_PAR;
      case 3: *target = new DenseSerial<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
      default: *target = new DenseParallel<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
    }
  }
};
enum { O_CSR, O_CSR2, O_CSWR, O_CRCSR, O_DENSE, O_COO, O_COO2, O_COO3, O_BCOO, O_BCOO2, O_BCSR, O_CLASSES, O_CSBR, O_CSBR2, O_CSBR3, O_CGBR16, O_CGBR64, O_CGBR2, O_CGBR2ONE, OBJ_NUM };
static const char *oname[] = {"CSR", "CSR2", "CSWR", "compressed-row CSR", "dense", "COO", "COO2", "COO3", "block COO", "block COO2", "block CSR", "block class",
                              "CSBR", "CSBR2", "CSBR3", "CGBR (16 bit)", "CGBR (64 bit)", "CGBR2", "CGBR2 with a factory"};
typedef std::function<void(T_ const *, T_ *)> Mult;
struct Obj { Mat m; std::vector<Mult> mult; std::function<void()> drop; };
static int bf, form; static I_ width; static bool balanced;

static void args(Mat const &m, I_ *&r, I_ &nr, I_ *&c, I_ &nc) {
  Offs ro, co;
  switch (form) {
    case 0: ro = offs_const(m.rows, 2); co = offs_const(m.cols, 2); break;
    case 1: ro = Offs{0, m.rows}; co = offs_const(m.cols, 1); break;
    case 2: ro = m.rows > 1 ? Offs{0, m.rows / 2, m.rows} : Offs{0, m.rows}; co = m.cols > 2 ? Offs{0, 0, m.cols / 2, m.cols} : Offs{0, m.cols}; break;
    default: ro = Offs{0, m.rows}; co = Offs{0, m.cols}; break;
  }
  r = give(ro); nr = (I_)(ro.size() - 1); c = give(co); nc = (I_)(co.size() - 1);
}
template <class A, class S> static void build_blocked(Mat const &m, A *a, S *s) { I_ *r, *c, nr, nc; args(m, r, nr, c, nc); Coo_to_Blocked(a, s, r, nr, c, nc); }
template <class A> static void with_spmv(Obj &o, std::shared_ptr<A> a) { A const *p = a.get(); o.mult.push_back([p](T_ const *x, T_ *y) { p->spmv(x, y); }); }
template <class A> static void with_serial(Obj &o, std::shared_ptr<A> a) { A const *p = a.get(); o.mult.push_back([p](T_ const *x, T_ *y) { p->spmv_serial(x, y); }); }
#define NEW(...) auto a = std::make_shared<__VA_ARGS__>(); o.drop = [a]() { release(*a); };
static void make(Obj &o, int k) {
  Mat const &m = o.m;
  C3 s3 = make_coo3<C3>(m); C3 *s = &s3;
  {
    Build b;
    switch (k) {
      case O_CSR: { NEW(Csr<T_, I_>) Coo_to_Csr(a.get(), s); with_spmv(o, a); with_serial(o, a); break; }
      case O_CSR2: { NEW(Csr2<T_, I_>) Coo_to_Csr(a.get(), s); with_spmv(o, a); with_serial(o, a); break; }
      case O_CSWR: { NEW(Cswr<T_, I_, uint16_t>) Coo_to_Cswr(a.get(), s, width); with_spmv(o, a); break; }
      case O_CRCSR: {
        NEW(CompRowCsr<T_, I_>) Coo_to_CrCsr(a.get(), s);
        CompRowCsr<T_, I_> *p = a.get();
        o.mult.push_back([p](T_ const *x, T_ *y) { spmv(p, x, y); }); o.mult.push_back([p](T_ const *x, T_ *y) { spmv_serial(p, x, y); });
        break;
      }
      case O_DENSE: { NEW(BlockDense<T_, I_>) Coo_to_Dense(a.get(), s); with_spmv(o, a); with_serial(o, a); break; }
      case O_COO: { NEW(C1) Coo_to_Coo(a.get(), s); with_spmv(o, a); break; }
      case O_COO2: { NEW(C2) Coo_to_Coo(a.get(), s); with_spmv(o, a); break; }
      case O_COO3: { NEW(C3) Coo_to_Coo(a.get(), s); with_spmv(o, a); break; }
      case O_BCOO: { NEW(BlockCoo<T_, I_, uint16_t>) Coo_to_Coo(a.get(), s->elements, s->nnz); with_spmv(o, a); break; }
      case O_BCOO2: { NEW(BlockCoo2<T_, I_, uint16_t>) Coo_to_Coo(a.get(), s->elements, s->nnz); with_spmv(o, a); break; }
      case O_BCSR: { NEW(BlockCsr<T_, I_, uint16_t>) Coo_to_Csr(a.get(), s->elements, s->rows, s->columns, s->nnz, false); with_spmv(o, a); with_serial(o, a); break; }
      case O_CLASSES: {
        std::stable_sort(s->elements, s->elements + s->nnz, [](auto &p, auto &q) { return p.row != q.row ? p.row < q.row : p.col < q.col; });
        BlockBase<T_, I_> *p; OneType<uint16_t> f(bf); f.create(&p, s->elements, s->rows, s->columns, s->nnz);
        o.mult.push_back([p](T_ const *x, T_ *y) { p->spmv(x, y); }); o.drop = [p]() { delete p; };
        break;
      }
      case O_CSBR: { NEW(Csbr<T_, I_>) build_blocked(m, a.get(), s); a->balanced = balanced; with_spmv(o, a); break; }
      case O_CSBR2: { NEW(Csbr2<T_, I_>) build_blocked(m, a.get(), s); with_spmv(o, a); break; }
      case O_CSBR3: { NEW(Csbr3<T_, I_, uint16_t>) Coo_to_Blocked(a.get(), s, (I_)2, (I_)2); Csbr3<T_, I_, uint16_t> *p = a.get(); o.mult.push_back([p](T_ const *x, T_ *y) { spmv_balanced(p, x, y); }); break; }
      case O_CGBR16: { NEW(Cgbr<T_, I_, uint16_t>) build_blocked(m, a.get(), s); a->balanced = balanced; with_spmv(o, a); with_serial(o, a); break; }
      case O_CGBR64: { NEW(Cgbr<T_, I_, uint64_t>) build_blocked(m, a.get(), s); a->balanced = balanced; with_spmv(o, a); with_serial(o, a); break; }
      case O_CGBR2: { NEW(Cgbr2<T_, I_, uint16_t>) build_blocked(m, a.get(), s); a->balanced = balanced; with_spmv(o, a); break; }
      case O_CGBR2ONE: {
        NEW(Cgbr2<T_, I_, uint16_t>) OneType<uint16_t> f(bf); I_ *r, *c, nr, nc; args(m, r, nr, c, nc); Coo_to_Cgbr(a.get(), s, r, nr, c, nc, f);
        a->balanced = balanced; with_spmv(o, a); break;
      }
    }
  }
  for (auto &f : o.mult) f = [g = f](T_ const *x, T_ *y) {      // the caller's settings are the caller's
    uint64_t before = mcomp::settings(); int mode = fegetround();
    g(x, y);
    if (mcomp::settings() != before || fegetround() != mode) mc::report("settings", "a multiplication changed the caller's OpenMP settings or rounding mode");
  };
  release(s3);
  mc::step();
}

// ---- vectors ----
static Obj ob[2];                                     // two matrices of the same representation
static const int NY = 3;
struct Vec { std::vector<T_> v, keep; std::vector<int64_t> ref; T_ *p() { return v.data() + 2; } };
static Vec xs[2][3], ys[2][NY];                        // per matrix
static int64_t xval(int64_t j, int which, int round) { return ((j * 7 + which * 5 + round * 3) % 9) - 4; }
static void set_x(int o, int which, int round) {
  Vec &x = xs[o][which]; int64_t n = ob[o].m.cols;
  x.v.resize(n + 4); x.ref.resize(n);
  for (int i = 0; i < 2; i++) x.v[i] = x.v[n + 2 + i] = (T_)(7777 + i);
  for (int64_t j = 0; j < n; j++) { x.ref[j] = xval(j, which, round); x.v[2 + j] = xvec(x.ref[j]); }
  x.keep = x.v;
}
static void set_y(int o, int which) {
  Vec &y = ys[o][which]; int64_t n = ob[o].m.rows;
  y.v.resize(n + 4); y.ref.resize(n);
  for (int i = 0; i < 2; i++) y.v[i] = y.v[n + 2 + i] = (T_)(-7777 - i);
  for (int64_t j = 0; j < n; j++) { y.ref[j] = (j * 11 + which * 17) % 13 - 6; y.v[2 + j] = yvec(y.ref[j]); }
}
static void expect(int o, int xi, int yi) { for (auto &e : ob[o].m.e) ys[o][yi].ref[e.r] += (int64_t)e.v * xs[o][xi].ref[e.c]; }
static int kind; static std::string history;
static bool check(const char *sig) {
  long at = altered();
  if (at >= 0) { mc::report(sig, "%s: the matrix was changed by multiplying (byte %ld of what it occupies; %s)", oname[kind], at, history.c_str()); return false; }
  for (int o = 0; o < 2; o++) {
    for (int i = 0; i < 3; i++) if (memcmp(xs[o][i].v.data(), xs[o][i].keep.data(), xs[o][i].v.size() * sizeof(T_)) != 0) { mc::report(sig, "%s: an input vector was changed (%s)", oname[kind], history.c_str()); return false; }
    for (int i = 0; i < NY; i++) {
      Vec &y = ys[o][i]; int64_t n = ob[o].m.rows;
      for (int k = 0; k < 2; k++) if (y.v[k] != (T_)(-7777 - k) || y.v[n + 2 + k] != (T_)(-7777 - k)) { mc::report(sig, "%s: wrote outside an output vector (%s)", oname[kind], history.c_str()); return false; }
      for (int64_t j = 0; j < n; j++) if (!(y.v[2 + j] == yvec(y.ref[j]))) {
        mc::report(sig, "%s: row %ld of output %d of matrix %d is %g, expected %ld (%s %ldx%ld; %s)", oname[kind], (long)j, i, o, (double)(y.v[2 + j] / yvec(1)), (long)y.ref[j], ob[o].m.desc, (long)ob[o].m.rows, (long)ob[o].m.cols, history.c_str());
        return false;
      }
    }
  }
  return true;
}
static Mat pick_matrix(int i, bool big) {
  switch (i) {
    case 0: return big ? gen_struct(20, 18, P_LCG, O_MIX, 60) : gen_struct(3, 3, P_LCG, O_MIX, 5);
    case 1: return big ? gen_struct(18, 20, P_FULL, O_ROW) : gen_struct(3, 4, P_FULL, O_ROW);
    case 2: return big ? gen_struct(20, 18, P_ONE_HEAVY, O_REV) : gen_struct(4, 3, P_ROW0, O_REV);
    case 3: return big ? gen_struct(40, 33, P_DIAG, O_MIX) : gen_struct(3, 3, P_DIAG, O_MIX);
    case 4: return big ? gen_struct(33, 1, P_COL0, O_ROW) : gen_struct(2, 2, P_EMPTY, O_ROW);
    default: return big ? gen_struct(70, 66, P_LCG, O_MIX, 2300) : gen_struct(1, 5, P_CORNERS, O_MIX);
  }
}
static void drop_all() { for (auto &o : ob) { if (o.drop) o.drop(); o = Obj(); } }

void mc_body() {
  mcomp::reset();
  mcomp::monitor = false;
  mc::dev_bound = -1;
  building = false; fresh(); history.clear();
  for (auto &o : ob) o = Obj();
  bf = 0; form = 0; width = 2; balanced = true;
#ifdef MONITOR
  bool overlap = true;
#else
  bool overlap = mc::flip();
#endif
  kind = mc::choose(OBJ_NUM);
  mc::phase = oname[kind];
  if (kind == O_CLASSES || kind == O_CGBR2ONE) bf = mc::choose(5);
  bool bal_kind = kind == O_CSBR || kind >= O_CGBR16;
  if (bal_kind) balanced = mc::flip();
  bool forms = kind >= O_CSBR && kind != O_CSBR3;
  if (forms) form = mc::choose(overlap && !mc::thorough ? 3 : 4);
  if (kind == O_CSWR) { static const int w[] = {1, 2, 16}; width = (I_)mc::pick(w); }
  bool big = mc::flip();
  int base = overlap ? (mc::thorough ? mc::choose(4) : mc::choose(3)) : mc::choose(6);
  mc::shard();
  static const int bw[] = {1, 3};
  int build_with = bal_kind && !balanced ? mc::pick(bw) : 1;
  mcomp::set_threads(build_with);
  ob[0].m = pick_matrix(base, big); ob[1].m = pick_matrix((base + 1) % 6, big);
  for (int o = 0; o < 2; o++) { make(ob[o], kind); for (int i = 0; i < 3; i++) set_x(o, i, 0); for (int i = 0; i < NY; i++) set_y(o, i); }
  mcomp::reset();
  photograph();
  MC_LOG("%s of %s %ldx%ld and %s %ldx%ld, block type %d, form %d, width %d, %s, built with %d workers", oname[kind], ob[0].m.desc, (long)ob[0].m.rows, (long)ob[0].m.cols, ob[1].m.desc, (long)ob[1].m.rows,
         (long)ob[1].m.cols, bf, form, (int)width, balanced ? "balanced" : "partitioned", build_with);
  uint64_t h = mc::mix(mc::mix(ob[0].m.hash(), kind * 64 + bf), form * 16 + width * 77 + balanced + build_with * 3);
  const int ne = (int)ob[0].mult.size();
  if (!overlap) {
    // ---- every sequence of multiplications ----
    int depth = mc::thorough ? 4 : lite() ? 2 : 3;
    if (big) depth--;
    for (int d = 0; d < depth && !mc::failed(); d++) {
      int o = d ? mc::choose(2) : 0, e = mc::choose(ne), x = d ? mc::choose(3) : 0, y = d ? mc::choose(2) : 0, t = mc::choose(2);
      if (x == 2) { set_x(o, 0, d + 1); x = 0; }        // the same vector holds other values now
      mcomp::set_threads(t ? 3 : 1); mcomp::set_policy(t ? mcomp::ROUND_ROBIN : mcomp::FIRST);
      history += "matrix " + std::to_string(o) + (e ? " serial x" : " x") + std::to_string(x) + " y" + std::to_string(y) + (t ? " by 3, " : ", ");
      ob[o].mult[e](xs[o][x].p(), ys[o][y].p());
      expect(o, x, y);
      mc::step();
      if (!check("sequence")) break;
    }
    mc::state(mc::mix(h, mc::hash_bytes(history.data(), history.size())));
    mc::outcome(mc::hash_bytes(ys[0][0].v.data(), ys[0][0].v.size() * sizeof(T_)));
    MC_LOG("%s", history.c_str());
  } else {
    // ---- overlapping multiplications of the caller ----
    int shape = mc::choose(3), mix = mc::choose(2), n = mc::range(2, 3), nested = mc::range(1, 2), team = mc::range(2, mc::thorough ? 3 : 2);
    if (big && nested > 1 && !mc::thorough) mc::prune();
    int entry[3]; for (int i = 0; i < n; i++) entry[i] = mc::choose(ne);
    if (shape == 0) { if (team != 2) mc::prune(); team = n; }
    mc::dev_bound = mc::thorough ? (nested > 1 ? 3 : 4) : 2;
    if (n > 2 || team > 2) mc::dev_bound = 2;
    static const char *sn[] = {"parallel region", "parallel loop", "tasks"};
    // mix 0: one matrix, different vectors; 1: two matrices
    auto one = [&](int i) { int o = mix == 1 ? i % 2 : 0; ob[o].mult[entry[i]](xs[o][mix == 0 ? i : 0].p(), ys[o][i].p()); };
    history = std::string(sn[shape]) + (mix == 0 ? " with one matrix, entry points " : " with two matrices, entry points ") + std::to_string(entry[0]) + std::to_string(entry[1]) + (n > 2 ? std::to_string(entry[2]) : "") + ", team of " + std::to_string(team) + ", levels " + std::to_string(nested) + ", " + std::to_string(n) + " at a time";
    MC_LOG("%s", history.c_str());
    mc::state(mc::mix(h, mc::hash_bytes(history.data(), history.size())));
    mcomp::set_threads(team); mcomp::set_nested(nested);
    mcomp::set_policy(mcomp::EXPLORE);
#ifdef MONITOR
    mcomp::monitor = true;
#endif
    if (shape == 0) {
      #pragma omp parallel num_threads(n)
      one(omp_get_thread_num());
    } else if (shape == 1) {
      #pragma omp parallel for schedule(dynamic, 1)
      for (int i = 0; i < n; i++) one(i);
    } else {
      #pragma omp parallel
      #pragma omp single
      for (int i = 0; i < n; i++) {
        #pragma omp task firstprivate(i)
        one(i);
      }
    }
    mcomp::monitor = false;
    for (int i = 0; i < n; i++) expect(mix == 1 ? i % 2 : 0, mix == 0 ? i : 0, i);
    mc::step(mcomp::points);
    mcomp::set_policy(mcomp::FIRST); mcomp::set_nested(1); mcomp::set_threads(1);
    check("overlap");
    mc::outcome(mc::hash_bytes(ys[0][0].v.data(), ys[0][0].v.size() * sizeof(T_)));
  }
  if (!mc::failed()) mc::validated();
  drop_all();
}
}
