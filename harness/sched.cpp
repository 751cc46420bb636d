// C03: every schedule of a parallel multiplication is race free, terminates and gives the serial result.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/block_csr.h"
#include "spmv/omp/csbr.3.h"
#include "blk.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

template <int KIND> struct OneType : public BlockFactory<T_, I_> {
  MatrixType create(BlockBase<T_, I_> **target, Element<T_, I_> *a, I_ rows, I_ columns, I_ nnz) {
    switch (KIND) {
      case 0: *target = new BlockCsrParallel<T_, I_, uint16_t>(a, rows, columns, nnz); return BLOCK_CSR_PAR;
      default: *target = new DenseParallel<T_, I_>(a, rows, columns, nnz); return BLOCK_DENSE;
    }
  }
};

enum { F_CSR, F_CSR2, F_CSWR, F_CRCSR, F_DENSE, F_DPAR, F_BCSR, NROW,
       F_CSBR = NROW, F_CSBR2, F_CSBR3, F_CGBR, F_CGBR2, F_CGBR2CSR, F_CGBR2DENSE, F_NUM };
static const char *fname[] = {"CSR", "CSR2", "CSWR", "compressed-row CSR", "dense", "dense (parallel class)", "block CSR",
                              "CSBR", "CSBR2", "CSBR3", "CGBR", "CGBR2", "CGBR2 of parallel CSR blocks", "CGBR2 of parallel dense blocks"};
static Mat m;
static int team, nested;
static const char *what;
static uint64_t orders;

template <class F> static void explore(bool poison, F &&f) {
  mcomp::set_threads(team);
  mcomp::set_nested(nested);
  mcomp::set_policy(mcomp::EXPLORE);
#ifdef MONITOR
  mcomp::monitor = true;
#endif
  MultCheck k(m, poison);
  k.run("schedule", what, f, 1);
  mcomp::monitor = false;
  mcomp::set_policy(mcomp::FIRST);
  mcomp::set_nested(1);
  mcomp::set_threads(1);
  mc::step(mcomp::points);
  mc::outcome(k.hash());
}
template <class A> static void blocked(A &a, bool bal, bool poison = true) {
  a.balanced = bal;
  explore(poison, [&](T_ const *x, T_ *y) { a.spmv(x, y); });
}

void mc_body() {
  mcomp::reset();
  mcomp::monitor = false;
  mc::dev_bound = -1;
  m = Mat();
  int f = mc::choose(F_NUM);
  what = fname[f];
  team = mc::range(2, mc::thorough ? 4 : 3);
  nested = 1;
  int build_with = 1;
  if (f < NROW) {
    static const int nq[] = {1, 2, 15, 16, 17, 33, 49}, nt[] = {1, 2, 15, 16, 17, 31, 32, 33, 48, 49, 64, 65, 97};
    int n = mc::thorough ? mc::pick(nt) : mc::pick(nq);
    static const int pats[] = {P_DIAG, P_COL0, P_LCG, P_ROW0, P_CORNERS, P_EMPTY};
    int pat = mc::pick(pats);
    mc::shard();
    int cols = mc::flip() ? n : 3;
    I_ width = 1;
    if (f == F_CSWR) { static const int w[] = {1, 2, 5, 16, 32}; width = (I_)mc::pick(w); }
    if (f == F_CRCSR && n > 17) { if (pat != P_CORNERS) mc::prune(); }   // one chunk per row: the schedules are exponential in the rows
    if (f == F_CRCSR && n > 2 && pat != P_ROW0 && pat != P_CORNERS && pat != P_EMPTY) mc::dev_bound = mc::thorough ? 4 : 3;
    else if (n > 40 && team > 3) mc::dev_bound = 6;
    m = gen_struct(n, cols, pat, O_MIX);
    MC_LOG("%s, team of %d, width %d", what, team, (int)width);
    m.show();
    mc::state(mc::mix(m.hash(), f * 8 + team + width * 1000));
    C2 s = make_coo2<C2>(m);
    switch (f) {
      case F_CSR: { Csr<T_, I_> a; Coo_to_Csr(&a, &s); explore(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
      case F_CSR2: { Csr2<T_, I_> a; Coo_to_Csr(&a, &s); explore(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
      case F_CSWR: { Cswr<T_, I_, uint16_t> a; Coo_to_Cswr(&a, &s, width); explore(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
      case F_CRCSR: { CompRowCsr<T_, I_> a; Coo_to_CrCsr(&a, &s); explore(true, [&](T_ const *x, T_ *y) { spmv(&a, x, y); }); release(a); break; }
      case F_DENSE: { BlockDense<T_, I_> a; Coo_to_Dense(&a, &s); explore(false, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
      case F_DPAR: { C3 t = make_coo3<C3>(m); { DenseParallel<T_, I_> a(t.elements, t.rows, t.columns, t.nnz); explore(false, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); } release(t); break; }
      case F_BCSR: {
        C3 t = make_coo3<C3>(m); BlockCsr<T_, I_, uint16_t> a; Coo_to_Csr(&a, t.elements, t.rows, t.columns, t.nnz, false);
        explore(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); release(t); break;
      }
    }
    release(s);
  } else {
    bool tasks = f == F_CSBR || f >= F_CGBR;
    bool bal = !tasks || mc::flip();
    int form = mc::choose(6);
    static const int bw[] = {1, 3, 8};
    build_with = tasks && !bal ? mc::pick(bw) : 1;
    if (f == F_CGBR2CSR || f == F_CGBR2DENSE) nested = mc::range(1, 2);
    mc::shard();
    Offs ro, co;
    switch (form) {
      case 0: m = gen_struct(4, 6, P_FULL, O_ROW); ro = Offs{0, 4}; co = Offs{0, 1, 2, 3, 4, 5, 6}; break;                // one block-row, many blocks
      case 1: m = gen_struct(4, 6, P_FULL, O_MIX); ro = Offs{0, 2, 4}; co = Offs{0, 2, 4, 6}; break;
      case 2: m = gen_struct(6, 4, P_ONE_HEAVY, O_ROW); ro = Offs{0, 4, 5, 6}; co = Offs{0, 1, 2, 3, 4}; break;       // unbalanced
      case 3: m = gen_struct(5, 5, P_DIAG, O_REV); ro = Offs{0, 1, 2, 3, 5}; co = Offs{0, 2, 5}; break;               // one block per row
      case 4: m = gen_struct(3, 8, P_ROW0, O_ROW); ro = Offs{0, 1, 3}; co = Offs{0, 1, 2, 3, 4, 5, 6, 7, 8}; break;  // an empty block-row
      case 5: m = gen_struct(36, 4, P_LCG, O_ROW, 60); ro = Offs{0, 34, 36}; co = Offs{0, 1, 4}; break;                // several chunks inside a block
    }
    if (team > 2 || nested > 1) mc::dev_bound = mc::thorough ? (team > 3 ? 4 : 6) : nested > 1 ? 3 : 4;
    if (form == 2 && !mc::thorough && team > 2) mc::dev_bound = 3;
    if (form == 4 && !bal && nested == 1) mc::dev_bound = mc::thorough ? 8 : team > 2 ? 3 : 5;
    if (form == 5 && f == F_CSBR3) mc::dev_bound = mc::thorough ? 4 : 2;
    MC_LOG("%s, team of %d, nested %d, built with %d workers, rows %s columns %s, %s", what, team, nested, build_with, show(ro).c_str(), show(co).c_str(), bal ? "balanced" : "partitioned");
    m.show();
    mc::state(mc::mix(m.hash(), f * 8 + team + build_with * 1000 + bal * 77777 + form * 991 + nested));
    mcomp::set_threads(build_with);
    C3 s = make_coo3<C3>(m);
    I_ nr = (I_)(ro.size() - 1), nc = (I_)(co.size() - 1);
    switch (f) {
      case F_CSBR: { Csbr<T_, I_> a; Coo_to_Csbr(&a, &s, give(ro), nr, give(co), nc); blocked(a, bal); release(a); break; }
      case F_CSBR2: { Csbr2<T_, I_> a; Coo_to_Blocked(&a, &s, give(ro), nr, give(co), nc); explore(true, [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
      case F_CSBR3: { Csbr3<T_, I_, uint16_t> a; Coo_to_Blocked(&a, &s, (I_)2, (I_)2); explore(true, [&](T_ const *x, T_ *y) { spmv_balanced(&a, x, y); }); release(a); break; }
      case F_CGBR: { Cgbr<T_, I_, uint64_t> a; Coo_to_Cgbr(&a, &s, give(ro), nr, give(co), nc); blocked(a, bal, false); release(a); break; }
      case F_CGBR2: { Cgbr2<T_, I_, uint16_t> a; Coo_to_Blocked(&a, &s, give(ro), nr, give(co), nc); blocked(a, bal, false); release(a); break; }
      case F_CGBR2CSR: { Cgbr2<T_, I_, uint16_t> a; OneType<0> fac; Coo_to_Cgbr(&a, &s, give(ro), nr, give(co), nc, fac); blocked(a, bal); release(a); break; }
      case F_CGBR2DENSE: { Cgbr2<T_, I_, uint16_t> a; OneType<1> fac; Coo_to_Cgbr(&a, &s, give(ro), nr, give(co), nc, fac); blocked(a, bal, false); release(a); break; }
    }
    release(s);
  }
  if (!mc::failed()) mc::validated();
}
}
