// C01: every row-oriented representation, built from every matrix of the families, multiplies like the matrix.
#include "generic/coo.h"
#include "generic/csr.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/dense.h"
#include "gen.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}

typedef Coo<T_, I_, I_> C1;
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

enum { F_COO1, F_COO1S, F_COO2, F_COO3, F_COO1E, F_CSR, F_CSRS, F_CSR2, F_CSR2S, F_CSRSORTED, F_CRCSR, F_CRCSRS, F_DENSE, F_DENSES, F_DSER, F_DPAR,
       F_CSWR8, F_CSWR16, F_CSWR32, F_NUM };

template <class SIT, class SRC> static void do_cswr(Mat const &m, SRC &src, I_ width, bool deflt, const char *name) {
  Cswr<T_, I_, SIT> A;
  build_again<SRC>(A, [&](auto &a, SRC &s) { Coo_to_Cswr(&a, &s, (I_)2); });
  if (deflt) Coo_to_Cswr(&A, &src); else Coo_to_Cswr(&A, &src, width);
  mc::step();
  char what[64];
  snprintf(what, sizeof what, "%s width %lu", name, (unsigned long)width);
  MultCheck k(m, true);
  k.run("row-format", what, [&](T_ const *x, T_ *y) { A.spmv(x, y); });
  mc::outcome(k.hash());
  release(A);
}

template <class SRC> static void run_format(Mat const &m, SRC &src, int f, I_ width, bool deflt) {
  MultCheck k(m, !(f >= F_DENSE && f <= F_DPAR));
  const char *sig = "row-format";
  switch (f) {
    case F_COO1: { C1 a; Coo_to_Coo(&a, &src); k.run(sig, "COO (three arrays)", [&](T_ const *x, T_ *y) { a.spmv(x, y); }); break; }
    case F_COO1S: {   // three separate arrays as source
      std::vector<T_> v; std::vector<I_> r, c;
      for (auto &e : m.e) { v.push_back(mval(e.v)); r.push_back((I_)e.r); c.push_back((I_)e.c); }
      C2 a; Coo_to_Coo(&a, v.data(), r.data(), c.data(), (I_)m.rows, (I_)m.cols, (I_)m.nnz());
      k.run(sig, "COO2 from arrays", [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      release(a);
      break;
    }
    case F_COO2: { C2 a; build_again<SRC>(a, [](auto &a, SRC &s) { Coo_to_Coo(&a, &s); }); Coo_to_Coo(&a, &src); k.run(sig, "COO2", [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
    case F_COO3: { C3 a; build_again<SRC>(a, [](auto &a, SRC &s) { Coo_to_Coo(&a, &s); }); Coo_to_Coo(&a, &src); k.run(sig, "COO3", [&](T_ const *x, T_ *y) { a.spmv(x, y); }); release(a); break; }
    case F_COO1E: {
      C3 t = make_coo3<C3>(m);
      { C1 a(t.elements, t.nnz); k.run(sig, "COO from elements", [&](T_ const *x, T_ *y) { a.spmv(x, y); }); }
      release(t);
      break;
    }
    case F_CSR: case F_CSRS: {
      Csr<T_, I_> a; build_again<SRC>(a, [](auto &a, SRC &s) { Coo_to_Csr(&a, &s); }); Coo_to_Csr(&a, &src); mc::step();
      if (f == F_CSR) k.run(sig, "CSR", [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      else k.run(sig, "CSR serial", [&](T_ const *x, T_ *y) { a.spmv_serial(x, y); });
      release(a);
      break;
    }
    case F_CSR2: case F_CSR2S: {
      Csr2<T_, I_> a; build_again<SRC>(a, [](auto &a, SRC &s) { Coo_to_Csr(&a, &s); }); Coo_to_Csr(&a, &src); mc::step();
      if (f == F_CSR2) k.run(sig, "CSR2", [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      else k.run(sig, "CSR2 serial", [&](T_ const *x, T_ *y) { a.spmv_serial(x, y); });
      release(a);
      break;
    }
    case F_CSRSORTED: {   // caller has sorted the triplets by row
      std::vector<Triplet<T_, I_>> t;
      std::vector<Ent> es = m.e;
      std::stable_sort(es.begin(), es.end(), [](Ent const &a, Ent const &b) { return a.r < b.r; });
      for (auto &e : es) t.push_back(Triplet<T_, I_>{(I_)e.r, (I_)e.c, mval(e.v)});
      Csr<T_, I_> a; Coo_to_Csr(&a, t.data(), (I_)m.rows, (I_)m.cols, (I_)m.nnz(), true, true);
      k.run(sig, "CSR from sorted triplets", [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      release(a);
      break;
    }
    case F_CRCSR: case F_CRCSRS: {
      CompRowCsr<T_, I_> a; build_again<SRC>(a, [](auto &a, SRC &s) { Coo_to_CrCsr(&a, &s); }); Coo_to_CrCsr(&a, &src); mc::step();
      if (f == F_CRCSR) k.run(sig, "compressed-row CSR", [&](T_ const *x, T_ *y) { spmv(&a, x, y); });
      else k.run(sig, "compressed-row CSR serial", [&](T_ const *x, T_ *y) { spmv_serial(&a, x, y); });
      release(a);
      break;
    }
    case F_DENSE: case F_DENSES: {
      BlockDense<T_, I_> a; build_again<SRC>(a, [](auto &a, SRC &s) { Coo_to_Dense(&a, &s); }); Coo_to_Dense(&a, &src); mc::step();
      if (f == F_DENSE) k.run(sig, "dense", [&](T_ const *x, T_ *y) { a.spmv(x, y); });
      else k.run(sig, "dense serial", [&](T_ const *x, T_ *y) { a.spmv_serial(x, y); });
      release(a);
      break;
    }
    case F_DSER: case F_DPAR: {
      C3 t = make_coo3<C3>(m);
      if (f == F_DSER) { DenseSerial<T_, I_> a(t.elements, t.rows, t.columns, t.nnz); k.run(sig, "dense (serial class)", [&](T_ const *x, T_ *y) { a.spmv(x, y); }); }
      else { DenseParallel<T_, I_> a(t.elements, t.rows, t.columns, t.nnz); k.run(sig, "dense (parallel class)", [&](T_ const *x, T_ *y) { a.spmv(x, y); }); }
      release(t);
      break;
    }
    case F_CSWR8: do_cswr<uint8_t>(m, src, width, deflt, "CSWR (8 bit)"); return;
    case F_CSWR16: do_cswr<uint16_t>(m, src, width, deflt, "CSWR (16 bit)"); return;
    case F_CSWR32: do_cswr<uint32_t>(m, src, width, deflt, "CSWR (32 bit)"); return;
  }
  mc::outcome(k.hash());
}

void mc_body() {
  mcomp::reset();
  Mat m;
  int fam = mc::choose(4);
  bool big = false;
  int fmt = mc::choose(F_NUM);
  if (fam == 0) {
    int r = mc::range(1, 3), c = mc::range(1, 3);
    mc::shard();
    m = gen_tiny_dims(r, c, mc::thorough ? 4 : 3);
  } else if (fam == 1) {
    static const int d[][2] = {{1, 5}, {5, 1}, {2, 4}, {4, 2}, {3, 3}};
    static const int dt[][2] = {{1, 8}, {8, 1}, {2, 5}, {5, 2}, {3, 4}, {4, 3}};
    auto &p = mc::thorough ? dt[mc::choose(6)] : d[mc::choose(5)];
    mc::shard();
    m = gen_pattern(p[0], p[1]);
  } else if (fam == 2) {
    static const int nq[] = {16, 17, 31, 32, 33, 64, 65, 255, 256, 257};
    static const int nt[] = {15, 16, 17, 18, 31, 32, 33, 34, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
    int n = mc::thorough ? mc::pick(nt) : mc::pick(nq);
    int shape = mc::choose(5);
    mc::shard();
    int64_t rows = shape == 0 || shape == 1 ? n : shape == 2 ? 1 : shape == 3 ? n : 3;
    int64_t cols = shape == 0 || shape == 2 ? n : shape == 1 ? 7 : shape == 3 ? 1 : n;
    int pat = mc::choose(P_NUM);
    if (pat == P_FULL && n > 65) mc::prune();
    int ord = mc::choose(O_NUM);
    m = gen_struct(rows, cols, pat, ord);
  } else {
    // sizes at which sorting changes its strategy, and indices beyond 16 bits
    static const int64_t d[][3] = {{40, 40, 499}, {40, 40, 500}, {40, 40, 501}, {300, 200, 1999}, {300, 200, 2001}, {300, 200, 4501},
                                   {65535, 3, 60}, {65536, 3, 60}, {65537, 3, 60}, {3, 65537, 60}, {70000, 2, 9000}, {70000, 3, 66001},
                                   {300, 300, 1000}, {257, 255, 600}, {256, 256, 600}, {400, 200, 600},
                                   {1100000, 3, 1150007}, {3, 1100000, 1150007}, {1050, 1050, 1100003}, {70000, 70000, 20011}};
    auto &p = d[mc::choose(20)];
    bool huge = p[2] > 100000;
    if (huge && (sizeof(T_) != 4 || sizeof(I_) != 4 || std::is_signed<I_>::value)) mc::prune();
    mc::shard();
    int pat = mc::choose(2) ? P_LCG : P_CORNERS;
    int ord = mc::choose(O_NUM);
    if (std::max({p[0], p[1], p[2]}) > (int64_t)std::min<uint64_t>(std::numeric_limits<I_>::max(), INT64_MAX)) mc::prune();
    if (p[2] > 20000 && (pat != P_LCG || ord != O_MIX)) mc::prune();
    m = gen_struct(p[0], p[1], pat, ord, p[2]);
    big = p[2] > 9000;
  }
  bool from3 = mc::flip();
  if (m.nnz() > 100000 && from3 != (bool)(fmt & 1)) mc::prune();
  again = fam == 1 || fam == 3 || (fam == 0 && (m.nnz() > 2 || m.rows > 2 || m.cols > 2)) || (fam == 2 && m.rows != 33) ? 0 : mc::choose(3);
  I_ width = 32;
  bool deflt = false;
  if (fmt == F_CSWR8 || fmt == F_CSWR16 || fmt == F_CSWR32) {
    // the last ones: widths near the limit of the index type, where rounding up must not wrap around
    static const int wq[] = {0, 1, 2, 3, 32, 100, 256, 70001, -1, -2, -3, -4};
    const int64_t limit = sizeof(I_) == 8 ? INT64_MAX : (int64_t)std::numeric_limits<I_>::max();
    int w = mc::pick(wq);
    int64_t wide = w == -1 ? limit : w == -2 ? limit - 1 : w == -3 ? limit - m.rows + 1 : w == -4 ? limit - m.rows + 2 : w;
    if (w == 0) { deflt = true; wide = 32; }
    if (wide < 1 || wide > limit) mc::prune();
    if (std::min(wide, m.rows) > (fmt == F_CSWR8 ? 256 : fmt == F_CSWR16 ? 65536 : INT64_MAX)) mc::prune();     // refused
    if (m.nnz() > 100000 && w != 0 && w != 70001 && w != 100) mc::prune();
    if (w < 0 && fam == 1 && m.nnz() > 3) mc::prune();
    width = (I_)wide;
    if (w == -1 && sizeof(I_) == 8 && mc::flip()) width = std::numeric_limits<I_>::max();
  }
  if (m.nnz() > 100000) use(mc::flip() ? Sched{67, mcomp::ROUND_ROBIN} : Sched{1, mcomp::FIRST});
  else if (big && mc::flip()) use(Sched{67, mcomp::ROUND_ROBIN}); else pick_sched(mc::thorough && fam != 0);
  m.show();
  if (again) MC_LOG("in an object used before (%d)", again);
  mc::state(mc::mix(m.hash(), fmt + 100 * again));
  if ((fmt >= F_DENSE && fmt <= F_DPAR) && m.rows * m.cols > 4000000) mc::prune();
  if (from3) { C3 s = make_coo3<C3>(m); run_format(m, s, fmt, width, deflt); release(s); }
  else { C2 s = make_coo2<C2>(m); run_format(m, s, fmt, width, deflt); release(s); }
  if (!mc::failed()) mc::validated();
}
}
