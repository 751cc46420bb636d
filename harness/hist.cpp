// C05: conversions leave their source and the representations built before intact, in every order.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include <functional>
#include <memory>
#include "blk.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}
typedef Coo<T_, I_, I_> C1;
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

enum { O_CSR, O_CSR2, O_CSWR, O_CRCSR, O_DENSE, O_COO, O_COO2, O_COO3, O_CSBR, O_CSBR2, O_CSBRC, O_RELEASE_FIRST, O_RELEASE_SOURCE, O_NOPS };
static const char *oname[] = {"to CSR", "to CSR2", "to CSWR", "to compressed-row", "to dense", "to COO", "to COO2", "to COO3", "to CSBR", "to CSBR2", "to CSBR (constant)",
                              "release the first", "release the source"};

struct Built {
  const char *name;
  bool dense;
  std::function<void(T_ const *, T_ *)> mult;
  std::function<void()> drop;
};
static Mat m;
static std::vector<Built> live;

template <class A, class M> static void keep(const char *name, std::shared_ptr<A> a, M mult, bool dense = false) {
  live.push_back(Built{name, dense, [a, mult](T_ const *x, T_ *y) { mult(*a, x, y); }, [a]() { release(*a); }});
}
#define SPMV [](auto &a, T_ const *x, T_ *y) { a.spmv(x, y); }

template <class SRC> static void convert(SRC *s, int op, Offs const &ro, Offs const &co) {
  constexpr bool is3 = std::is_same<SRC, C3>::value;
  switch (op) {
    case O_CSR: { auto a = std::make_shared<Csr<T_, I_>>(); Coo_to_Csr(a.get(), s); keep("CSR", a, SPMV); break; }
    case O_CSR2: { auto a = std::make_shared<Csr2<T_, I_>>(); Coo_to_Csr(a.get(), s); keep("CSR2", a, SPMV); break; }
    case O_CSWR: { auto a = std::make_shared<Cswr<T_, I_, uint16_t>>(); Coo_to_Cswr(a.get(), s, (I_)2); keep("CSWR", a, SPMV); break; }
    case O_CRCSR: { auto a = std::make_shared<CompRowCsr<T_, I_>>(); Coo_to_CrCsr(a.get(), s); keep("compressed-row CSR", a, [](auto &a, T_ const *x, T_ *y) { spmv(&a, x, y); }); break; }
    case O_DENSE: { auto a = std::make_shared<BlockDense<T_, I_>>(); Coo_to_Dense(a.get(), s); keep("dense", a, SPMV, true); break; }
    case O_COO: {
      auto a = std::make_shared<C1>(); Coo_to_Coo(a.get(), s);
      live.push_back(Built{"COO", false, [a](T_ const *x, T_ *y) { a->spmv(x, y); }, []() {}});     // freed by its destructor
      break;
    }
    case O_COO2: { auto a = std::make_shared<C2>(); Coo_to_Coo(a.get(), s); keep("COO2", a, SPMV); break; }
    case O_COO3: { auto a = std::make_shared<C3>(); Coo_to_Coo(a.get(), s); keep("COO3", a, SPMV); break; }
    case O_CSBR: if constexpr (is3) { auto a = std::make_shared<Csbr<T_, I_>>(); Coo_to_Csbr(a.get(), s, give(ro), (I_)(ro.size() - 1), give(co), (I_)(co.size() - 1)); keep("CSBR", a, SPMV); } break;
    case O_CSBRC: if constexpr (is3) { auto a = std::make_shared<Csbr<T_, I_>>(); Coo_to_Csbr(a.get(), s, (I_)2, (I_)2); keep("CSBR (constant)", a, SPMV); } break;
    case O_CSBR2: if constexpr (is3) { auto a = std::make_shared<Csbr2<T_, I_>>(); Coo_to_Blocked(a.get(), s, give(ro), (I_)(ro.size() - 1), give(co), (I_)(co.size() - 1)); keep("CSBR2", a, SPMV); } break;
  }
}
template <class SRC> static void check_source(SRC &s, const char *after) {
  if ((int64_t)s.rows != m.rows || (int64_t)s.columns != m.cols || (int64_t)s.nonzeros() != m.nnz()) { mc::report("source", "the source's dimensions changed %s", after); return; }
  auto a = sorted(entries_of(s)), b = sorted(m.e);
  if (!(a == b)) {
    size_t i = 0; while (i < a.size() && a[i] == b[i]) i++;
    mc::report("source", "the source's entries changed %s: (%ld,%ld)=%d instead of (%ld,%ld)=%d", after, (long)a[i].r, (long)a[i].c, a[i].v, (long)b[i].r, (long)b[i].c, b[i].v);
    return;
  }
  MultCheck k(m, true);
  char what[80]; snprintf(what, sizeof what, "the source %s", after);
  k.run("source", what, [&](T_ const *x, T_ *y) { s.spmv(x, y); }, 1);
}
static void check_live(const char *after) {
  for (auto &b : live) {
    MultCheck k(m, !b.dense);
    char what[100]; snprintf(what, sizeof what, "%s, %s", b.name, after);
    if (!k.run("independent", what, b.mult, 1)) return;
  }
}

template <class SRC> static void history(SRC s, int depth, Offs const &ro, Offs const &co) {
  constexpr bool is3 = std::is_same<SRC, C3>::value;
  bool have = true;
  uint64_t h = m.hash();
  for (int i = 0; i < depth && !mc::failed(); i++) {
    std::vector<int> ops;
    for (int o = 0; o < O_NOPS; o++) {
      if (!is3 && (o == O_CSBR || o == O_CSBR2 || o == O_CSBRC)) continue;
      if (o < O_RELEASE_FIRST && !have) continue;
      if (o == O_RELEASE_FIRST && live.empty()) continue;
      if (o == O_RELEASE_SOURCE && (!have || live.empty())) continue;
      ops.push_back(o);
    }
    if (ops.empty()) break;
    int op = mc::pick(ops);
    if (i == 0) mc::shard();
    MC_LOG("%d: %s", i, oname[op]);
    char after[60]; snprintf(after, sizeof after, "after '%s'", oname[op]);
    if (op == O_RELEASE_FIRST) { live.front().drop(); live.erase(live.begin()); }
    else if (op == O_RELEASE_SOURCE) { release(s); have = false; }
    else convert(&s, op, ro, co);
    mc::step();
    h = mc::mix(h, op + 1);
    mc::state(h);
    if (have) check_source(s, after);
    if (!mc::failed()) check_live(after);
  }
  for (auto &b : live) b.drop();
  live.clear();
  if (have) release(s);
  mc::outcome(h);
  if (!mc::failed()) mc::validated();
}

void mc_body() {
  mcomp::reset();
  live.clear();
  bool three = mc::flip();
  int fam = mc::choose(lite() ? 3 : 4);
  Offs ro, co;
  int depth;
  if (fam == 0) {
    m = gen_tiny_dims(2, 2, 3); depth = mc::thorough ? 4 : 2;
    ro = co = mc::flip() ? Offs{0, 1, 2} : Offs{0, 2};
  } else if (fam == 1) {
    static const int p[] = {P_LCG, P_FULL, P_ANTI, P_EMPTY, P_ROW0};
    m = gen_struct(5, 4, mc::pick(p), mc::choose(O_NUM)); depth = mc::thorough ? 5 : 4;
    ro = Offs{0, 2, 3, 5}; co = Offs{0, 3, 4};
  } else if (fam == 3) {                  // sizes beyond 16 bits
    m = big_blocks(mc::choose(BIG_HALVES), ro, co); depth = mc::thorough ? 2 : 1;
  } else {
    m = gen_struct(60, 50, P_LCG, mc::choose(O_NUM), mc::flip() ? 600 : 2300); depth = mc::thorough ? 3 : 2;
    ro = Offs{0, 17, 40, 60}; co = Offs{0, 20, 50};
    pick_sched(false);
  }
  m.show();
  if (three) history(make_coo3<C3>(m), depth, ro, co);
  else history(make_coo2<C2>(m), depth, ro, co);
}
}
