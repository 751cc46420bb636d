// C21: block boundaries, block numbers and the location of indices, against their definitions.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "guard.h"
#include "blk.h"
#include <map>
#include <set>
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}

typedef unsigned __int128 Big;
typedef std::vector<uint64_t> Sizes;
static std::string text(Sizes const &s) { std::string t; for (size_t i = 0; i < s.size() && i < 10; i++) t += (i ? "," : "") + std::to_string(s[i]); return t + (s.size() > 10 ? ",..." : ""); }
template <class X> static const char *tname() { return sizeof(X) == 1 ? "uint8" : sizeof(X) == 2 ? "uint16" : std::is_signed<X>::value ? "int" : sizeof(X) == 4 ? "uint32" : "uint64"; }

// the definition: offsets are running sums, an index lies in the block whose offsets enclose it
static size_t enclosing(std::vector<uint64_t> const &o, uint64_t i) { for (size_t b = 0; b + 1 < o.size(); b++) if (o[b] <= i && i < o[b + 1]) return b; return (size_t)-1; }
static const size_t PAD = 8;
template <class X> static bool offsets_of(Sizes const &s, std::vector<uint64_t> &want, std::vector<X> &off) {
  want.assign(1, 0); for (auto v : s) want.push_back(want.back() + v);
  off.assign(s.size() + 1 + 2 * PAD, (X)0x5b);
  std::vector<X> sz(s.begin(), s.end()), keep = sz;
  size_to_offset(off.data() + PAD, (const X *)sz.data(), (X)s.size());
  mc::step();
  if (sz != keep) { mc::report("offsets", "%s: computing offsets changed the sizes %s", tname<X>(), text(s).c_str()); return false; }
  for (size_t i = 0; i < want.size(); i++) if ((uint64_t)off[PAD + i] != want[i]) { mc::report("offsets", "%s: offset %zu of sizes %s is %lu, expected %lu", tname<X>(), i, text(s).c_str(), (unsigned long)off[PAD + i], want[i]); return false; }
  for (size_t i = 0; i < PAD; i++) if (off[i] != (X)0x5b || off[off.size() - 1 - i] != (X)0x5b) { mc::report("offsets", "%s: offsets of %zu sizes are written outside of their array", tname<X>(), s.size()); return false; }
  return true;
}
template <class X> static bool located(Sizes const &s, std::vector<uint64_t> const &o, std::vector<X> &off, std::vector<uint64_t> const &idx) {
  std::vector<X> keep = off;
  for (auto i : idx) {
    if (i >= o.back()) continue;
    size_t want = s.size() <= 64 ? enclosing(o, i) : (size_t)(std::upper_bound(o.begin(), o.end(), i) - o.begin()) - 1;
    X got = index_to_blockindex(off.data() + PAD, (X)s.size(), (X)i);
    mc::step();
    if ((uint64_t)got != want) { mc::report("index", "%s: index %lu in blocks of sizes %s is attributed to block %lu, expected %zu", tname<X>(), i, text(s).c_str(), (unsigned long)got, want); return false; }
  }
  if (keep != off) { mc::report("index", "%s: locating an index changed the offsets", tname<X>()); return false; }
  return true;
}
template <class X> static bool numbered(Sizes const &rs, std::vector<uint64_t> const &ro, Sizes const &cs, std::vector<uint64_t> const &co, std::vector<uint64_t> const &ri, std::vector<uint64_t> const &ci) {
  std::vector<X> r(ro.begin(), ro.end()), c(co.begin(), co.end());
  std::vector<Element<float, X>> e;
  for (auto i : ri) if (i < ro.back()) for (auto j : ci) if (j < co.back()) e.push_back({(X)i, (X)j, (float)(e.size() % 1000 + 1), (X)77});
  if (e.empty() || e.size() > (uint64_t)std::numeric_limits<X>::max()) return true;
  auto orig = e;
  guard::Outcome g = guard::run([&] { calculate_block_id(e.data(), (X)e.size(), r.data(), (X)rs.size(), c.data(), (X)cs.size()); });
  mc::step();
  bool fits = (Big)rs.size() * cs.size() <= (Big)std::numeric_limits<X>::max();
  if (g != guard::RETURNED) { if (fits) { mc::report("refused", "%s: numbering %zu x %zu blocks is refused", tname<X>(), rs.size(), cs.size()); return false; } return true; }
  for (size_t k = 0; k < e.size(); k++) {
    Big want = (Big)enclosing(ro, orig[k].row) * cs.size() + enclosing(co, orig[k].col);
    if ((Big)e[k].block != want || e[k].row != orig[k].row || e[k].col != orig[k].col || e[k].val != orig[k].val) {
      mc::report("block", "%s: the entry (%lu,%lu) in row blocks %s and column blocks %s has number %lu, expected %lu", tname<X>(), (unsigned long)orig[k].row, (unsigned long)orig[k].col, text(rs).c_str(), text(cs).c_str(), (unsigned long)e[k].block, (unsigned long)want); return false; }
  }
  return true;
}
static std::vector<uint64_t> all_below(uint64_t n) { std::vector<uint64_t> v; for (uint64_t i = 0; i < n; i++) v.push_back(i); return v; }
static std::vector<uint64_t> boundaries(std::vector<uint64_t> const &o) { std::set<uint64_t> s; for (auto v : o) { if (v) s.insert(v - 1); s.insert(v); if (v + 1) s.insert(v + 1); } return std::vector<uint64_t>(s.begin(), s.end()); }

template <class X> static void variable() {
  Sizes s; int fam = mc::choose(4);
  uint64_t mx = (uint64_t)std::numeric_limits<X>::max();
  if (fam == 0) {
    int nb = mc::range(1, mc::thorough ? 6 : 5), big = nb >= 5 && !mc::thorough ? 4 : 5;
    for (int i = 0; i < nb; i++) s.push_back((uint64_t)mc::choose(big));
    mc::shard();
  } else if (fam == 1) {
    static const int nbs[] = {7, 63, 64, 65, 127, 255, 256, 257, 1000, 32767, 65535, 65536, 70001};
    size_t nb = (size_t)mc::pick(nbs); int p = mc::choose(6);
    if (nb >= mx) mc::prune();
    mc::shard();
    Lcg g(nb); uint64_t sum = 0;
    for (size_t i = 0; i < nb; i++) {
      uint64_t v = p == 0 ? 1 : p == 1 ? i % 2 : p == 2 ? (i % 10 == 9 ? 13 : 0) : p == 3 ? i % 5 : p == 4 ? (i == 0 ? 100 : 1) : g.next() % 4;
      if (sum + v > mx) v = 0;
      s.push_back(v); sum += v;
    }
  } else if (fam == 3) {                    // the sum does not fit in the index type: no boundaries exist
    int p = mc::choose(10), lead = mc::choose(3), tail = mc::choose(3);
    mc::shard();
    switch (p) {
      case 0: s = {mx, 1}; break; case 1: s = {1, mx}; break; case 2: s = {mx, mx}; break; case 3: s = {mx / 2 + 1, mx / 2 + 1}; break; case 4: s = {mx, mx, mx, mx, 4}; break;
      case 5: s = {mx / 3 + 1, 0, mx / 3 + 1, mx / 3 + 1}; break; case 6: s = {mx - 1, 1, 1}; break; case 7: s = {mx / 2, mx / 2, 0, 0, 2}; break; case 8: s = {2, mx / 2, mx / 2, mx / 2, mx / 2}; break;
      case 9: s = {mx / 4 + 1, mx / 4 + 1, mx / 4 + 1, mx / 4 + 1}; break;
    }
    if (std::is_signed<X>::value && mc::flip()) { static const int64_t neg[] = {-1, -2, INT32_MIN}; s[0] = 5; s[1] = (uint64_t)mc::pick(neg); }      // so do negative sizes
    if (lead) s.insert(s.begin(), lead == 1 ? 0 : 1);
    if (tail) s.push_back(tail == 1 ? 0 : mx / 2);
    MC_LOG("%s, block sizes %s whose sum does not fit", tname<X>(), text(s).c_str());
    mc::state(mc::mix(sizeof(X) * 2 + std::is_signed<X>::value, mc::hash_bytes(s.data(), s.size() * 8)));
    std::vector<X> sz(s.begin(), s.end()), off(s.size() + 1 + 2 * PAD, (X)0x5b);
    guard::Outcome g = guard::run([&] { size_to_offset(off.data() + PAD, (const X *)sz.data(), (X)s.size()); });
    mc::step();
    if (g == guard::RETURNED) mc::report("wrapped", "%s: block sizes %s, which make no boundaries, are accepted", tname<X>(), text(s).c_str());
    else mc::validated();
    return;
  } else {
    int p = mc::choose(9);
    mc::shard();
    switch (p) {
      case 0: s = {mx}; break; case 1: s = {mx / 2, mx - mx / 2}; break; case 2: s = {1, mx - 1}; break; case 3: s = {mx - 1, 1}; break; case 4: s = {0, mx, 0}; break;
      case 5: s = {mx / 3, 0, mx / 3, mx / 3}; break; case 6: s = {mx / 2 + 1, 0, 0, 1}; break; case 7: { for (uint64_t k = 1; k <= mx / 4; k *= 2) s.push_back(k); } break; case 8: s = {mx - 2, 1, 0, 1}; break;
    }
  }
  std::vector<uint64_t> o; std::vector<X> off;
  mc::state(mc::mix(sizeof(X) * 2 + std::is_signed<X>::value, mc::hash_bytes(s.data(), s.size() * 8)));
  MC_LOG("%s, block sizes %s", tname<X>(), text(s).c_str());
  if (!offsets_of<X>(s, o, off)) return;
  auto idx = o.back() <= 5000 ? all_below(o.back()) : boundaries(o);
  if (!located<X>(s, o, off, idx)) return;
  if (s.size() > 300) { mc::validated(); return; }
  static const Sizes cols[] = {{1}, {3}, {1, 1, 1}, {0, 2, 0, 3}, {4, 0}, {0, 1}};
  if (idx.size() > 60) { auto b = boundaries(o); idx.clear(); for (size_t i = 0; i < b.size(); i += b.size() / 40 + 1) idx.push_back(b[i]); }
  for (auto &c : cols) {
    std::vector<uint64_t> co(1, 0); for (auto v : c) co.push_back(co.back() + v);
    if (!numbered<X>(s, o, c, co, idx, all_below(co.back())) || !numbered<X>(c, co, s, o, all_below(co.back()), idx)) return;
  }
  if (s.size() <= 65 && !numbered<X>(s, o, s, o, idx, idx)) return;
  mc::validated();
}
// numbers for constant block sizes
template <class X> static void constant() {
  uint64_t mx = (uint64_t)std::numeric_limits<X>::max();
  uint64_t rows, cols, br, bc; std::vector<uint64_t> ri, ci;
  if (mc::flip()) {
    rows = (uint64_t)mc::range(1, mc::thorough ? 12 : 7); cols = (uint64_t)mc::range(1, mc::thorough ? 12 : 7); br = (uint64_t)mc::range(1, mc::thorough ? 13 : 8); bc = (uint64_t)mc::range(1, mc::thorough ? 13 : 8);
    mc::shard();
    ri = all_below(rows); ci = all_below(cols);
  } else {
    uint64_t q[] = {1, 2, mx / 3, mx / 2, mx / 2 + 1, mx - 1, mx}, z[] = {1, 2, 7, mx / 2, mx - 1, mx};
    rows = q[mc::choose(7)]; cols = q[mc::choose(7)]; br = z[mc::choose(6)]; bc = z[mc::choose(6)];
    mc::shard();
    for (auto d : {rows, cols}) for (uint64_t x : {(uint64_t)0, (uint64_t)1, br - 1, br, bc - 1, bc, d / 2, d - 1}) { if (x < rows) ri.push_back(x); if (x < cols) ci.push_back(x); }
  }
  uint64_t ceil_cols = cols / bc + (cols % bc != 0);
  for (int k = 0; k < 2; k++) {       // at least as many block-columns as the matrix has
    uint64_t nb = ceil_cols + k;
    if (nb > mx || nb < ceil_cols) break;
    for (auto i : ri) for (auto j : ci) {
      Element<float, X> e{(X)i, (X)j, 3.0f, (X)77};
      guard::Outcome g = guard::run([&] { calculate_block_id(&e, (X)1, (X)br, (X)bc, (X)nb); });
      mc::step();
      Big want = (Big)(i / br) * nb + j / bc;
      if (g != guard::RETURNED) { if (((Big)(i / br) + 1) * nb <= mx - nb) { mc::report("refused", "%s: number of (%lu,%lu) in blocks of %lux%lu, %lu block-columns, is refused", tname<X>(), i, j, br, bc, nb); return; } continue; }
      if ((Big)e.block != want || e.row != (X)i || e.col != (X)j || e.val != 3.0f) { mc::report("block", "%s: the entry (%lu,%lu) in blocks of %lux%lu, %lu block-columns, has number %lu, expected %lu", tname<X>(), i, j, br, bc, nb, (unsigned long)e.block, (unsigned long)want); return; }
    }
  }
  mc::state(mc::mix(mc::mix(mc::mix(rows, cols), mc::mix(br, bc)), sizeof(X) + 100 * std::is_signed<X>::value));
  mc::validated();
}
// ---- the constant-size constructors
static Mat m;
static char what[64];
template <class A> static auto column_of(A &a, int64_t k, int) -> decltype((int64_t)a.blockcol_ind[k]) { return (int64_t)a.blockcol_ind[k]; }
template <class A> static int64_t column_of(A &, int64_t, long) { return -1; }       // CSBR2 does not keep them
template <class A> static void cut(A &a, Offs const &ro, Offs const &co) {
  if ((int64_t)a.blockrows != (int64_t)ro.size() - 1 || (int64_t)a.blockcols != (int64_t)co.size() - 1) { mc::report("cut", "%s: %ldx%ld is cut into %ld x %ld blocks, expected %zu x %zu", what, (long)m.rows, (long)m.cols, (long)a.blockrows, (long)a.blockcols, ro.size() - 1, co.size() - 1); return; }
  for (size_t i = 0; i < ro.size(); i++) if ((int64_t)a.get_block_row_offset((I_)i) != ro[i]) { mc::report("cut", "%s: %ldx%ld: block-row %zu begins at %ld, expected %ld", what, (long)m.rows, (long)m.cols, i, (long)a.get_block_row_offset((I_)i), (long)ro[i]); return; }
  for (size_t i = 0; i < co.size(); i++) if ((int64_t)a.get_block_column_offset((I_)i) != co[i]) { mc::report("cut", "%s: %ldx%ld: block-column %zu begins at %ld, expected %ld", what, (long)m.rows, (long)m.cols, i, (long)a.get_block_column_offset((I_)i), (long)co[i]); return; }
  // the non-empty blocks, in order
  std::set<std::pair<int64_t, int64_t>> want, got;
  for (auto &e : m.e) want.insert({block_of(ro, e.r), block_of(co, e.c)});
  bool known = want.empty() || column_of(a, 0, 0) >= 0; if (!known) { std::map<int64_t, int64_t> c; for (auto &b : want) c[b.first]++; want.clear(); for (auto &b : c) for (int64_t k = 0; k < b.second; k++) want.insert({b.first, k}); }
  int64_t n = 0;
  for (int64_t b = 0; b < (int64_t)a.blockrows; b++) for (int64_t k = (int64_t)a.blockrow_ptr[b]; k < (int64_t)a.blockrow_ptr[b + 1] && n <= m.nnz(); k++, n++) got.insert({b, known ? column_of(a, k, 0) : k - (int64_t)a.blockrow_ptr[b]});
  if (n != (int64_t)want.size() || got != want || (int64_t)a.nnzblocks != n) mc::report("blocks", "%s: %ldx%ld with %ld entries: the %ld blocks of the matrix are not the %zu that hold its entries", what, (long)m.rows, (long)m.cols, (long)m.nnz(), (long)n, want.size());
}
static void constructors() {
  int f = mc::choose(6); int64_t br, bc;
  int big = mc::choose(4);
  const int64_t L = sizeof(I_) == 8 ? INT64_MAX : (int64_t)std::numeric_limits<I_>::max();
  m = Mat();
  if (big >= 2) {          // block sizes (2) and dimensions (3) up to the limit of the index type
    if (big == 3 && f != 2) mc::prune();            // the others keep something for every row
    const int64_t dim[] = {L, L - 1, L / 2 + 2, L / 2 + 1, L / 2, 100, 1}, small[] = {1, 2, 7, 100, 257}, sz[] = {L, L - 1, L / 2 + 2, L / 2 + 1, L / 2, L / 2 - 1, L / 3, L / 5 + 1, 50};
    if (big == 2) { m.rows = small[mc::choose(5)]; m.cols = small[mc::choose(5)]; } else { m.rows = dim[mc::choose(7)]; m.cols = dim[mc::choose(7)]; }
    br = sz[mc::choose(9)];
    mc::shard();
    bc = f == 2 ? br : sz[mc::choose(9)];
    if (m.rows / br > 1000 || m.cols / bc > 1000) mc::prune();
    std::set<std::pair<int64_t, int64_t>> at;
    for (int64_t i : {(int64_t)0, std::min(m.rows, br) - 1, br, m.rows / 2, m.rows - 1}) for (int64_t j : {m.cols - 1, bc, (int64_t)0, std::min(m.cols, bc) - 1}) if (i < m.rows && j < m.cols) at.insert({i, j});
    for (auto &a : at) m.e.push_back(Ent{a.first, a.second, (int)m.e.size() + 1});
  } else if (!big) {
    int mx = mc::thorough ? 12 : lite() ? 5 : 9;
    m.rows = mc::range(1, mx); m.cols = mc::range(1, mx); br = mc::range(1, mx + 2);
    mc::shard();
    bc = f == 2 ? br : mc::range(1, mx + 2);
    for (int64_t i = 0; i < m.rows; i++) for (int64_t j = 0; j < m.cols; j++) if ((i + j) % 3 != 2) m.e.push_back(Ent{i, j, (int)(i + j) + 1});
  } else {
    static const int dims[] = {16, 100, 255, 256, 257, 1000, 66001}, sz[] = {1, 7, 15, 16, 17, 50, 51, 99, 100, 101, 128, 255, 256, 257, 500, 501, 999, 1000, 1001, 70000};
    m.rows = mc::pick(dims); m.cols = mc::pick(dims); br = sz[mc::choose(20)];
    if ((lite() && m.rows > 100) || m.rows + m.cols > 70000) mc::prune();
    mc::shard();
    bc = f == 2 ? br : sz[mc::choose(20)];
    for (int64_t i = 0; i < std::min(m.rows, m.cols); i++) m.e.push_back(Ent{i, i, 1});
    m.e.push_back(Ent{m.rows - 1, 0, 2}); m.e.push_back(Ent{0, m.cols - 1, 3}); m.e.push_back(Ent{m.rows - 1, m.cols - 1, 4});
  }
  snprintf(m.desc, sizeof m.desc, "cut");
  static const char *nm[] = {"CSBR from COO2", "CSBR from COO3", "CSBR3", "CSBR2", "CGBR", "CGBR2"};
  snprintf(what, sizeof what, "%s by %ldx%ld", nm[f], (long)br, (long)bc);
  MC_LOG("%s, %ldx%ld", what, (long)m.rows, (long)m.cols);
  mc::state(mc::mix(mc::mix(m.hash(), f), mc::mix(br, bc)));
  Offs ro = offs_const(m.rows, br), co = offs_const(m.cols, bc);
  Coo2<T_, I_> s2; Coo3<T_, I_> s3;
  guard::Outcome g = guard::run([&] {
    switch (f) {
      case 0: { s2 = make_coo2<Coo2<T_, I_>>(m); Csbr<T_, I_> a; Coo_to_Blocked(&a, &s2, (I_)br, (I_)bc); cut(a, ro, co); release(a); } break;
      case 1: { s3 = make_coo3<Coo3<T_, I_>>(m); Csbr<T_, I_> a; Coo_to_Blocked(&a, &s3, (I_)br, (I_)bc); cut(a, ro, co); release(a); } break;
      case 2: { s3 = make_coo3<Coo3<T_, I_>>(m); Csbr3<T_, I_, I_> a; Coo_to_Blocked(&a, &s3, (I_)br, (I_)bc);
        for (Offs *o : {&ro, &co}) { int64_t n = o->back(); o->assign(1, 0); while (o->back() < n) o->push_back(n - o->back() < br ? n : o->back() + br); }     // the last block is the smaller one
        struct V { I_ blockrows, blockcols, nnzblocks; I_ *blockrow_ptr, *blockcol_ind; Csbr3<T_, I_, I_> *a; int64_t rows, cols;
          int64_t get_block_row_offset(I_ i) { return i == blockrows ? rows : std::min<int64_t>(rows, (int64_t)a->get_block_row_offset(i)); } int64_t get_block_column_offset(I_ i) { return i == blockcols ? cols : std::min<int64_t>(cols, (int64_t)a->get_block_column_offset(i)); } };
        V v{a.blockrows, a.blockcols, a.nnzblocks, a.blockrow_ptr, a.blockcol_ind, &a, m.rows, m.cols};
        cut(v, ro, co); release(a); } break;
      case 3: { s3 = make_coo3<Coo3<T_, I_>>(m); Csbr2<T_, I_> a; Coo_to_Blocked(&a, &s3, (I_)br, (I_)bc); cut(a, ro, co); release(a); } break;
      case 4: { s3 = make_coo3<Coo3<T_, I_>>(m); Cgbr<T_, I_, uint32_t> a; Coo_to_Blocked(&a, &s3, (I_)br, (I_)bc); cut(a, ro, co); release(a); } break;
      case 5: { s3 = make_coo3<Coo3<T_, I_>>(m); Cgbr2<T_, I_, uint32_t> a; Coo_to_Blocked(&a, &s3, (I_)br, (I_)bc); cut(a, ro, co); release(a); } break;
    }
  });
  mc::step();
  if (f == 0) release(s2); else release(s3);
  if (g != guard::RETURNED) mc::report("refused", "%s: %ldx%ld is refused", what, (long)m.rows, (long)m.cols);
  else if (!mc::failed()) mc::validated();
}
template <class F8, class F16, class F32, class F64, class FI> static void typed(F8 a, F16 b, F32 c, F64 d, FI e) { switch (mc::choose(5)) { case 0: a(); break; case 1: b(); break; case 2: c(); break; case 3: d(); break; default: e(); } }
void mc_body() {
  mcomp::reset();
  switch (mc::choose(3)) {
    case 0: typed(variable<uint8_t>, variable<uint16_t>, variable<uint32_t>, variable<uint64_t>, variable<int>); break;
    case 1: typed(constant<uint8_t>, constant<uint16_t>, constant<uint32_t>, constant<uint64_t>, constant<int>); break;
    case 2: constructors(); break;
  }
}
}
