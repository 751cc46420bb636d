// Matrix families, reference multiplication and comparison helpers shared by the harnesses.
#ifndef GEN_H
#define GEN_H
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "mc.h"
#include "mcomp.h"
namespace vp {

#ifndef VT
#define VT float
#endif
#ifndef IX
#define IX uint32_t
#endif
typedef VT T_;
typedef IX I_;

// the other type combinations explore a smaller space in the quick tier
inline bool lite() {
#ifdef LITE
  return !mc::thorough;
#else
  return false;
#endif
}

// Units of matrix values, input and output vectors.  All arithmetic stays exact, but no number survives a
// detour through a narrower type: doubles need more bits and a wider exponent than float has, floats no integer holds.
#ifdef PLAIN_VALUES
template <class T> struct Unit { static T val() { return T(1); } static T x() { return T(1); } };
#else
template <class T> struct Unit { static T val() { return T(1021); } static T x() { return T(1); } };
template <> struct Unit<float> { static float val() { return std::ldexp(1.0f, -30); } static float x() { return std::ldexp(1.0f, -10); } };
template <> struct Unit<double> { static double val() { return std::ldexp(67108865.0, 274); } static double x() { return std::ldexp(1.0, -200); } };
#endif
inline T_ mval(int64_t v) { return T_(v) * Unit<T_>::val(); }
inline T_ xvec(int64_t v) { return T_(v) * Unit<T_>::x(); }
inline T_ yvec(int64_t v) { return T_(v) * (Unit<T_>::val() * Unit<T_>::x()); }
inline int64_t unmval(T_ x) {              // the number mval was given, or one it never is given
  double q = (double)(x / Unit<T_>::val());
  if (!(q > -1e9 && q < 1e9) || mval((int64_t)q) != x) return -987654321;
  return (int64_t)q;
}

struct Ent { int64_t r, c; int v; };
inline bool operator==(Ent const &a, Ent const &b) { return a.r == b.r && a.c == b.c && a.v == b.v; }
inline bool operator<(Ent const &a, Ent const &b) {
  if (a.r != b.r) return a.r < b.r;
  if (a.c != b.c) return a.c < b.c;
  return a.v < b.v;
}

struct Mat {
  int64_t rows = 1, cols = 1;
  std::vector<Ent> e;
  char desc[96] = "";
  int64_t nnz() const { return (int64_t)e.size(); }
  uint64_t hash() const {
    uint64_t h = mc::mix(mc::mix(7, rows), cols);
    for (auto &x : e) h = mc::mix(mc::mix(mc::mix(h, x.r), x.c), (uint64_t)(int64_t)x.v);
    return h;
  }
  void show() const {
    MC_LOG("matrix %s %ldx%ld nnz %zu", desc, (long)rows, (long)cols, e.size());
    for (size_t i = 0; i < e.size() && i < 40; i++)
      MC_LOG("  (%ld,%ld) = %d", (long)e[i].r, (long)e[i].c, e[i].v);
  }
};

// small, sign-alternating, mostly distinct values; one of them is an explicit zero
inline int gen_val(size_t k) {
  static const int t[] = {1, -2, 3, 5, -7, 4, 0, 11, -6, 8, 9, -3};
  return t[k % 12];
}

// ---- family 1: every list of at most maxnnz entries (order and repetitions included) ----
inline Mat gen_tiny_dims(int rows, int cols, int maxnnz) {
  Mat m;
  m.rows = rows;
  m.cols = cols;
  int n = mc::range(0, maxnnz);
  for (int k = 0; k < n; k++) {
    int cell = mc::choose((int)(m.rows * m.cols));
    m.e.push_back(Ent{cell / m.cols, cell % m.cols, gen_val(k)});
  }
  snprintf(m.desc, sizeof m.desc, "tiny");
  return m;
}
inline Mat gen_tiny(int maxdim, int maxnnz) {
  int r = mc::range(1, maxdim), c = mc::range(1, maxdim);
  return gen_tiny_dims(r, c, maxnnz);
}

// ---- family 2: every subset of the cells, in row-major or reversed order ----
inline Mat gen_pattern(int rows, int cols) {
  Mat m;
  m.rows = rows;
  m.cols = cols;
  int n = rows * cols;
  for (int k = 0; k < n; k++)
    if (mc::flip()) m.e.push_back(Ent{k / cols, k % cols, gen_val(k)});
  if (mc::flip()) std::reverse(m.e.begin(), m.e.end());
  snprintf(m.desc, sizeof m.desc, "pattern");
  return m;
}

// ---- family 3: structured ----
enum { P_DIAG, P_ANTI, P_ROW0, P_ROWL, P_COL0, P_COLL, P_CORNERS, P_THIRD, P_LCG, P_FULL, P_ONE_HEAVY, P_EMPTY, P_NUM };
inline const char *pat_name(int p) {
  static const char *n[] = {"diag", "anti", "row0", "rowL", "col0", "colL", "corners", "third", "lcg", "full", "heavy", "empty"};
  return n[p];
}
struct Lcg {
  uint64_t s;
  explicit Lcg(uint64_t seed) : s(seed * 2862933555777941757ULL + 3037000493ULL) {}
  uint32_t next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(s >> 33); }
  int64_t below(int64_t n) { return (int64_t)(next() % (uint64_t)n); }
};
enum { O_ROW, O_COL, O_REV, O_MIX, O_NUM };
inline void gen_order(Mat &m, int ord) {
  if (ord == O_COL)
    std::stable_sort(m.e.begin(), m.e.end(), [](Ent const &a, Ent const &b) { return a.c != b.c ? a.c < b.c : a.r < b.r; });
  else if (ord == O_REV)
    std::reverse(m.e.begin(), m.e.end());
  else if (ord == O_MIX) {
    Lcg g(m.e.size() + 17);
    for (size_t i = m.e.size(); i > 1; i--) std::swap(m.e[i - 1], m.e[g.below((int64_t)i)]);
  }
}
inline Mat gen_struct(int64_t rows, int64_t cols, int pat, int ord, int64_t lcg_nnz = 0) {
  Mat m;
  m.rows = rows;
  m.cols = cols;
  auto add = [&](int64_t r, int64_t c) { m.e.push_back(Ent{r, c, gen_val(m.e.size())}); };
  int64_t d = std::min(rows, cols);
  switch (pat) {
    case P_DIAG: for (int64_t i = 0; i < d; i++) add(i, i); break;
    case P_ANTI: for (int64_t i = 0; i < d; i++) add(i, cols - 1 - i); break;
    case P_ROW0: for (int64_t i = 0; i < cols; i++) add(0, i); break;
    case P_ROWL: for (int64_t i = 0; i < cols; i++) add(rows - 1, i); break;
    case P_COL0: for (int64_t i = 0; i < rows; i++) add(i, 0); break;
    case P_COLL: for (int64_t i = 0; i < rows; i++) add(i, cols - 1); break;
    case P_CORNERS: add(0, 0); add(0, cols - 1); add(rows - 1, 0); add(rows - 1, cols - 1); break;
    case P_THIRD: for (int64_t i = 1; i < rows; i += 3) { add(i, (i * 7) % cols); add(i, (i * 11 + 3) % cols); } break;
    case P_LCG: {
      Lcg g((uint64_t)(rows * 31 + cols));
      int64_t n = lcg_nnz ? lcg_nnz : std::max<int64_t>(1, std::min<int64_t>(rows * cols, 2 * rows + 3));
      for (int64_t i = 0; i < n; i++) { int64_t r = g.below(rows); add(r, g.below(cols)); }
      break;
    }
    case P_FULL: for (int64_t i = 0; i < rows; i++) for (int64_t j = 0; j < cols; j++) add(i, j); break;
    case P_ONE_HEAVY:   // one heavy block-row at the top, one entry per row below
      for (int64_t i = 0; i < std::min<int64_t>(4, rows); i++) for (int64_t j = 0; j < cols; j++) add(i, j);
      for (int64_t i = 4; i < rows; i++) add(i, i % cols);
      break;
    case P_EMPTY: break;
  }
  gen_order(m, ord);
  snprintf(m.desc, sizeof m.desc, "%s/%d", pat_name(pat), ord);
  return m;
}

// ---- handing a matrix to the library ----
template <class C2> C2 make_coo2(Mat const &m) {
  C2 c;
  allocate(&c, (I_)m.nnz());
  c.rows = (I_)m.rows;
  c.columns = (I_)m.cols;
  for (int64_t i = 0; i < m.nnz(); i++) {
    c.triplets[i].row = (I_)m.e[i].r;
    c.triplets[i].col = (I_)m.e[i].c;
    c.triplets[i].val = mval(m.e[i].v);
  }
  return c;
}
template <class C3> C3 make_coo3(Mat const &m) {
  C3 c;
  allocate(&c, (I_)m.nnz());
  c.rows = (I_)m.rows;
  c.columns = (I_)m.cols;
  for (int64_t i = 0; i < m.nnz(); i++) {
    c.elements[i].row = (I_)m.e[i].r;
    c.elements[i].col = (I_)m.e[i].c;
    c.elements[i].val = mval(m.e[i].v);
    c.elements[i].block = 0;
  }
  return c;
}
template <class COO> std::vector<Ent> entries_of(COO const &c) {
  std::vector<Ent> v;
  for (I_ i = 0; i < c.nonzeros(); i++)
    v.push_back(Ent{(int64_t)c.get_row_index(i), (int64_t)c.get_column_index(i), (int)unmval(c.get_value(i))});
  return v;
}
inline std::vector<Ent> sorted(std::vector<Ent> v) { std::sort(v.begin(), v.end()); return v; }

// ---- multiplication against the reference ----
// y += A x in exact integer arithmetic; values are small enough for float to be exact.
const int GEN_PAD = 24;
inline int gen_x(int64_t j, int round) { static const int t[] = {1, 3, -2, 5, 7, -4, 6, 2}; return t[(j * 3 + round * 5 + (j >> 3)) & 7]; }
inline int gen_y(int64_t i, int round) { static const int t[] = {10, -20, 30, 5, 0, -1, 17}; return t[(i + round) % 7]; }

struct MultCheck {
  Mat const &m;
  bool poison;                       // NaN where no entry refers to x
  std::vector<T_> x, y, before;
  std::vector<int64_t> ref;
  int rounds = 0;
  int px, py;                        // where the vectors begin, in elements: their alignment differs from matrix to matrix
  MultCheck(Mat const &m_, bool poison_) : m(m_), poison(poison_) {
    px = GEN_PAD - (int)((m.rows + 2 * m.cols + m.nnz()) & 3); py = GEN_PAD - (int)((m.rows + m.cols + (m.nnz() >> 2)) & 3);
    ref.resize(m.rows);
    y.assign(m.rows + 2 * GEN_PAD, (T_)-1234);
    for (int64_t i = 0; i < m.rows; i++) { ref[i] = gen_y(i, 0); y[py + i] = yvec(ref[i]); }
    x.assign(m.cols + 2 * GEN_PAD, std::numeric_limits<T_>::quiet_NaN());
  }
  T_ *yp() { return y.data() + py; }
  T_ *xp() { return x.data() + px; }
  void prepare(int round) {
    if (!poison) for (int64_t j = 0; j < m.cols; j++) x[px + j] = xvec(gen_x(j, round));
    else for (auto &a : m.e) x[px + a.c] = xvec(gen_x(a.c, round));
    for (auto &a : m.e) ref[a.r] += (int64_t)a.v * gen_x(a.c, round);
    before = x;
  }
  // returns a description of the difference or nullptr
  bool compare(const char *sig, const char *what) {
    for (int i = 0; i < 2 * GEN_PAD; i++)
      if (y[i < py ? i : i + m.rows] != (T_)-1234) {
        mc::report(sig, "%s: wrote outside the output vector (%s %ldx%ld nnz %ld)", what, m.desc, (long)m.rows, (long)m.cols, (long)m.nnz());
        return false;
      }
    for (int64_t i = 0; i < m.rows; i++)
      if (!(y[py + i] == yvec(ref[i]))) {
        mc::report(sig, "%s: row %ld is %g, expected %ld (%s %ldx%ld nnz %ld, multiplication %d)", what, (long)i,
                   (double)(y[py + i] / yvec(1)), (long)ref[i], m.desc, (long)m.rows, (long)m.cols, (long)m.nnz(), rounds);
        return false;
      }
    if (memcmp(before.data(), x.data(), x.size() * sizeof(T_)) != 0) {
      mc::report(sig, "%s: input vector was changed", what);
      return false;
    }
    return true;
  }
  template <class F> bool run(const char *sig, const char *what, F &&f, int times = 2) {
    for (int k = 0; k < times; k++) {
      prepare(rounds);
      MC_LOG("multiply %s round %d", what, rounds);
      f((T_ const *)xp(), yp());
      mc::step();
      rounds++;
      if (!compare(sig, what)) return false;
    }
    return true;
  }
  uint64_t hash() const { return mc::hash_bytes(y.data(), y.size() * sizeof(T_)); }
};

// ---- schedules used where the property is not about schedules ----
struct Sched { int threads; int policy; };
inline void use(Sched const &s) { mcomp::set_threads(s.threads); mcomp::set_policy((mcomp::Policy)s.policy); }
template <class S> constexpr auto requires_elements(int) -> decltype(((S *)0)->elements, true) { return true; }
template <class S> constexpr bool requires_elements(long) { return false; }
// A matrix object that was already used once: built from something else and released (1: many entries, most of them in
// the first rows; 2: nothing). The builders may not rely on what a released object still holds.
static int again = 0;
inline Mat earlier() {
  Mat m; m.rows = again == 1 ? 9 : 2; m.cols = again == 1 ? 8 : 3;
  if (again == 1) for (int64_t r = 0; r < 9; r++) for (int64_t c = 0; c < 8; c++) if (r < 4 || (r * 5 + c) % 7 == 0) m.e.push_back(Ent{r, c, (int)(r + c) % 7 - 8});
  snprintf(m.desc, sizeof m.desc, "earlier");
  return m;
}
template <class SRC> SRC make_src(Mat const &m) { if constexpr (requires_elements<SRC>(0)) return make_coo3<SRC>(m); else return make_coo2<SRC>(m); }
template <class SRC, class A, class F> void build_again(A &a, F &&build) {
  if (!again) return;
  Mat o = earlier();
  SRC s = make_src<SRC>(o);
  build(a, s);
  release(a); release(s);
}
inline Sched pick_sched(bool wide) {
  static const Sched q[] = {{1, mcomp::FIRST}, {2, mcomp::ROUND_ROBIN}, {3, mcomp::LAST}};
  static const Sched w[] = {{1, mcomp::FIRST}, {2, mcomp::FIRST}, {2, mcomp::ROUND_ROBIN}, {3, mcomp::ROUND_ROBIN}, {3, mcomp::LAST}, {4, mcomp::EAGER}, {8, mcomp::ROUND_ROBIN}};
  Sched s = wide ? mc::pick(w) : mc::pick(q);
  use(s);
  MC_LOG("team of %d, policy %d", s.threads, s.policy);
  return s;
}
}
#endif
