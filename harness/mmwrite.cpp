// C09: a matrix written as MatrixMarket is well formed and reads back identical.
#include "typedefs.h"
#include "generic/coo.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "io/input.h"
#include "io/output.h"
#include <cfloat>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#define PLAIN_VALUES
#include "gen.h"
#include "guard.h"
#include "mmref.h"
#include "file.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 20;
void mc_setup() { stderr = fopen("/dev/null", "w"); }
static const bool is_float = sizeof(T_) == 4;

struct Val { int64_t r, c; T_ v; };
struct Big { int64_t rows, cols; std::vector<Val> e; };
static bool same(T_ a, T_ b) { return memcmp(&a, &b, sizeof a) == 0; }

template <class C> static bool equal(C &a, Big const &m, const char *what) {
  if ((int64_t)a.rows != m.rows || (int64_t)a.columns != m.cols || (int64_t)a.nnz != (int64_t)m.e.size()) {
    mc::report("dimensions", "%s: %ldx%ld with %ld entries, expected %ldx%ld with %zu", what, (long)a.rows, (long)a.columns, (long)a.nnz, (long)m.rows, (long)m.cols, m.e.size());
    return false;
  }
  for (size_t i = 0; i < m.e.size(); i++) {
    int64_t r = (int64_t)a.get_row_index((I_)i), c = (int64_t)a.get_column_index((I_)i); T_ v = a.get_value((I_)i);
    if (r != m.e[i].r || c != m.e[i].c || !same(v, m.e[i].v)) {
      mc::report("entry", "%s: entry %zu is (%ld,%ld) = %.17g, expected (%ld,%ld) = %.17g", what, i, (long)r, (long)c, (double)v, (long)m.e[i].r, (long)m.e[i].c, (double)m.e[i].v);
      return false;
    }
  }
  return true;
}
template <class C> static C fill(Big const &m) {
  C a;
  allocate(&a, (I_)m.e.size());
  a.rows = (I_)m.rows; a.columns = (I_)m.cols; a.nnz = (I_)m.e.size();
  for (size_t i = 0; i < m.e.size(); i++) set_point(&a, (I_)i, (I_)m.e[i].r, (I_)m.e[i].c, m.e[i].v);
  return a;
}
template <class C> static void read_back(const char *path, Big const &m, const char *what) {
  C a;
  int ret = read_mm_COO(&a, path);
  mc::step();
  if (ret != 0) { mc::report("unreadable", "%s: the file written cannot be read (%d)", what, ret); return; }
  equal(a, m, what);
  release(a);
}
template <class C> static void trip(Big const &m, const char *kind) {
  std::string path = std::string(mc::scratch()) + "/out.mtx";
  C a = fill<C>(m);
  int ret = write_mm_COO(&a, path.c_str());
  mc::step();
  bool large = m.rows > 2147483647 || m.cols > 2147483647;       // the library documents that sizes are ints
  if (large && ret < 0) { release(a); mc::validated(); return; }
  if (ret != 0) mc::report("write", "%s: writing returned %d", kind, ret);
  if (!equal(a, m, "the matrix after being written")) return;
  release(a);
  if (mc::failed()) return;
  std::string text = slurp_file(path);
  mc::outcome(mc::hash_bytes(text.data(), text.size()));
  mmref::limit = is_float ? FLT_MAX : DBL_MAX;
  mmref::File f = mmref::parse(text);
  if (f.cls != mmref::VALID && !f.limit) { mc::report("malformed", "%s: the file is not a well formed MatrixMarket file: %s", kind, f.why); return; }
  if (f.rows != m.rows || f.cols != m.cols || f.e.size() != m.e.size()) {
    mc::report("header", "%s: the file describes %ldx%ld with %zu entries, expected %ldx%ld with %zu", kind, (long)f.rows, (long)f.cols, f.e.size(), (long)m.rows, (long)m.cols, m.e.size());
    return;
  }
  for (size_t i = 0; i < m.e.size(); i++)
    if (f.e[i].r != m.e[i].r || f.e[i].c != m.e[i].c || !same((T_)f.e[i].v, m.e[i].v)) {
      mc::report("text", "%s: entry %zu is described as (%ld,%ld) = %.17g, expected (%ld,%ld) = %.17g", kind, i, (long)f.e[i].r, (long)f.e[i].c, f.e[i].v, (long)m.e[i].r, (long)m.e[i].c, (double)m.e[i].v);
      return;
    }
  read_back<Coo2<T_, I_>>(path.c_str(), m, "read into COO2");
  if (m.e.size() < (1u << 20) && !mc::failed()) read_back<Coo3<T_, I_>>(path.c_str(), m, "read into COO3");
  if (!mc::failed()) mc::validated();
}
static void both(Big const &m, bool one) {
  uint64_t h = mc::mix(m.rows, m.cols);
  for (auto &e : m.e) h = mc::mix(mc::mix(mc::mix(h, e.r), e.c), mc::hash_bytes(&e.v, sizeof e.v));
  mc::state(h);
  MC_LOG("matrix %ldx%ld, %zu entries", (long)m.rows, (long)m.cols, m.e.size());
  for (size_t i = 0; i < m.e.size() && i < 10; i++) MC_LOG("  (%ld,%ld) = %.17g", (long)m.e[i].r, (long)m.e[i].c, (double)m.e[i].v);
  trip<Coo2<T_, I_>>(m, "from COO2");
  if (!one && !mc::failed()) trip<Coo3<T_, I_>>(m, "from COO3");
}
template <class U, class V> static V bits(U u) { V v; memcpy(&v, &u, sizeof v); return v; }
static T_ from_bits(uint64_t sign, uint64_t ex, uint64_t man) {
  if (is_float) return (T_)bits<uint32_t, float>((uint32_t)(sign << 31 | ex << 23 | man));
  return (T_)bits<uint64_t, double>(sign << 63 | ex << 52 | man);
}
static const double vals[] = {1, -2.5, 0, -0.0, 0.1, 1e30, -3.4028234663852886e38, 1.401298464324817e-45, 16777217, 0.3333333333333333};

void mc_body() {
  int fam = mc::choose(mc::thorough && is_float ? 5 : 4);
  Big m{1, 1, {}};
  if (fam == 0) {                       // every small matrix
    m.rows = mc::range(1, 3); m.cols = mc::range(1, 3);
    mc::shard();
    int n = mc::range(0, mc::thorough || m.rows * m.cols <= 4 ? 3 : 2);
    for (int i = 0; i < n; i++) { int cell = mc::choose((int)(m.rows * m.cols)); m.e.push_back(Val{cell / m.cols, cell % m.cols, (T_)vals[mc::choose(10)]}); }
  } else if (fam == 1) {                // dimensions and indices at the limits
    static const int64_t ns[] = {2147483648, 4294967295, 1, 9, 10, 255, 256, 65535, 65536, 999999, 1000000, 16777217, 2147483647};
    m.rows = mc::pick(ns); m.cols = mc::pick(ns);
    if (std::max(m.rows, m.cols) > (int64_t)std::min<uint64_t>((uint64_t)std::numeric_limits<I_>::max(), INT64_MAX)) mc::prune();
    mc::shard();
    int n = mc::range(1, 2);
    for (int i = 0; i < n; i++) {
      const int64_t rr[] = {0, m.rows - 1, m.rows / 2, m.rows > 1 ? m.rows - 2 : 0}, cc[] = {0, m.cols - 1, m.cols / 2, m.cols > 1 ? m.cols - 2 : 0};
      m.e.push_back(Val{mc::pick(rr), mc::pick(cc), (T_)vals[i]});
    }
  } else if (fam == 2) {                // every exponent and sign with the mantissas of one and two set or cleared bits
    int sign = mc::choose(2);
    const int mb = is_float ? 23 : 52, eb = is_float ? 255 : 2047, group = is_float ? 5 : mc::thorough ? 23 : 89;
    int g = mc::choose((eb + group - 1) / group);
    mc::shard();
    static const int part = 1;
    for (int ex = g * group; ex < eb && ex < (g + 1) * group; ex += (!is_float && !mc::thorough && ex > 20 && ex < 2020 && (ex < 1000 || ex > 1050)) ? 11 : part) {
      std::set<uint64_t> ms;
      uint64_t all = (1ull << mb) - 1;
      for (int i = 0; i <= mb; i++) for (int j = 0; j <= i; j++) { uint64_t x = ((1ull << i) | (1ull << j)) & all; ms.insert(x); ms.insert(all ^ x); ms.insert(((1ull << i) - (1ull << j)) & all); }
      for (int k = 0; k < 64; k++) ms.insert((0x9e3779b97f4a7c15ull * (uint64_t)(k + 1)) & all);
      for (uint64_t x : ms) m.e.push_back(Val{(int64_t)m.e.size() % 97, (int64_t)m.e.size() / 97, from_bits((uint64_t)sign, (uint64_t)ex, x)});
    }
    m.rows = 97; m.cols = (int64_t)m.e.size() / 97 + 1;
  } else if (fam == 3) {                // more entries than 16 bits can count
    static const int64_t d[][2] = {{65539, 3}, {3, 65539}, {300, 300}, {1000, 990}};
    auto &p = d[mc::choose(4)];
    mc::shard();
    m.rows = p[0]; m.cols = p[1];
    int64_t n = std::min<int64_t>(m.rows * m.cols, m.rows == 1000 ? 990000 : 65541);
    for (int64_t i = 0; i < n; i++) { int64_t at = i * 7919 % (m.rows * m.cols); m.e.push_back(Val{at / m.cols, at % m.cols, (T_)vals[i % 10]}); }
  } else {                              // every finite single precision number
    int hi = mc::choose(1 << 12);
    if (((hi >> 3) & 255) == 255) mc::prune();
    mc::shard();
    m.rows = 1024; m.cols = 1024;
    for (uint32_t lo = 0; lo < (1u << 20); lo++) m.e.push_back(Val{lo & 1023, lo >> 10, (T_)bits<uint32_t, float>((uint32_t)hi << 20 | lo)});
  }
  both(m, fam == 4);
}
}
