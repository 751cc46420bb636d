// C10 (single file) and C11 (three files, arrays): binary files have the documented layout and round-trip.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"
#include <cstring>
#define PLAIN_VALUES
#include "gen.h"
#include "guard.h"
#include "file.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() { stderr = fopen("/dev/null", "w"); }

struct Val { int64_t r, c; T_ v; };
struct Big { int64_t rows, cols; std::vector<Val> e; };
static T_ pattern(uint64_t u) { T_ v; memcpy(&v, &u, sizeof v); return v; }
// values are bit patterns: ordinary numbers, both zeros, denormals, infinities, not-a-numbers with payload
static T_ val(int k) {
  static const uint64_t f[] = {0x3f800000, 0xc0200000, 0, 0x80000000, 0x00000001, 0x7f800000, 0x7fc01234, 0x7f7fffff, 0x3dcccccd, 0x0a0d0a0d};
  static const uint64_t d[] = {0x3ff0000000000000, 0xc004000000000000, 0, 0x8000000000000000, 1, 0x7ff0000000000000, 0x7ff8000000001234, 0x7fefffffffffffff, 0x3fb999999999999a, 0x0a0d0a0d0a0d0a0d};
  return pattern(sizeof(T_) == 4 ? f[k % 10] : d[k % 10]);
}
static bool same(T_ const &a, T_ const &b) { return memcmp(&a, &b, sizeof a) == 0; }
static const int64_t imax = std::numeric_limits<I_>::max() > (uint64_t)INT64_MAX ? INT64_MAX : (int64_t)std::numeric_limits<I_>::max();

template <class C> static bool equal(C &a, Big const &m, const char *what, bool dims = true) {
  if (dims && ((int64_t)a.rows != m.rows || (int64_t)a.columns != m.cols)) { mc::report("dimensions", "%s: %ldx%ld, expected %ldx%ld", what, (long)a.rows, (long)a.columns, (long)m.rows, (long)m.cols); return false; }
  if ((int64_t)a.nnz != (int64_t)m.e.size()) { mc::report("count", "%s: %ld entries, expected %zu", what, (long)a.nnz, m.e.size()); return false; }
  for (size_t i = 0; i < m.e.size(); i++) {
    int64_t r = (int64_t)a.get_row_index((I_)i), c = (int64_t)a.get_column_index((I_)i); T_ v = a.get_value((I_)i);
    if (r != m.e[i].r || c != m.e[i].c || !same(v, m.e[i].v)) {
      mc::report("entry", "%s: entry %zu is (%ld,%ld) = %.17g, expected (%ld,%ld) = %.17g", what, i, (long)r, (long)c, (double)v, (long)m.e[i].r, (long)m.e[i].c, (double)m.e[i].v);
      return false;
    }
  }
  return true;
}
template <class C> static C fill(Big const &m) {
  C a;
  allocate(&a, (I_)m.e.size());
  a.rows = (I_)m.rows; a.columns = (I_)m.cols; a.nnz = (I_)m.e.size();
  for (size_t i = 0; i < m.e.size(); i++) set_point(&a, (I_)i, (I_)m.e[i].r, (I_)m.e[i].c, m.e[i].v);
  return a;
}
static std::string rows_of(Big const &m) { std::string s; for (auto &e : m.e) put_bytes(s, (I_)e.r); return s; }
static std::string cols_of(Big const &m) { std::string s; for (auto &e : m.e) put_bytes(s, (I_)e.c); return s; }
static std::string vals_of(Big const &m) { std::string s; for (auto &e : m.e) put_bytes(s, e.v); return s; }
static std::string dir() { return std::string(mc::scratch()) + "/"; }
template <class F> static bool returned(const char *what, F &&f) {
  guard::Outcome o = guard::run(f);
  mc::step();
  if (o == guard::RETURNED) return true;
  mc::report("stopped", "%s stopped the program (%d %s)", what, o, guard::what);
  return false;
}
static void show(Big const &m) {
  uint64_t h = mc::mix(m.rows, m.cols);
  for (auto &e : m.e) h = mc::mix(mc::mix(mc::mix(h, e.r), e.c), mc::hash_bytes(&e.v, sizeof e.v));
  mc::state(h);
  MC_LOG("matrix %ldx%ld, %zu entries", (long)m.rows, (long)m.cols, m.e.size());
  for (size_t i = 0; i < m.e.size() && i < 10; i++) MC_LOG("  (%ld,%ld) = %.17g", (long)m.e[i].r, (long)m.e[i].c, (double)m.e[i].v);
}
static std::string diff(std::string const &a, std::string const &b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return "length " + std::to_string(a.size()) + ", expected " + std::to_string(b.size()) + ", first difference at byte " + std::to_string(i);
}

#ifdef SINGLE
template <class C> static void write_single(Big const &m, std::string const &want, const char *kind) {
  std::string p = dir() + "w.bin";
  C a = fill<C>(m);
  int ret = 77;
  if (!returned(kind, [&] { ret = write_bin_COO(a, p.c_str()); })) return;
  if (ret != 0) mc::report("write", "%s: writing returned %d", kind, ret);
  std::string got = slurp_file(p);
  if (got != want) mc::report("layout", "%s: the file differs from the documented layout: %s", kind, diff(got, want).c_str());
  equal(a, m, "the matrix after being written");
  release(a);
}
template <class C> static void read_single(Big const &m, const char *p, int via, const char *kind) {
  C a;
  again = (int)((m.e.size() + m.rows) % 3);            // some objects were used before
  build_again<C>(a, [](C &a, C &s) { Coo_to_Coo(&a, &s); });
  int ret = 77;
  if (!returned(kind, [&] { ret = via ? read_COO(&a, p) : read_bin_COO(&a, p); })) return;
  mc::outcome(mc::mix(ret + 100, via));
  if (ret != 0) { mc::report("read", "%s: reading a correct file returned %d", kind, ret); return; }
  equal(a, m, kind);
  release(a);
}
template <class A> static void read_csr(Big const &m, const char *p, const char *kind) {
  A a;
  again = (int)((m.e.size() + m.rows) % 3);            // some objects were used before
  build_again<Coo2<T_, I_>>(a, [](A &a, Coo2<T_, I_> &s) { Coo_to_Csr(&a, &s); });
  int ret = 77;
  if (!returned(kind, [&] { ret = read_bin_CSR(&a, p); })) return;
  if (ret != 0) { mc::report("read", "%s: reading a correct file returned %d", kind, ret); return; }
  if ((int64_t)a.rows != m.rows || (int64_t)a.columns != m.cols || (int64_t)a.nonzeros() != (int64_t)m.e.size())
    mc::report("dimensions", "%s: %ldx%ld with %ld entries, expected %ldx%ld with %zu", kind, (long)a.rows, (long)a.columns, (long)a.nonzeros(), (long)m.rows, (long)m.cols, m.e.size());
  else {
    Mat q; q.rows = m.rows; q.cols = m.cols; snprintf(q.desc, sizeof q.desc, "file");
    for (auto &e : m.e) q.e.push_back(Ent{e.r, e.c, (int)e.v});
    MultCheck k(q, true);
    k.run("product", kind, [&](T_ const *x, T_ *y) { a.spmv(x, y); }, 2);
    // column by column, so that no entry can hide behind another
    if (m.cols <= 12 && m.rows <= 12) for (int64_t j = 0; j < m.cols && !mc::failed(); j++) {
      std::vector<T_> x((size_t)m.cols, T_(0)), y((size_t)m.rows, T_(0)), want((size_t)m.rows, T_(0));
      x[(size_t)j] = 1;
      for (auto &e : m.e) if (e.c == j) want[(size_t)e.r] += e.v;
      a.spmv(x.data(), y.data());
      if (y != want) mc::report("column", "%s: column %ld of the matrix differs", kind, (long)j);
    }
  }
  release(a);
}
static void suffixes() {
  struct Name { const char *n; int kind; };          // 0 refused, 1 binary, 2 MatrixMarket
  static const Name names[] = {{"m.bin", 1}, {"m.mtx", 2}, {".bin", 1}, {".mtx", 2}, {"m.bin.mtx", 2}, {"m.mtx.bin", 1}, {"m.BIN", 0}, {"m.MTX", 0}, {"m.binx", 0}, {"m.mtx~", 0},
    {"mbin", 0}, {"mmtx", 0}, {"m.bi", 0}, {"m.mt", 0}, {"bin", 0}, {"n", 0}, {"m.bin.gz", 0}, {"d.bin/m", 0}, {"d.mtx/m", 0}, {"d.bin/m.mtx", 2}, {"d.mtx/m.bin", 1}, {"m.mm", 0}, {"m..bin", 1}, {"m bin", 0}};
  int k = mc::choose((int)(sizeof names / sizeof *names));
  bool bin = mc::flip(), three = mc::flip(), exists = mc::flip();
  std::string p = dir() + names[k].n;
  mkdir((dir() + "d.bin").c_str(), 0777); mkdir((dir() + "d.mtx").c_str(), 0777);
  Big m{3, 4, {{0, 1, T_(2)}, {2, 3, T_(-5)}}};
  std::string b;
  put_bytes(b, (I_)3); put_bytes(b, (I_)4); put_bytes(b, (I_)2);
  b += rows_of(m) + cols_of(m) + vals_of(m);
  if (!bin && names[k].kind == 1) mc::prune();        // text taken for a binary header
  if (exists) put_file(p, bin ? b : "%%MatrixMarket matrix coordinate real general\n3 4 2\n1 2 2\n3 4 -5\n"); else unlink(p.c_str());
  MC_LOG("%s with %s content, %s", names[k].n, bin ? "binary" : "MatrixMarket", exists ? "present" : "missing");
  mc::state(mc::mix(k, bin * 4 + three * 2 + exists));
  bool good = exists && names[k].kind == (bin ? 1 : 2);
  int ret = 77;
  auto go = [&](auto a) {
    if (!returned(names[k].n, [&] { ret = read_COO(&a, p.c_str()); })) return;
    mc::outcome((uint64_t)(ret + 100));
    if (good && ret != 0) mc::report("suffix", "%s was refused with %d", names[k].n, ret);
    else if (!good && ret >= 0) mc::report("suffix", "%s with %s content, %s, was accepted (%d)", names[k].n, bin ? "binary" : "MatrixMarket", exists ? "present" : "missing", ret);
    else if (good) { equal(a, m, names[k].n); }
    if (ret == 0) release(a);
  };
  if (three) go(Coo3<T_, I_>()); else go(Coo2<T_, I_>());
  unlink(p.c_str());
  if (!mc::failed()) mc::validated();
}
static void check(Big const &m, bool csr) {
  show(m);
  std::string want;
  put_bytes(want, (I_)m.rows); put_bytes(want, (I_)m.cols); put_bytes(want, (I_)m.e.size());
  want += rows_of(m) + cols_of(m) + vals_of(m);
  write_single<Coo2<T_, I_>>(m, want, "written from COO2");
  if (!mc::failed()) write_single<Coo3<T_, I_>>(m, want, "written from COO3");
  std::string p = dir() + "r.bin";
  put_file(p, want);                                  // made here, not by the library
  if (!mc::failed()) read_single<Coo2<T_, I_>>(m, p.c_str(), 0, "read into COO2");
  if (!mc::failed()) read_single<Coo3<T_, I_>>(m, p.c_str(), 0, "read into COO3");
  if (!mc::failed()) read_single<Coo2<T_, I_>>(m, p.c_str(), 1, "read by suffix into COO2");
  if (!mc::failed()) read_single<Coo3<T_, I_>>(m, p.c_str(), 1, "read by suffix into COO3");
  if (csr && !mc::failed()) read_csr<Csr<T_, I_>>(m, p.c_str(), "read into CSR");
  if (csr && !mc::failed()) read_csr<Csr2<T_, I_>>(m, p.c_str(), "read into CSR2");
  if (slurp_file(p) != want) mc::report("input", "the input file was changed");
  if (!mc::failed()) mc::validated();
}
#else
template <class C> static void write_three(Big const &m, std::string const w[3], const char *kind) {
  std::string p[3] = {dir() + "wr", dir() + "wc", dir() + "wv"};
  C a = fill<C>(m);
  int ret = 77;
  if (!returned(kind, [&] { ret = write_bin_COO(&a, p[0].c_str(), p[1].c_str(), p[2].c_str()); })) return;
  if (ret != 0) mc::report("write", "%s: writing returned %d", kind, ret);
  static const char *part[] = {"rows", "columns", "values"};
  for (int i = 0; i < 3; i++) { std::string got = slurp_file(p[i]); if (got != w[i]) { mc::report("layout", "%s: the file of %s differs: %s", kind, part[i], diff(got, w[i]).c_str()); break; } }
  equal(a, m, "the matrix after being written");
  release(a);
}
template <class C> static void read_three(Big const &m, std::string const p[3], const char *kind) {
  C a;
  again = (int)((m.e.size() + m.rows) % 3);            // some objects were used before
  build_again<C>(a, [](C &a, C &s) { Coo_to_Coo(&a, &s); });
  int ret = 77;
  if (!returned(kind, [&] { ret = read_bin_COO(&a, p[0].c_str(), p[1].c_str(), p[2].c_str()); })) return;
  if (ret != 0) { mc::report("read", "%s: reading correct files returned %d", kind, ret); return; }
  Big q = m;
  q.rows = q.cols = 0;
  for (auto &e : m.e) { q.rows = std::max(q.rows, e.r + 1); q.cols = std::max(q.cols, e.c + 1); }
  equal(a, q, kind, !m.e.empty());
  mc::outcome(mc::mix(q.rows, q.cols));
  release(a);
}
template <> void read_three<Coo<T_, I_, I_>>(Big const &m, std::string const p[3], const char *kind) {
  Coo<T_, I_, I_> *a = new Coo<T_, I_, I_>;
  int ret = 77;
  if (!returned(kind, [&] { ret = read_bin_COO(a, p[0].c_str(), p[1].c_str(), p[2].c_str()); })) return;
  if (ret != 0) { mc::report("read", "%s: reading correct files returned %d", kind, ret); return; }
  Big q = m;
  q.rows = q.cols = 0;
  for (auto &e : m.e) { q.rows = std::max(q.rows, e.r + 1); q.cols = std::max(q.cols, e.c + 1); }
  if (!m.e.empty() && ((int64_t)a->rows != q.rows || (int64_t)a->columns != q.cols)) mc::report("dimensions", "%s: %ldx%ld, expected %ldx%ld", kind, (long)a->rows, (long)a->columns, (long)q.rows, (long)q.cols);
  if ((int64_t)a->nnz != (int64_t)m.e.size()) mc::report("count", "%s: %ld entries, expected %zu", kind, (long)a->nnz, m.e.size());
  else for (size_t i = 0; i < m.e.size(); i++)
    if ((int64_t)a->I[i] != m.e[i].r || (int64_t)a->J[i] != m.e[i].c || !same(a->val[i], m.e[i].v)) { mc::report("entry", "%s: entry %zu is (%ld,%ld) = %.17g", kind, i, (long)a->I[i], (long)a->J[i], (double)a->val[i]); break; }
  delete a;
}
template <class V> static void array(int len, int how, const char *kind) {
  std::string p = dir() + "a.bin";
  std::vector<V> v((size_t)len);
  unsigned char *b = (unsigned char *)v.data();
  for (size_t i = 0; i < v.size() * sizeof(V); i++) b[i] = how == 0 ? (unsigned char)(i * 37 + 11) : how == 1 ? 0 : how == 2 ? 255 : (unsigned char)(i % 7 == 3 ? 10 : 13);
  std::vector<V> copy = v;
  int ret = 77;
  if (!returned(kind, [&] { ret = write_bin_array(p.c_str(), v.data(), v.size()); })) return;
  if (ret != 0) mc::report("write", "%s: writing returned %d", kind, ret);
  if (!v.empty() && memcmp(v.data(), copy.data(), v.size() * sizeof(V))) mc::report("input", "%s: writing changed the array", kind);
  std::string want((const char *)copy.data(), copy.size() * sizeof(V)), got = slurp_file(p);
  if (got != want) { mc::report("layout", "%s: the file differs: %s", kind, diff(got, want).c_str()); return; }
  V *q = nullptr; size_t n = 12345;
  if (!returned(kind, [&] { ret = read_bin_array(p.c_str(), &q, &n); })) return;
  if (ret != 0 || n != copy.size()) { mc::report("read", "%s: reading returned %d and %zu elements, expected %zu", kind, ret, n, copy.size()); return; }
  if (n && memcmp(q, copy.data(), n * sizeof(V))) mc::report("content", "%s: the array read differs", kind);
  free(q);
}
static void arrays() {
  static const int n1[] = {0, 1, 2, 3, 5, 7, 8, 63, 64, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65536, 100003, 1100003};
  int len = mc::pick(n1), how = mc::choose(4), t = mc::choose(6);
  mc::shard();
  mc::state(mc::mix(len, how * 8 + t));
  MC_LOG("array of %d elements, content %d, type %d", len, how, t);
  switch (t) {
    case 0: array<uint32_t>(len, how, "32 bit array"); break;
    case 1: array<uint64_t>(len, how, "64 bit array"); break;
    case 2: array<float>(len, how, "float array"); break;
    case 3: array<double>(len, how, "double array"); break;
    case 4: array<uint8_t>(len, how, "byte array"); break;
    case 5: array<int>(len, how, "int array"); break;
  }
  if (!mc::failed()) mc::validated();
}
static void check(Big const &m, bool) {
  show(m);
  std::string w[3] = {rows_of(m), cols_of(m), vals_of(m)}, p[3] = {dir() + "rr", dir() + "rc", dir() + "rv"};
  write_three<Coo2<T_, I_>>(m, w, "written from COO2");
  if (!mc::failed()) write_three<Coo3<T_, I_>>(m, w, "written from COO3");
  for (int i = 0; i < 3; i++) put_file(p[i], w[i]);
  if (!mc::failed()) read_three<Coo<T_, I_, I_>>(m, p, "read into COO");
  if (!mc::failed()) read_three<Coo2<T_, I_>>(m, p, "read into COO2");
  if (!mc::failed()) read_three<Coo3<T_, I_>>(m, p, "read into COO3");
  for (int i = 0; i < 3; i++) if (slurp_file(p[i]) != w[i]) mc::report("input", "an input file was changed");
  if (!mc::failed()) mc::validated();
}
#endif

void mc_body() {
  int fam = mc::choose(5);
  Big m{1, 1, {}};
  bool csr = false;
  switch (fam) {
    case 0: {                                  // every small matrix with every kind of value
      m.rows = mc::range(1, 3); m.cols = mc::range(1, 3);
      mc::shard();
      int n = mc::range(0, mc::thorough || (m.rows * m.cols <= 4 && !lite()) ? 3 : 2);
      for (int i = 0; i < n; i++) { int cell = mc::choose((int)(m.rows * m.cols)); m.e.push_back(Val{cell / m.cols, cell % m.cols, val(mc::choose(10))}); }
      break;
    }
    case 1: {                                  // every small sorted matrix, for the CSR readers
      m.rows = mc::range(1, 4); m.cols = mc::range(1, 3);
      mc::shard();
      for (int i = 0; i < m.rows * m.cols; i++) {
        int k = mc::choose(m.rows * m.cols <= 6 ? 3 : 2);      // absent, once, twice
        for (int j = 0; j < k; j++) m.e.push_back(Val{i / m.cols, i % m.cols, T_(gen_val((size_t)i) + j * 20)});
      }
      csr = true;
      break;
    }
    case 2: {                                  // structured matrices up to several buffers of data
      static const int ns[] = {1, 5, 16, 64, 100, 341, 342, 343, 1000, 1024, 5000, 550007};
      int n = ns[mc::choose(lite() ? 8 : 12)];
      int shape = mc::choose(3), pat = mc::choose(P_NUM), ord = mc::choose(O_NUM);
      if (n > 100000 && (shape == 0 || (pat != P_LCG && pat != P_FULL) || (ord != O_ROW && ord != O_MIX))) mc::prune();
      mc::shard();
      Mat q = gen_struct(shape == 1 ? 3 : n, shape == 2 ? 3 : n, pat == P_FULL && n > 64 && shape == 0 ? P_THIRD : pat, ord, n < 100 ? n * 3 : n * 2);
      if (q.nnz() > 300000 && n < 100000) mc::prune();
      m.rows = q.rows; m.cols = q.cols;
      for (auto &e : q.e) m.e.push_back(Val{e.r, e.c, T_(e.v)});
      csr = ord == O_ROW;
      if (csr) std::stable_sort(m.e.begin(), m.e.end(), [](Val const &a, Val const &b) { return a.r != b.r ? a.r < b.r : a.c < b.c; });
      break;
    }
    case 3: {                                  // indices and dimensions at the limits of the types
      static const int64_t ns[] = {1, 2, 255, 256, 65535, 65536, 16777217, 2147483647, 2147483648, 4294967295, 4294967296, 1ll << 53, (1ll << 53) + 1, INT64_MAX};
      m.rows = mc::pick(ns); m.cols = mc::pick(ns);
      if (m.rows > imax || m.cols > imax) mc::prune();
      mc::shard();
      int n = mc::range(0, 2);
      for (int i = 0; i < n; i++) {
        const int64_t rr[] = {0, m.rows - 1, m.rows / 2}, cc[] = {0, m.cols - 1, m.cols / 2};
        m.e.push_back(Val{mc::pick(rr), mc::pick(cc), val(i)});
      }
      break;
    }
    default:
#ifdef SINGLE
      suffixes();
#else
      arrays();
#endif
      return;
  }
  check(m, csr);
}
}
