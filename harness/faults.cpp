// C13: failures of the file system are reported, never turned into a wrong matrix, array or file.
#include "typedefs.h"
#include "generic/coo.h"
#include "generic/csr.h"
#include "generic/gsb.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <sys/resource.h>
#define PLAIN_VALUES
#include "blk.h"
#include "guard.h"
#include "file.h"
#include "mmref.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 20;
static FILE *devnull;
void mc_setup() { devnull = fopen("/dev/null", "w"); stderr = devnull; signal(SIGXFSZ, SIG_IGN); }
typedef Coo<T_, I_, I_> C1;
typedef Coo2<T_, I_> C2;
typedef Coo3<T_, I_> C3;

// ---- faults injected into the C library's streams, while armed ----
enum { I_FOPEN, I_FREAD, I_FWRITE, I_FCLOSE, I_FPRINTF, I_FGETS, I_FSEEK, I_FTELL, I_KINDS };
static const char *iname[] = {"fopen", "fread", "fwrite", "fclose", "fprintf", "fgets", "fseek", "ftell"};
static bool armed; static int ikind; static long icount, ihits;
static bool hit(int kind) { if (!armed || kind != ikind) return false; return ihits++ == icount; }
static void mark(FILE *f) { f->_flags |= 0x20; }      // as glibc does when the descriptor reports an error
extern "C" {
FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fclose(FILE *); char *__real_fgets(char *, int, FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { if (hit(I_FOPEN)) { errno = EMFILE; return nullptr; } return __real_fopen(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
  if (hit(I_FREAD)) { mark(f); errno = EIO; return n > 1 ? __real_fread(b, s, n / 2, f) : 0; }
  return __real_fread(b, s, n, f);
}
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (f != devnull && hit(I_FWRITE)) { mark(f); errno = ENOSPC; return n > 1 ? __real_fwrite(b, s, n / 2, f) : 0; } return __real_fwrite(b, s, n, f); }
int __wrap_fclose(FILE *f) {
  if (!hit(I_FCLOSE)) return __real_fclose(f);
  int fd = fileno(f); off_t had = lseek(fd, 0, SEEK_END);           // what was still in the buffer is lost
  bool wr = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY; int keep = dup(fd);
  __real_fclose(f);
  if (wr && had >= 0 && ftruncate(keep, had) != 0) {}
  close(keep); errno = ENOSPC; return EOF;
}
int __wrap_fprintf(FILE *f, const char *fmt, ...) {
  if (f != devnull && hit(I_FPRINTF)) { mark(f); errno = ENOSPC; return -1; }
  va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r;
}
char *__wrap_fgets(char *b, int n, FILE *f) { if (hit(I_FGETS)) { mark(f); errno = EIO; return nullptr; } return __real_fgets(b, n, f); }
int __wrap_fseek(FILE *f, long o, int w) { if (hit(I_FSEEK)) { errno = EIO; return -1; } return __real_fseek(f, o, w); }
long __wrap_ftell(FILE *f) { if (hit(I_FTELL)) { errno = EIO; return -1; } return __real_ftell(f); }
}

struct Val { int64_t r, c; double v; };
struct Content { int64_t rows, cols; std::vector<Val> e; };
static bool operator==(Content const &a, Content const &b) {
  if (a.rows != b.rows || a.cols != b.cols || a.e.size() != b.e.size()) return false;
  for (size_t i = 0; i < a.e.size(); i++) if (a.e[i].r != b.e[i].r || a.e[i].c != b.e[i].c || a.e[i].v != b.e[i].v) return false;
  return true;
}
template <class C> static Content content(C &a) {
  Content q{(int64_t)a.rows, (int64_t)a.columns, {}};
  for (int64_t i = 0; i < (int64_t)a.nnz; i++) q.e.push_back(Val{(int64_t)a.get_row_index((I_)i), (int64_t)a.get_column_index((I_)i), (double)a.get_value((I_)i)});
  return q;
}
// a matrix that can only be multiplied: its columns, one after the other
template <class A> static Content columns(A &a) {
  Content q{(int64_t)a.rows, (int64_t)a.columns, {}};
  std::vector<T_> x((size_t)a.columns, T_(0)), y((size_t)a.rows);
  int64_t step = a.columns > 60 ? 7 : 1;
  for (int64_t j = 0; j < (int64_t)a.columns; j += step) {
    std::fill(y.begin(), y.end(), T_(0)); x[(size_t)j] = 1;
    a.spmv(x.data(), y.data());
    x[(size_t)j] = 0;
    for (int64_t i = 0; i < (int64_t)a.rows; i++) if (y[(size_t)i] != 0) q.e.push_back(Val{i, j, (double)y[(size_t)i]});
  }
  return q;
}
static Content product_form(Content const &m) {
  Content q{m.rows, m.cols, {}};
  std::vector<double> d((size_t)(m.rows * m.cols), 0);
  for (auto &e : m.e) d[(size_t)(e.r * m.cols + e.c)] += e.v;
  int64_t step = m.cols > 60 ? 7 : 1;
  for (int64_t j = 0; j < m.cols; j += step) for (int64_t i = 0; i < m.rows; i++) if (d[(size_t)(i * m.cols + j)] != 0) q.e.push_back(Val{i, j, d[(size_t)(i * m.cols + j)]});
  return q;
}

static Content m; static Offs ro, co;
static std::string file[3]; static std::string good[3]; static int nfiles;
static std::string bytes_I(int64_t v) { std::string s; put_bytes(s, (I_)v); return s; }

enum { R_BIN2, R_BIN3, R_SUF, R_CSR, R_CSR2, R_T1, R_T2, R_T3, R_A32, R_AV, R_MM2, R_MM3, R_BLK, R_BLK2, R_BLKC, R_NUM };
static const char *rname[] = {"binary into COO2", "binary into COO3", "by suffix into COO2", "binary into CSR", "binary into CSR2", "three files into COO", "three files into COO2", "three files into COO3", "32 bit array", "value array",
                              "MatrixMarket into COO2", "MatrixMarket into COO3", "blocked into CSBR", "blocked into CSBR2", "blocked into CGBR"};
enum Form { BIN, THREE, ARRAY, MMF, BLK };
static Form form(int r) { return r <= R_CSR2 ? BIN : r <= R_T3 ? THREE : r <= R_AV ? ARRAY : r <= R_MM3 ? MMF : BLK; }

static void build_files(Form f, int elem) {
  nfiles = f == THREE ? 3 : 1;
  std::string base = std::string(mc::scratch()) + "/f";
  for (int i = 0; i < 3; i++) { good[i].clear(); file[i] = base + std::to_string(i) + (f == BIN ? ".bin" : f == MMF ? ".mtx" : ""); }
  if (f == BIN) {
    good[0] = bytes_I(m.rows) + bytes_I(m.cols) + bytes_I((int64_t)m.e.size());
    for (auto &e : m.e) good[0] += bytes_I(e.r);
    for (auto &e : m.e) good[0] += bytes_I(e.c);
    for (auto &e : m.e) put_bytes(good[0], (T_)e.v);
  } else if (f == THREE) {
    for (auto &e : m.e) { good[0] += bytes_I(e.r); good[1] += bytes_I(e.c); put_bytes(good[2], (T_)e.v); }
  } else if (f == ARRAY) {
    for (size_t i = 0; i < m.e.size(); i++) { if (elem == 4) put_bytes(good[0], (uint32_t)(m.e[i].r * 77 + i)); else put_bytes(good[0], (T_)m.e[i].v); }
  } else if (f == MMF) {
    char b[100];
    snprintf(b, sizeof b, "%%%%MatrixMarket matrix coordinate real general\n%ld %ld %zu\n", (long)m.rows, (long)m.cols, m.e.size()); good[0] = b;
    for (auto &e : m.e) { snprintf(b, sizeof b, "%ld %ld %.17g\n", (long)e.r + 1, (long)e.c + 1, e.v); good[0] += b; }
  } else {
    std::set<int64_t> nb;
    for (auto &e : m.e) nb.insert(block_of(ro, e.r) * (int64_t)(co.size() - 1) + block_of(co, e.c));
    std::vector<Val> s = m.e;
    auto id = [](Val const &e) { return block_of(ro, e.r) * (int64_t)(co.size() - 1) + block_of(co, e.c); };
    std::stable_sort(s.begin(), s.end(), [&](Val const &a, Val const &b) { return id(a) != id(b) ? id(a) < id(b) : a.r != b.r ? a.r < b.r : a.c < b.c; });
    good[0] = bytes_I(m.rows) + bytes_I(m.cols) + bytes_I((int64_t)m.e.size()) + bytes_I((int64_t)ro.size() - 1) + bytes_I((int64_t)co.size() - 1) + bytes_I((int64_t)nb.size());
    for (auto &e : s) { good[0] += bytes_I(id(e)) + bytes_I(e.r) + bytes_I(e.c); put_bytes(good[0], (T_)e.v); }
  }
}

// runs a reader; fills what was read if it claims success
struct Got { bool success; int ret; guard::Outcome o; Content c; std::string raw; };
template <class F> static void attempt(Got &g, F &&f) { g.ret = 77; armed = true; ihits = 0; g.o = guard::run([&] { g.ret = f(); }); armed = false; mc::step(); g.success = g.o == guard::RETURNED && g.ret >= 0; }
template <class A> static void coo_reader(Got &g, std::function<int(A *)> f) { A *a = new A; attempt(g, [&] { return f(a); }); if (g.success) { g.c = content(*a); release(*a); } if (g.o == guard::RETURNED) delete a; }
template <class A> static void product_reader(Got &g, std::function<int(A *)> f) { A *a = new A; attempt(g, [&] { return f(a); }); if (g.success) { g.c = columns(*a); release(*a); delete a; } }
template <class V> static void array_reader(Got &g, const char *p) {
  V *d = nullptr; size_t n = 0;
  attempt(g, [&] { return read_bin_array(p, &d, &n); });
  if (g.success) { g.raw.assign((const char *)d, n * sizeof(V)); free(d); }
}
static Got read_with(int r, std::string const *p) {
  Got g;
  const char *a = p[0].c_str(), *b = p[1].c_str(), *c = p[2].c_str();
  I_ nbr = (I_)(ro.size() - 1), nbc = (I_)(co.size() - 1);
  switch (r) {
    case R_BIN2: coo_reader<C2>(g, [&](C2 *x) { return read_bin_COO(x, a); }); break;
    case R_BIN3: coo_reader<C3>(g, [&](C3 *x) { return read_bin_COO(x, a); }); break;
    case R_SUF: coo_reader<C2>(g, [&](C2 *x) { return read_COO(x, a); }); break;
    case R_CSR: product_reader<Csr<T_, I_>>(g, [&](Csr<T_, I_> *x) { return read_bin_CSR(x, a); }); break;
    case R_CSR2: product_reader<Csr2<T_, I_>>(g, [&](Csr2<T_, I_> *x) { return read_bin_CSR(x, a); }); break;
    case R_T1: {
      C1 *x = new C1;
      attempt(g, [&] { return read_bin_COO(x, a, b, c); });
      if (g.success) { g.c = Content{(int64_t)x->rows, (int64_t)x->columns, {}}; for (int64_t i = 0; i < (int64_t)x->nnz; i++) g.c.e.push_back(Val{(int64_t)x->I[i], (int64_t)x->J[i], (double)x->val[i]}); delete x; }
      break;
    }
    case R_T2: coo_reader<C2>(g, [&](C2 *x) { return read_bin_COO(x, a, b, c); }); break;
    case R_T3: coo_reader<C3>(g, [&](C3 *x) { return read_bin_COO(x, a, b, c); }); break;
    case R_A32: array_reader<uint32_t>(g, a); break;
    case R_AV: array_reader<T_>(g, a); break;
    case R_MM2: coo_reader<C2>(g, [&](C2 *x) { return read_mm_COO(x, a); }); break;
    case R_MM3: coo_reader<C3>(g, [&](C3 *x) { return read_mm_COO(x, a); }); break;
    case R_BLK: product_reader<Csbr<T_, I_>>(g, [&](Csbr<T_, I_> *x) { return read_bin_blocked(x, a, give(ro), nbr, give(co), nbc); }); break;
    case R_BLK2: product_reader<Csbr2<T_, I_>>(g, [&](Csbr2<T_, I_> *x) { return read_bin_blocked(x, a, give(ro), nbr, give(co), nbc); }); break;
    case R_BLKC: product_reader<Cgbr<T_, I_, uint16_t>>(g, [&](Cgbr<T_, I_, uint16_t> *x) { return read_bin_blocked(x, a, give(ro), nbr, give(co), nbc); }); break;
  }
  return g;
}
static bool as_intended(int r, Got const &g, Content const &want, std::string const &raw) {
  switch (form(r)) {
    case ARRAY: return g.raw == raw;
    case BLK: return g.c == product_form(want);
    case BIN: return g.c == (r >= R_CSR ? product_form(want) : want);
    case THREE: { Content w = want; w.rows = w.cols = 1; for (auto &e : w.e) { w.rows = std::max(w.rows, e.r + 1); w.cols = std::max(w.cols, e.c + 1); } if (w.e.empty()) { w.rows = g.c.rows; w.cols = g.c.cols; } return g.c == w; }
    default: return g.c == want;
  }
}
static void judge_read(int r, Got const &g, bool may, Content const &want, std::string const &raw, const char *fault) {
  mc::state(mc::mix(mc::hash_bytes(fault, strlen(fault)), r * 8 + (int)std::min<size_t>(m.e.size(), 6)));
  MC_LOG("%s, %s: outcome %d result %d %s", rname[r], fault, g.o, g.ret, guard::what);
  mc::outcome(mc::mix(mc::mix(r, g.o), g.ret + 100));
  if (g.o == guard::EXITED && guard::exit_status == 0) { mc::report("silent", "%s, %s: the program ended with status 0", rname[r], fault); return; }
  if (g.success) {
    if (!may) mc::report("accepted", "%s, %s: success was reported", rname[r], fault);
    else if (!as_intended(r, g, want, raw)) mc::report("wrong", "%s, %s: success was reported for a wrong result", rname[r], fault);
  }
  if (!mc::failed()) mc::validated();
}

enum { W_MM2, W_MM3, W_BIN2, W_BIN3, W_T2, W_T3, W_BLK, W_ARR, W_NUM };
static const char *wname[] = {"MatrixMarket from COO2", "MatrixMarket from COO3", "binary from COO2", "binary from COO3", "three files from COO2", "three files from COO3", "blocked", "array"};
static Form wform(int w) { return w <= W_MM3 ? MMF : w <= W_BIN3 ? BIN : w <= W_T3 ? THREE : w == W_BLK ? BLK : ARRAY; }
template <class C> static C fill(bool blocked) {
  C a;
  allocate(&a, (I_)m.e.size());
  a.rows = (I_)m.rows; a.columns = (I_)m.cols; a.nnz = (I_)m.e.size();
  for (size_t i = 0; i < m.e.size(); i++) set_point(&a, (I_)i, (I_)m.e[i].r, (I_)m.e[i].c, (T_)m.e[i].v);
  return a;
}
static Got write_with(int w, std::string const *p, rlim_t limit, rlim_t nofile) {
  Got g;
  const char *a = p[0].c_str(), *b = p[1].c_str(), *c = p[2].c_str();
  C2 x2 = fill<C2>(false); C3 x3 = fill<C3>(false);
  if (w == W_BLK) {
    for (size_t i = 0; i < m.e.size(); i++) x3.elements[i].block = (I_)get_bytes<I_>(good[0], 6 * sizeof(I_) + i * (3 * sizeof(I_) + sizeof(T_)));
    for (size_t i = 0; i < m.e.size(); i++) {
      size_t at = 6 * sizeof(I_) + i * (3 * sizeof(I_) + sizeof(T_));
      x3.elements[i].row = get_bytes<I_>(good[0], at + sizeof(I_)); x3.elements[i].col = get_bytes<I_>(good[0], at + 2 * sizeof(I_)); x3.elements[i].val = get_bytes<T_>(good[0], at + 3 * sizeof(I_));
    }
    x3.blockrows = (I_)(ro.size() - 1); x3.blockcols = (I_)(co.size() - 1); x3.nnzblocks = get_bytes<I_>(good[0], 5 * sizeof(I_));
  }
  std::string arr = good[0];
  struct rlimit fs, nf, l;
  getrlimit(RLIMIT_FSIZE, &fs); getrlimit(RLIMIT_NOFILE, &nf);
  if (limit != RLIM_INFINITY) { l = fs; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l); }
  if (nofile != RLIM_INFINITY) { l = nf; l.rlim_cur = nofile; setrlimit(RLIMIT_NOFILE, &l); }
  attempt(g, [&] {
    switch (w) {
      case W_MM2: return write_mm_COO(&x2, a);
      case W_MM3: return write_mm_COO(&x3, a);
      case W_BIN2: return write_bin_COO(x2, a);
      case W_BIN3: return write_bin_COO(x3, a);
      case W_T2: return write_bin_COO(&x2, a, b, c);
      case W_T3: return write_bin_COO(&x3, a, b, c);
      case W_BLK: return write_bin_blocked(x3, a);
      default: return write_bin_array(a, (T_ *)&arr[0], arr.size() / sizeof(T_));
    }
  });
  setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_NOFILE, &nf);
  release(x2); release(x3);
  return g;
}
static bool written(int w) {
  for (int i = 0; i < nfiles; i++) {
    std::string got = slurp_file(file[i]);
    if (wform(w) == MMF) {                      // the text may vary, the meaning may not
      mmref::File f = mmref::parse(got);
      Content q{f.rows, f.cols, {}};
      for (auto &e : f.e) q.e.push_back(Val{e.r, e.c, e.v});
      if (f.cls != mmref::VALID || !(q == m) || got.back() != '\n') return false;
    } else if (got != good[i]) return false;
  }
  return true;
}
static void judge_write(int w, Got const &g, bool must, bool may, const char *fault) {
  mc::state(mc::mix(mc::hash_bytes(fault, strlen(fault)), w * 8 + 1000 + (int)std::min<size_t>(m.e.size(), 6)));
  MC_LOG("%s, %s: outcome %d result %d %s", wname[w], fault, g.o, g.ret, guard::what);
  mc::outcome(mc::mix(mc::mix(w + 100, g.o), g.ret + 100));
  if (g.o == guard::EXITED && guard::exit_status == 0) { mc::report("silent", "%s, %s: the program ended with status 0", wname[w], fault); return; }
  bool complete = g.success && may && written(w);
  if (g.success && !may) mc::report("accepted", "%s, %s: success was reported", wname[w], fault);
  else if (g.success && !complete) mc::report("incomplete", "%s, %s: success was reported but the file is not what was to be written", wname[w], fault);
  else if (!g.success && must) mc::report("refused", "%s, %s: failure was reported without a fault (%d)", wname[w], fault, g.ret);
  if (!mc::failed()) mc::validated();
}

static void model(int size) {
  m = Content{3, 4, {}}; ro = {0, 2, 3}; co = {0, 1, 4};
  static const double v[] = {1.5, -2.25, 3, 10.0625, -0.5, 7, 12345.5};
  if (size == 0) return;
  if (size == 1) m.e = {{2, 3, 1.5}};
  if (size == 2) m.e = {{0, 0, 1.5}, {0, 2, -2.25}, {1, 1, 3}, {2, 0, 10.0625}, {2, 3, -0.5}};
  if (size == 3) {                                  // several buffers, with the last row and column at the end
    m.rows = 70; m.cols = 40; ro = {0, 16, 50, 70}; co = {0, 8, 40};
    for (int i = 0; i < 70; i++) for (int j = i % 4; j < 40; j += 4) m.e.push_back({i, j, v[(i + j) % 7]});
    m.e.push_back({69, 39, 4});
    std::stable_sort(m.e.begin(), m.e.end(), [](Val const &a, Val const &b) { return a.r != b.r ? a.r < b.r : a.c < b.c; });
  }
}
static size_t cut(size_t n) { if (n == 0) mc::prune(); return (size_t)mc::choose((int)n); }
static bool put_bad_path(int how, std::string &p, bool reading) {
  std::string d = mc::scratch();
  switch (how) {
    case 0: p = d + "/missing/f.bin"; break;
    case 1: p = d + "/dir.bin"; mkdir(p.c_str(), 0777); break;
    case 2: put_file(d + "/plain", "x"); p = d + "/plain/f.bin"; break;
    case 3: p = ""; break;
    case 4: p = d + "/loop.bin"; if (symlink("loop.bin", p.c_str()) != 0) {} break;
    case 5: p = d + "/" + std::string(300, 'n') + ".bin"; break;
    case 6: if (reading) p = d + "/absent.bin"; else p = "/dev/full"; break;
  }
  return true;
}
#if __has_feature(address_sanitizer)
static const bool sanitized = true;       // the sanitizers need descriptors themselves
#else
static const bool sanitized = false;
#endif
static int open_fds() { if (sanitized) mc::prune(); int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n = i + 1; return n; }

void mc_body() {
  static int base = 0;                             // what failing readers left open is closed
  if (!base) { for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) base = i + 1; } else close_range((unsigned)base, ~0u, 0);
  mcomp::reset(); mcomp::set_threads(1); armed = false; icount = -1; ikind = -1;
  mmref::limit = 1e38;
  bool reading = mc::flip();
  int op = mc::choose(reading ? R_NUM : W_NUM);
  Form f = reading ? form(op) : wform(op);
  int size = mc::choose(lite() ? 3 : 4), fault = mc::choose(8);
  mc::shard();
  model(size);
  if (f == ARRAY && m.e.empty()) mc::prune();
  build_files(f, reading && op == R_A32 ? 4 : 0);
  std::string p[3] = {file[0], file[1], file[2]};
  char what[200]; snprintf(what, sizeof what, "no fault");
  if (reading) {
    for (int i = 0; i < nfiles; i++) put_file(file[i], good[i]);
    Content want = m; std::string raw = good[0]; bool may = false;
    int j = nfiles > 1 && fault != 0 && fault != 4 ? mc::choose(nfiles) : 0;
    switch (fault) {
      case 0: { Got g = read_with(op, p); if (!g.success) mc::report("refused", "%s: a correct file was refused (%d)", rname[op], g.ret); else judge_read(op, g, true, want, raw, what); return; }
      case 1: { int how = mc::choose(7); put_bad_path(how, p[j], true); if (how == 1 && f == MMF) {} snprintf(what, sizeof what, "unusable path %d for file %d", how, j); break; }
      case 2: {                                 // shortened
        size_t k = cut(good[j].size());
        std::string s = good[j].substr(0, k);
        put_file(file[j], s);
        snprintf(what, sizeof what, "file %d cut after %zu of %zu bytes (size %d)", j, k, good[j].size(), size);
        if (f == MMF) {
          mmref::File q = mmref::parse(s);
          may = q.cls != mmref::INVALID;        // a number that lost its last digits cannot be recognised
          want = Content{q.rows, q.cols, {}};
          for (auto &e : q.e) want.e.push_back(Val{e.r, e.c, e.v});
        }
        if (f == ARRAY && k % (op == R_A32 ? 4 : sizeof(T_)) == 0) { may = true; raw = s; }   // a shorter array
        break;
      }
      case 3: {                                 // the header promises more than there is, or companions differ
        static const int more[] = {1, 2, 3, 1000, 100000};
        int d = mc::pick(more);
        std::string s = good[j];
        if (f == ARRAY) mc::prune();
        if (f == THREE) s += std::string((size_t)d % 999, '\0');
        else if (f == MMF) { char b[64], c[64]; snprintf(b, sizeof b, " %zu\n", m.e.size()); snprintf(c, sizeof c, " %zu\n", m.e.size() + (size_t)d); s.replace(s.find(b, 40), strlen(b), c); }
        else { std::string n = bytes_I((int64_t)m.e.size() + d); s.replace(2 * sizeof(I_), sizeof(I_), n); }
        put_file(file[j], s);
        snprintf(what, sizeof what, f == THREE ? "file %d longer by %d bytes" : "file %d promises %d more entries", j, f == THREE ? d % 999 : d);
        break;
      }
      case 4: {                                 // a call into the C library fails
        ikind = mc::choose(I_KINDS);
        if (ikind == I_FWRITE || ikind == I_FPRINTF) mc::prune();
        icount = -1; read_with(op, p); long n = ihits;
        if (n == 0) mc::prune();
        icount = mc::choose((int)std::min<long>(n, 60000));
        may = true;                             // if what was read is right nevertheless
        snprintf(what, sizeof what, "%s call %ld of %ld fails (size %d)", iname[ikind], icount, n, size);
        break;
      }
      case 5: {                                 // no descriptors left
        int k = mc::choose(4);
        struct rlimit nf, l; getrlimit(RLIMIT_NOFILE, &nf); l = nf; l.rlim_cur = (rlim_t)(open_fds() + k);
        if (j) mc::prune();
        setrlimit(RLIMIT_NOFILE, &l);
        Got g = read_with(op, p);
        setrlimit(RLIMIT_NOFILE, &nf);
        snprintf(what, sizeof what, "only %d descriptors", k);
        judge_read(op, g, true, want, raw, what);
        return;
      }
      case 6: {                                 // two of three files are missing or empty
        if (f != THREE || size == 0) mc::prune();
        for (int i = 0; i < 3; i++) if (i != j) { if (mc::flip()) unlink(file[i].c_str()); else put_file(file[i], ""); }
        snprintf(what, sizeof what, "only file %d is usable", j);
        break;
      }
      case 7: {                                 // a field holds a value that does not fit the matrix
        if (f != BIN && f != BLK) mc::prune();
        std::string s = good[0];
        size_t ne = m.e.size(), k = 0; int64_t v, was; size_t at;
        int field = mc::choose(f == BIN ? 4 : 8);          // BIN: rows, columns, row, column; BLK: rows, columns, block-rows, block-columns, blocks, block, row, column
        bool head = f == BIN ? field < 2 : field < 5;
        if (!head) { if (ne == 0) mc::prune(); k = ne > 20 ? (mc::flip() ? ne - 1 : 0) : (size_t)mc::choose((int)ne); }
        if (f == BIN) at = head ? (size_t)field * sizeof(I_) : (3 + (field == 3 ? ne : 0) + k) * sizeof(I_);
        else at = head ? (field < 2 ? (size_t)field : (size_t)field + 1) * sizeof(I_) : 6 * sizeof(I_) + k * (3 * sizeof(I_) + sizeof(T_)) + (size_t)(field - 5) * sizeof(I_);
        was = (int64_t)get_bytes<I_>(s, at);
        if (head) { static const int d[] = {-1, 1, 2, 7}; v = was + mc::pick(d); if (mc::flip()) v = 0; }
        else {
          int64_t nb = f == BLK && field == 5 ? (int64_t)((ro.size() - 1) * (co.size() - 1)) : 0;
          int64_t lim = nb ? nb : field == (f == BIN ? 2 : 6) ? m.rows : m.cols;
          int q = mc::choose(f == BLK && !nb ? 8 : 6);
          switch (q) {
            case 0: v = lim; break;
            case 1: v = lim + 1; break;
            case 2: v = lim + 1000; break;
            case 3: v = (int64_t)(I_)-1; break;
            case 4: v = (int64_t)(I_)-2; break;
            case 5: v = (int64_t)std::numeric_limits<I_>::max(); break;
            default: {                          // beside its block
              Offs &o = field == 6 ? ro : co; int bl = block_of(o, was);
              v = q == 6 ? o[(size_t)bl] - 1 : o[(size_t)bl + 1];
            }
          }
        }
        if (v == was) mc::prune();
        if (f == BIN) {
          if (head) {
            if (v <= 0 && ne == 0) mc::prune();
            if (v < 0) mc::prune();
            (field ? want.cols : want.rows) = v;
            may = true;
            for (auto &e : m.e) if (field ? e.c >= v : e.r >= v) may = false;
          }
        } else if (head && v < 0) mc::prune();
        std::string n = bytes_I(v); s.replace(at, sizeof(I_), n);
        put_file(file[0], s);
        static const char *fb[] = {"rows", "columns", "row", "column"}, *fk[] = {"rows", "columns", "block-rows", "block-columns", "blocks", "block", "row", "column"};
        snprintf(what, sizeof what, "%s %s%zu is %ld instead of %ld (size %d)", f == BIN ? fb[field] : fk[field], head ? "in the header, entry " : "of entry ", k, (long)v, (long)was, size);
        break;
      }
    }
    Got g = read_with(op, p);
    judge_read(op, g, may, want, raw, what);
    return;
  }
  for (int i = 0; i < 3; i++) unlink(file[i].c_str());
  switch (fault) {
    case 0: judge_write(op, write_with(op, p, RLIM_INFINITY, RLIM_INFINITY), true, true, what); return;
    case 1: {
      int j = mc::choose(nfiles), how = mc::choose(7);
      put_bad_path(how, p[j], false);
      snprintf(what, sizeof what, "unusable path %d for file %d", how, j);
      bool empty = how == 6 && good[j].empty();  // nothing needs to be written
      judge_write(op, write_with(op, p, RLIM_INFINITY, RLIM_INFINITY), false, false || empty, what);
      if (empty) return;
      return;
    }
    case 2: {
      size_t n = 0; for (int i = 0; i < nfiles; i++) n = std::max(n, good[i].size());
      size_t k = cut(n + 8);
      if (mc::flip()) { put_file(file[0], std::string(n + 100, 'o')); }     // an older, longer file is replaced
      snprintf(what, sizeof what, "files may only grow to %zu bytes of %zu", k, n);
      judge_write(op, write_with(op, p, k, RLIM_INFINITY), k >= n && f != MMF, true, what);
      return;
    }
    case 3: {
      int k = mc::choose(5);
      snprintf(what, sizeof what, "only %d descriptors", k);
      judge_write(op, write_with(op, p, RLIM_INFINITY, (rlim_t)(open_fds() + k)), false, true, what);
      return;
    }
    case 4: {
      ikind = mc::choose(I_KINDS);
      if (ikind == I_FREAD || ikind == I_FGETS) mc::prune();
      icount = -1; write_with(op, p, RLIM_INFINITY, RLIM_INFINITY); long n = ihits;
      if (n == 0) mc::prune();
      icount = mc::choose((int)std::min<long>(n, 60000));
      for (int i = 0; i < 3; i++) unlink(file[i].c_str());
      snprintf(what, sizeof what, "%s call %ld of %ld fails (size %d)", iname[ikind], icount, n, size);
      judge_write(op, write_with(op, p, RLIM_INFINITY, RLIM_INFINITY), false, true, what);
      return;
    }
    case 5: {                                    // an older, longer file must not shine through
      for (int i = 0; i < nfiles; i++) put_file(file[i], std::string(good[i].size() * 2 + 50, 'o'));
      snprintf(what, sizeof what, "files that existed before");
      judge_write(op, write_with(op, p, RLIM_INFINITY, RLIM_INFINITY), true, true, what);
      return;
    }
    default: mc::prune();
  }
}
}
