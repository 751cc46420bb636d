// C07: every sort returns an ordered, stable permutation, for every schedule and when the buffer cannot be had.
#include "typedefs.h"
#include "utils.h"
#include "blk.h"
#include <array>
#include <new>
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}

// ---- failing allocation of temporary buffers ----
static int fail_mode = 0;      // 1: the first one of a sort, 2: all of them, 3: all but the first
static long nothrow_calls = 0;
#ifndef MONITOR
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  long k = vp::nothrow_calls++;
  if ((vp::fail_mode == 1 && k == 0) || vp::fail_mode == 2 || (vp::fail_mode == 3 && k > 0)) return nullptr;
  return malloc(n ? n : 1);
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
namespace vp {
#endif

enum { S_ROW, S_COL, S_DEFAULT, S_MORTON, S_TBLOCKS, S_EBLOCKS, S_WIDE, S_NUM };
static const char *sname[] = {"row-major", "column-major", "default", "Morton", "by blocks (triplets)", "by blocks (elements)", "by wide rows"};

typedef std::vector<uint64_t> Key;
static uint64_t interleave(uint64_t r, uint64_t c) { uint64_t z = 0; for (int i = 0; i < 32; i++) { z |= ((r >> i) & 1) << (2 * i); z |= ((c >> i) & 1) << (2 * i + 1); } return z; }

struct Job {
  int kind;
  std::vector<Ent> in;         // value: position
  int64_t rows, cols;
  Offs ro, co;
  int64_t width;
  std::array<uint64_t, 4> key(Ent const &e) const {
    switch (kind) {
      case S_COL: return {(uint64_t)e.c, (uint64_t)e.r, 0, 0};
      case S_MORTON: return {interleave((uint64_t)e.r, (uint64_t)e.c), 0, 0, 0};
      case S_TBLOCKS: return {(uint64_t)block_of(ro, e.r), (uint64_t)block_of(co, e.c), (uint64_t)e.r, 0};
      case S_EBLOCKS: return {(uint64_t)block_of(ro, e.r) * (co.size() - 1) + (uint64_t)block_of(co, e.c), (uint64_t)e.r, (uint64_t)e.c, 0};
      case S_WIDE: return {(uint64_t)e.r / (uint64_t)width, (uint64_t)e.c, (uint64_t)e.r, 0};
      default: return {(uint64_t)e.r, (uint64_t)e.c, 0, 0};
    }
  }
};

template <class V, class X> static void set_block(Triplet<V, X> &, int64_t) {}
template <class V, class X> static void set_block(Element<V, X> &e, int64_t b) { e.block = (X)b; }

template <class P> static std::vector<P> load(Job const &j) {
  std::vector<P> a(j.in.size() + 2);
  memset((void *)a.data(), 0x5b, a.size() * sizeof(P));
  for (size_t i = 0; i < j.in.size(); i++) {
    a[i + 1].row = j.in[i].r; a[i + 1].col = j.in[i].c; a[i + 1].val = mval(j.in[i].v);
    set_block(a[i + 1], block_of(j.ro, j.in[i].r) * (int64_t)(j.co.size() - 1) + block_of(j.co, j.in[i].c));
  }
  return a;
}
template <class P> static bool verify(Job const &j, std::vector<P> const &a, P const &guard) {
  size_t n = j.in.size();
  char what[160];
  snprintf(what, sizeof what, "sort %s of %zu entries", sname[j.kind], n);
  if (memcmp(&a[0], &guard, sizeof(P)) || memcmp(&a[n + 1], &guard, sizeof(P))) { mc::report("outside", "%s: wrote outside the array", what); return false; }
  std::vector<char> seen(n, 0);
  std::array<uint64_t, 4> pk{};
  for (size_t i = 0; i < n; i++) {
    int64_t id = unmval(a[i + 1].val);
    if (id < 0 || id >= (int64_t)n || seen[id]) { mc::report("permutation", "%s: the result is no permutation: position %zu holds entry %ld %s", what, i, (long)id, id >= 0 && id < (int64_t)n ? "again" : ""); return false; }
    seen[id] = 1;
    if ((int64_t)a[i + 1].row != j.in[id].r || (int64_t)a[i + 1].col != j.in[id].c) { mc::report("permutation", "%s: entry %ld changed its coordinates", what, (long)id); return false; }
    auto k = j.key(j.in[id]);
    if (i) {
      if (k < pk) { mc::report("order", "%s: entries %zu and %zu are out of order", what, i - 1, i); return false; }
      int64_t pid = unmval(a[i].val);
      if (j.in[pid].r == j.in[id].r && j.in[pid].c == j.in[id].c && pid > id) { mc::report("stable", "%s: equal entries %ld and %ld changed their order", what, (long)pid, (long)id); return false; }
    }
    pk = k;
  }
  return true;
}

template <class P, class X> static void do_sort(Job const &j, P *p, X n) {
  using std::get;
  if constexpr (sizeof(p->row) >= 4) {
    typedef decltype(p->row) IT;
    if (j.kind == S_ROW) { sort_triplets(p, (IT)n, true); return; }
    if (j.kind == S_COL) { sort_triplets(p, (IT)n, false); return; }
    if (j.kind == S_DEFAULT) { sort_triplets(p, (IT)n); return; }
    if (j.kind == S_WIDE) { sort_triplets_widerows(p, (IT)n, (IT)j.width); return; }
    if constexpr (std::is_same<P, Triplet<T_, I_>>::value)
      if (j.kind == S_TBLOCKS) {
        std::vector<I_> r(j.ro.begin(), j.ro.end()), c(j.co.begin(), j.co.end());
        sort_triplets_blocks(p, (I_)n, r.data(), (I_)(r.size() - 1), c.data(), (I_)(c.size() - 1));
        return;
      }
    if constexpr (std::is_same<P, Element<T_, I_>>::value)
      if (j.kind == S_EBLOCKS) { sort_elements_blocks(p, (I_)n); return; }
  }
  sort_triplets_morton(p, n);
}

enum { H_ALONE, H_IN_TEAM, H_EACH, H_NUM };     // called on its own, by one thread of a team, by every thread for an array of its own
template <class P> static void run(std::vector<Job> const &jobs, int how) {
  std::vector<std::vector<P>> a;
  for (auto &j : jobs) a.push_back(load<P>(j));
  std::vector<P> guard;
  for (auto &x : a) guard.push_back(x[0]);
  nothrow_calls = 0;
  int n = (int)jobs.size();
#ifdef MONITOR
  mcomp::monitor = true;
#endif
  if (how == H_ALONE) do_sort(jobs[0], a[0].data() + 1, (I_)jobs[0].in.size());
  else if (how == H_IN_TEAM) {
    #pragma omp parallel
    #pragma omp single
    do_sort(jobs[0], a[0].data() + 1, (I_)jobs[0].in.size());
  } else {
    #pragma omp parallel for schedule(dynamic, 1)
    for (int i = 0; i < n; i++) do_sort(jobs[i], a[i].data() + 1, (I_)jobs[i].in.size());
  }
  mcomp::monitor = false;
  mc::step(1 + mcomp::points);
  fail_mode = 0;
  uint64_t h = 0;
  for (int i = 0; i < n; i++) { if (!verify(jobs[i], a[i], guard[i])) return; h = mc::hash_bytes(a[i].data(), a[i].size() * sizeof(P), h); }
  mc::outcome(h);
  mc::validated();
}

enum { C_SORTED, C_REVERSED, C_EQUAL, C_TWO, C_SAW, C_FEW, C_MANY, C_ORGAN, C_NUM };
static void fill(Job &j, size_t n, int content) {
  Lcg g(n * 8 + content);
  for (size_t i = 0; i < n; i++) {
    int64_t k;
    int64_t cells = j.rows * j.cols;
    switch (content) {
      case C_SORTED: k = (int64_t)i * cells / (int64_t)n; break;
      case C_REVERSED: k = (int64_t)(n - 1 - i) * cells / (int64_t)n; break;
      case C_EQUAL: k = cells / 2; break;
      case C_TWO: k = i & 1 ? 0 : cells - 1; break;
      case C_SAW: k = ((int64_t)i * 37) % cells; break;
      case C_FEW: k = g.below(5) * (cells / 5 ? cells / 5 : 1) % cells; break;
      case C_MANY: k = g.below(cells); break;
      default: k = (int64_t)(i < n / 2 ? i : n - 1 - i) % cells;
    }
    j.in.push_back(Ent{k / j.cols, k % j.cols, (int)i});
  }
}

void mc_body() {
  mcomp::reset();
  mcomp::monitor = false;
  mc::dev_bound = -1;
  fail_mode = 0;
  Job j;
  int elem = mc::choose(5);              // triplets, elements, triplets with small indices (16, 8 bits), elements sorted by Morton order
  j.kind = mc::choose(S_NUM);
  if (j.kind == S_TBLOCKS && elem != 0) mc::prune();
  if (j.kind == S_EBLOCKS && elem != 1) mc::prune();
  if (elem >= 2 && j.kind != S_MORTON) mc::prune();
  if (elem == 4) mc::prune();
  int fam = mc::choose(3);
  int how = H_ALONE;
  j.width = 1; j.ro = j.co = Offs{0, 0};
  Sched s{1, mcomp::FIRST};
  bool big_index = false;
#ifdef MONITOR
  if (fam != 2) mc::prune();
#endif
  if (fam == 0) {                        // every array over few coordinates
    static const int d[][3] = {{2, 2, 6}, {3, 2, 5}, {2, 3, 5}, {1, 8, 4}, {8, 1, 4}, {3, 3, 4}};
    auto &p = d[mc::choose(lite() ? 2 : 6)];
    j.rows = p[0]; j.cols = p[1];
    if (j.kind == S_TBLOCKS || j.kind == S_EBLOCKS) { j.ro = offs_any(std::min<int64_t>(j.rows, 3)); j.ro.back() = j.rows; j.co = offs_strict(std::min<int64_t>(j.cols, 3)); j.co.back() = j.cols; }
    if (j.kind == S_WIDE) j.width = mc::range(1, 3);
    mc::shard();
    int n = mc::range(0, p[2] + (mc::thorough ? 1 : 0));
    for (int i = 0; i < n; i++) { int k = mc::choose((int)(j.rows * j.cols)); j.in.push_back(Ent{k / j.cols, k % j.cols, i}); }
    how = mc::choose(2);
    fail_mode = mc::choose(3);
    s.threads = mc::range(1, 2);
  } else {
    static const int nq[] = {499, 500, 501, 1000, 1001, 2000, 2001, 2003, 4005, 9001, 70001, 1100003}, nt[] = {255, 499, 500, 501, 502, 999, 1000, 1001, 1002, 1999, 2000, 2001, 2002, 2003, 3999, 4000, 4001, 4005, 8001, 9001, 16005, 70001, 1100003};
    static const int ne[] = {501, 1001, 2001};
    int n = fam == 2 ? mc::pick(ne) : mc::thorough ? mc::pick(nt) : mc::pick(nq);
    static const int64_t dims[][2] = {{50, 40}, {1, 700}, {3000, 1}, {200, 250}, {66000, 70000}};
    int di = mc::choose(5);
    j.rows = dims[di][0]; j.cols = dims[di][1];
    big_index = di == 4;
    int content = mc::choose(C_NUM);
    if (n > 100000 && (lite() || sizeof(I_) == 8 || di != 4 || content != C_MANY || elem == 2)) mc::prune();
    if (n > 20000 && (di == 1 || di == 2 || (content != C_MANY && content != C_FEW && content != C_REVERSED))) mc::prune();
    mc::shard();
    if (fam == 2 && di != 0 && !(di == 3 && mc::thorough)) mc::prune();
    if (elem == 3 && (j.rows > 256 || j.cols > 256)) mc::prune();
    if (elem == 2 && big_index) { j.rows = 65536; j.cols = 65536; }
    if (elem == 3 && di == 3) { j.rows = j.cols = 256; }
    if (j.kind == S_TBLOCKS || j.kind == S_EBLOCKS) {
      int k = mc::choose(4);
      static const int fams[] = {OF_ONE, OF_HALF, OF_UNEVEN, OF_HEAD};
      j.ro = offs_family(j.rows, fams[k]); j.co = offs_family(j.cols, fams[(k + 1) % 4]);
    }
    if (j.kind == S_WIDE) { static const int w[] = {1, 2, 32, 4000}; j.width = mc::pick(w); }
    fill(j, (size_t)n, content);
    if (fam == 1) {
      how = mc::choose(n > 20000 ? 1 : H_NUM);
      fail_mode = how == H_ALONE && n < 100000 ? mc::choose(n > 20000 ? 2 : 4) : 0;
      static const Sched q[] = {{1, mcomp::FIRST}, {2, mcomp::ROUND_ROBIN}, {3, mcomp::LAST}, {8, mcomp::EAGER}};
      s = q[mc::choose(4)];
      if (n > 20000 && s.threads > 1 && s.threads < 8) mc::prune();
      if (n > 100000 && s.threads != 8) mc::prune();
    } else {
      if (content != C_MANY && content != C_EQUAL && content != C_REVERSED && content != C_FEW) mc::prune();
      s.threads = mc::range(2, 3);
      s.policy = mcomp::EXPLORE;
      mc::dev_bound = mc::thorough ? (n > 1500 ? 3 : 5) : (n > 1500 ? 1 : n > 600 ? 2 : 4);
      how = mc::choose(2);
    }
  }
  MC_LOG("%s sort of %zu entries in %ldx%ld, kind of entry %d, called %d, failing %d, team of %d policy %d, rows %s columns %s width %ld", sname[j.kind], j.in.size(), (long)j.rows,
         (long)j.cols, elem, how, fail_mode, s.threads, s.policy, j.ro.size() < 30 ? show(j.ro).c_str() : "(many)", j.co.size() < 30 ? show(j.co).c_str() : "(many)", (long)j.width);
  for (size_t i = 0; i < j.in.size() && i < 20; i++) MC_LOG("  (%ld,%ld)", (long)j.in[i].r, (long)j.in[i].c);
  uint64_t h = mc::mix(j.kind * 8 + elem, j.width);
  for (auto &e : j.in) h = mc::mix(h, (uint64_t)e.r * 100003 + (uint64_t)e.c);
  mc::state(h);
  std::vector<Job> jobs(how == H_EACH ? 3 : 1, j);
  if (how == H_EACH) { std::reverse(jobs[1].in.begin(), jobs[1].in.end()); for (size_t i = 0; i < jobs[1].in.size(); i++) jobs[1].in[i].v = (int)i; jobs[2].in.resize(jobs[2].in.size() / 2); }
  use(s);
  if (elem == 0) run<Triplet<T_, I_>>(jobs, how);
  else if (elem == 1) run<Element<T_, I_>>(jobs, how);
  else if (elem == 2) run<Triplet<T_, uint16_t>>(jobs, how);
  else run<Triplet<T_, uint8_t>>(jobs, how);
}
}
