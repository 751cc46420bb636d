// C16: the automatic block size is usable, a power of two and within its limits; the integer helpers are exact.
#include <climits>
#include "typedefs.h"
#include "params.h"
#include "common.h"
#include "utils.h"
#include "gen.h"
#include "guard.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 20;
void mc_setup() {}
typedef unsigned __int128 U128;
static uint64_t up(uint64_t n) { uint64_t p = 1; while (p < n) p *= 2; return p; }
static int top(uint64_t v) { int k = 0; while (v >>= 1) k++; return k; }

static struct { uint64_t m, n; size_t vs; int workers; } at;
template <class F> static void guarded(F f) {
  guard::Outcome o = guard::run(f);
  if (o != guard::RETURNED) mc::report("stopped", "%lu x %lu, value size %zu, %d workers: the program stopped (%s)", (unsigned long)at.m, (unsigned long)at.n, at.vs, at.workers, guard::what);
}
template <class IT> static void size_of(uint64_t m, uint64_t n, size_t vs, int workers) {
  at = {m, n, vs, workers};
  IT r = pick_block_size((IT)m, (IT)n, vs, workers);
  uint64_t beta = (uint64_t)r;
  auto bad = [&](const char *sig, const char *why) { mc::report(sig, "%lu x %lu, value size %zu, %d workers: block size %lu %s", (unsigned long)m, (unsigned long)n, vs, workers, (unsigned long)beta, why); };
  if (r < 1) { bad("unusable", "is not positive"); return; }
  if (beta & (beta - 1)) { bad("power", "is not a power of two"); return; }
  uint64_t ru = up(m), cu = up(n);
  if (beta > ru || beta > cu) { bad("dimension", "exceeds a rounded-up dimension"); return; }
  if (beta > 1 && (U128)beta * vs > (U128)L2SIZE) { bad("cache", "exceeds the cache budget"); return; }
  // 4 * P, P the smallest power of two with P^4 >= m n
  U128 mn = (U128)m * n, p = 1; while (p * p * p * p < mn) { p *= 2; if (p >> 31) { p = (U128)1 << 32; break; } }
  if ((U128)beta > 4 * p) { bad("root", "exceeds four times the fourth root of the number of cells"); return; }
  if (workers > 1) {
    U128 need = (U128)SLACKNESS * (unsigned)workers;
    if (ru > need && cu > need && (U128)(ru / beta) < need) { bad("workers", "leaves too few block-rows for the workers"); return; }
  }
}
static const int wq[] = {1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 1000, 1 << 20, INT_MAX / SLACKNESS};
static const size_t vs[] = {4, 8, 1, 2, 16, 3, 12, 1000, 262144, 262145, 1 << 20};

template <class IT> static void pairs() {
  int fam = mc::choose(2);
  uint64_t top_ = (uint64_t)std::numeric_limits<IT>::max();
  if (fam == 0) {
    int m = mc::range(1, mc::thorough ? 1100 : 300);
    mc::shard();
    MC_LOG("all columns up to %d with %d rows", mc::thorough ? 1100 : 300, m);
    mc::state(mc::mix(sizeof(IT), m));
    guarded([&] { for (int n = 1; n <= (mc::thorough ? 1100 : 300); n++) for (int w : wq) for (size_t v : vs) { if (mc::failed()) return; size_of<IT>((uint64_t)m, (uint64_t)n, v, w); } });
  } else {
    auto dims = [&] { std::vector<uint64_t> d; int bits = top(top_); for (int k = 0; k <= bits; k++) for (int64_t q : {-1, 0, 1}) { uint64_t x = (1ull << k) + (uint64_t)q; if (x >= 1 && x <= top_ && x <= (1ull << 62)) d.push_back(x); }
      for (uint64_t x : {(uint64_t)3, (uint64_t)100, (uint64_t)12345, (uint64_t)1000000, (uint64_t)3000000000ull, top_ - 1, top_}) if (x <= top_ && x <= (1ull << 62)) d.push_back(x); return d; }();
    uint64_t m = mc::pick(dims);
    mc::shard();
    int w = mc::pick(wq);
    MC_LOG("%lu rows with columns around every power of two, %d workers", (unsigned long)m, w);
    mc::state(mc::mix(mc::mix(sizeof(IT), m), w));
    guarded([&] { for (uint64_t n : dims) for (size_t v : vs) { if (mc::failed()) return; size_of<IT>(m, n, v, w); } });
  }
  mc::step();
  if (!mc::failed()) mc::validated();
}
static void helpers32() {
  const int parts = 4096;
  uint64_t lo = (uint64_t)mc::choose(parts) << 20;
  mc::shard();
  MC_LOG("all numbers from %lu to %lu", (unsigned long)lo, (unsigned long)(lo + (1 << 20) - 1));
  mc::state(lo);
  int k = lo ? top(lo) : 0;
  for (uint64_t v = lo; v < lo + (1 << 20); v++) {
    if (v >> (k + 1)) k++;
    if (v == 0) continue;
    unsigned a = highest_bit_set((unsigned)v);
    if (a != (unsigned)k) { mc::report("bit", "highest set bit of unsigned %lu is %u, expected %d", (unsigned long)v, a, k); return; }
    int b = highest_bit_set((int)(unsigned)v);
    if (b != ((int)(unsigned)v < 0 ? -1 : k)) { mc::report("bit", "highest set bit of int %d is %d, expected %d", (int)(unsigned)v, b, (int)(unsigned)v < 0 ? -1 : k); return; }
    uint64_t p = next_power_of_two(v), w = v & (v - 1) ? 2ull << k : v;
    if (p != w) { mc::report("power", "next power of two of %lu is %lu, expected %lu", (unsigned long)v, (unsigned long)p, (unsigned long)w); return; }
  }
  mc::step(1 << 20);
  mc::validated();
}
static void helpers64() {
  int i = mc::range(0, 63), j = mc::range(0, 63);
  if (j > i) mc::prune();
  mc::shard();
  MC_LOG("64 bit numbers with top bits %d and %d", i, j);
  mc::state(i * 64 + j);
  for (int d = -2; d <= 2; d++) for (int l = 0; l <= j; l++) for (int fill = 0; fill < 2; fill++) {
    uint64_t v = ((1ull << i) | (1ull << j) | (1ull << l)) + (uint64_t)(int64_t)d;
    if (fill) v |= (1ull << l) - 1;
    if (v == 0) continue;
    int k = top(v);
    unsigned a = highest_bit_set(v);
    if (a != (unsigned)k) { mc::report("bit", "highest set bit of unsigned %lu is %u, expected %d", (unsigned long)v, a, k); return; }
    int64_t b = highest_bit_set((int64_t)v);
    if (b != ((int64_t)v < 0 ? -1 : k)) { mc::report("bit", "highest set bit of %ld is %ld, expected %d", (long)v, (long)b, (int64_t)v < 0 ? -1 : k); return; }
    if (v <= 1ull << 63) { uint64_t p = next_power_of_two(v), w = up(v); if (p != w) { mc::report("power", "next power of two of %lu is %lu, expected %lu", (unsigned long)v, (unsigned long)p, (unsigned long)w); return; } }
    mc::step();
  }
  mc::validated();
}

void mc_body() {
  mcomp::reset();
  switch (mc::choose(lite() ? 4 : 6)) {        // the helpers do not depend on the parameters
    case 0: pairs<uint32_t>(); break;
    case 1: pairs<uint64_t>(); break;
    case 2: pairs<int>(); break;
    case 3: pairs<int64_t>(); break;
    case 4: helpers32(); break;
    case 5: helpers64(); break;
  }
}
}
