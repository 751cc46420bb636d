// C24: vectors handed out by the library are complete, aligned, initialised as asked and given back.
#include "common.h"
#include "gen.h"
#include "guard.h"
#ifdef LEDGER
#include "ledger.h"
#endif
namespace vp {
const char *mc_name = HNAME;
double mc_exec_limit = 20;
#ifdef LEDGER
void mc_setup() { ledger_setup(); }
#else
struct Lib {}; static long owned = 0; static void ledger_reset() {}
void mc_setup() {}
#endif
// what rand() answers: counts up, the extremes, or itself
static int rands = 0, nth = 0;
static const int answers[] = {0, RAND_MAX, 1, RAND_MAX / 2, RAND_MAX - 1};
extern "C" int __real_rand();
extern "C" int __wrap_rand() {
  switch (rands) {
    case 1: return 0;
    case 2: return RAND_MAX;
    case 3: return answers[nth++ % 5];
    default: return __real_rand();
  }
}
enum { ZERO, RANDOM, PLAIN };
static const char *kn[] = {"vector_zero", "vector_random", "vector_allocate"};
template <class T> struct Vec { T *p; uint64_t n; int kind; unsigned salt; };
template <class T> static T pattern(uint64_t i, unsigned salt) { return (T)((i * 7 + salt) % 101); }
template <class T, class IT> static bool obtain(Vec<T> &v, uint64_t n, int kind, const char *types, unsigned salt) {
  v.p = (T *)(uintptr_t)64; v.n = n; v.kind = kind; v.salt = salt; nth = 0;
  guard::Outcome o = guard::run([&] { Lib l; if (kind == ZERO) vector_zero<T, IT>(&v.p, (IT)n); else if (kind == RANDOM) vector_random<T, IT>(&v.p, (IT)n); else v.p = vector_allocate<T>((size_t)n); });
  mc::step();
  if (o != guard::RETURNED) { mc::report("stopped", "%s of %lu elements (%s): the program stopped", kn[kind], (unsigned long)n, types); return false; }
  if (n && !v.p) { mc::report("missing", "%s of %lu elements (%s): no vector", kn[kind], (unsigned long)n, types); return false; }
  if ((uintptr_t)v.p % 64) { mc::report("alignment", "%s of %lu elements (%s): the vector does not begin at a cache line", kn[kind], (unsigned long)n, types); return false; }
  if (kind != PLAIN) for (uint64_t i = 0; i < n; i++) {
    bool ok = kind == ZERO ? v.p[i] == (T)0 && !std::signbit((double)v.p[i]) : v.p[i] >= (T)0 && v.p[i] <= (T)1;
    if (!ok) { mc::report("content", "%s of %lu elements (%s): element %lu is %g", kn[kind], (unsigned long)n, types, (unsigned long)i, (double)v.p[i]); return false; }
  }
  for (uint64_t i = 0; i < n; i++) v.p[i] = pattern<T>(i, salt);
  return true;
}
template <class T> static bool kept(Vec<T> const &v, const char *types) {
  for (uint64_t i = 0; i < v.n; i++) if (v.p[i] != pattern<T>(i, v.salt)) { mc::report("kept", "%s of %lu elements (%s): element %lu changed by itself", kn[v.kind], (unsigned long)v.n, types, (unsigned long)i); return false; }
  return true;
}
template <class T> static bool give_back(Vec<T> &v, const char *types) {
  guard::Outcome o = guard::run([&] { Lib l; vector_release(v.p); });
  mc::step();
  if (o != guard::RETURNED) { mc::report("stopped", "releasing a vector of %lu elements (%s): the program stopped", (unsigned long)v.n, types); return false; }
  return true;
}
template <class T, class IT> static void lone(int kind, const char *types) {       // every size
  int fam = mc::choose(2); rands = kind == RANDOM ? mc::choose(4) : 0;
  uint64_t n, top = (uint64_t)std::numeric_limits<IT>::max();
  if (fam == 0) { n = (uint64_t)mc::range(0, mc::thorough ? 9000 : 1100); }
  else { static const uint64_t q[] = {4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 262145, 1048577}; n = mc::pick(q); }
  mc::shard();
  if (n > top) mc::prune();
  mc::state(mc::mix(mc::mix(mc::hash_bytes(types, strlen(types)), n), kind * 4 + rands));
  ledger_reset();
  Vec<T> v;
  if (!obtain<T, IT>(v, n, kind, types, 3)) return;
  if (!kept(v, types) || !give_back(v, types)) return;
  if (owned) { mc::report("leak", "%s of %lu elements (%s): memory is left after the release", kn[kind], (unsigned long)n, types); return; }
  mc::validated();
}
template <class T, class IT> static void history(const char *types) {              // several vectors alive at a time
  static const uint64_t sizes[] = {1, 16, 17, 0, 5, 1000};
  ledger_reset(); rands = 3;
  std::vector<Vec<T>> live; uint64_t h = mc::hash_bytes(types, strlen(types)); bool ok = true;
  int len = mc::thorough ? 5 : lite() ? 3 : 4;
  for (int s = 0; ok && s < len; s++) {
    const int kinds = std::is_floating_point<T>::value ? 3 : 2, ns = s < 2 ? 6 : 3;
    int op = mc::choose(kinds * ns + (int)live.size()); if (s == 1) mc::shard();
    h = mc::mix(h, op);
    if (op < kinds * ns) {
      if (sizes[op % ns] > (uint64_t)std::numeric_limits<IT>::max()) mc::prune();
      Vec<T> v; int kind = op / ns; if (kinds == 2 && kind == 1) kind = PLAIN;
      ok = obtain<T, IT>(v, sizes[op % ns], kind, types, (unsigned)s * 11);
      if (ok) live.push_back(v);
    } else { Vec<T> v = live[op - kinds * ns]; live.erase(live.begin() + (op - kinds * ns)); ok = give_back(v, types); }
    for (auto &v : live) ok = ok && kept(v, types);
    for (size_t i = 0; ok && i < live.size(); i++) for (size_t j = 0; ok && j < i; j++) {
      uintptr_t a = (uintptr_t)live[i].p, b = (uintptr_t)live[j].p;
      if (live[i].n && live[j].n && a < b + live[j].n * sizeof(T) && b < a + live[i].n * sizeof(T)) { mc::report("shared", "two vectors (%s) share memory", types); ok = false; }
    }
  }
  mc::state(h);
  while (ok && !live.empty()) { Vec<T> v = live.back(); live.pop_back(); ok = give_back(v, types); }
  if (ok && owned) mc::report("leak", "vectors (%s): memory is left after every vector was released", types);
  if (!mc::failed()) mc::validated();
}
template <class T, class IT> static void one(const char *types) {
  int k = mc::choose(std::is_floating_point<T>::value ? 4 : 3);
  if (k == 0) history<T, IT>(types); else lone<T, IT>(k == 1 ? ZERO : k == 2 ? PLAIN : RANDOM, types);
}
void mc_body() {
  mcomp::reset(); use(Sched{1, mcomp::FIRST});
  switch (mc::choose(9)) {
    case 0: one<float, uint32_t>("float, 32 bit"); break;
    case 1: one<double, uint64_t>("double, 64 bit"); break;
    case 2: one<double, int>("double, int"); break;
    case 3: one<float, uint8_t>("float, 8 bit"); break;
    case 4: one<float, uint16_t>("float, 16 bit"); break;
    case 5: one<long double, int64_t>("long double, signed 64 bit"); break;
    case 6: one<int, uint32_t>("int, 32 bit"); break;
    case 7: one<uint8_t, uint32_t>("bytes, 32 bit"); break;
    case 8: one<uint64_t, uint64_t>("uint64_t, 64 bit"); break;
  }
}
}
