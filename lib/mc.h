// Stateless exhaustive explorer.  See DESIGN.md, section "Explorer".
#ifndef MC_H
#define MC_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace mc {

struct Abandon {};                     // thrown to end the current execution early

// ---- tier ----
extern bool thorough;                  // VERIF_TIER=thorough
extern bool verbose;                   // replaying: MC_LOG prints
extern int dev_bound;                  // bound on deviations from default answers (-1: none)

// ---- choices (every source of nondeterminism of the harness) ----
int choose(int n);                     // 0..n-1, all explored
int choose_dev(int n);                 // as choose, but alternatives != 0 each cost one deviation
inline bool flip() { return choose(2) == 1; }
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[choose((int)N)]; }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive
void shard();                          // the subtree below is explored by one worker
[[noreturn]] void prune();             // this combination is not part of the space (not counted)

// ---- bookkeeping ----
void step(unsigned long n = 1);        // n operations of the implementation executed (transitions)
void state(uint64_t h);                // a state of the implementation observed (distinct ones are counted)
void outcome(uint64_t h);              // an end result of an execution (distinct ones are counted)
void validated();                      // this execution was compared with the reference model to its end

// ---- verdicts ----
void report(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));   // record and go on
[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();                         // something was reported in this execution
[[noreturn]] void die_reported();      // something was reported and the process cannot continue
void ok_unless(bool good, const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
extern const char *phase;              // what the harness is doing; goes into crash signatures
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_LOG(...) do { if (mc::verbose) mc::log(__VA_ARGS__); } while (0)

const char *scratch();                 // private directory of this worker process

// ---- hashing ----
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return mix(h, n);
}

}  // namespace mc

// ---- supplied by the harness ----
namespace vp {                         // everything of a harness lives here, apart from the names of the code it runs
extern void mc_body();                 // one execution
extern const char *mc_name;
extern double mc_exec_limit;           // seconds one execution may take before it counts as a hang
extern void mc_setup();                // once per worker process (and per replay)
}
#endif
