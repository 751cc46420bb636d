// Time under control: while `vclock::on`, every clock shows vclock::now (nanoseconds), which only the harness moves.
// Needs the link options CLOCK of checks.py.
#ifndef CLOCK_H
#define CLOCK_H
#include <chrono>
#include <cstdint>
#include <ctime>
#include <sys/time.h>
namespace vp {
namespace vclock { static bool on = false; static int64_t now = 0; static const int64_t base = 1700000000ll * 1000000000; }
}
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!vp::vclock::on) return __real_clock_gettime(c, t);
  int64_t n = vp::vclock::base + vp::vclock::now;
  t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
  return 0;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z) {
  if (!vp::vclock::on) return __real_gettimeofday(t, z);
  int64_t n = vp::vclock::base + vp::vclock::now;
  t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000;
  return 0;
}
// std::chrono::system_clock::now (also high_resolution_clock) and steady_clock::now
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return vp::vclock::on ? vp::vclock::base + vp::vclock::now : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return vp::vclock::on ? vp::vclock::base + vp::vclock::now : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
}
#endif
