// Runs a piece of the library that may refuse its input by stopping the program.
// Needs -Wl,--wrap=exit,--wrap=abort; assertions are intercepted by defining __assert_fail.
#ifndef GUARD_H
#define GUARD_H
#include <cassert>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "mc.h"
#include "mcomp.h"
namespace vp {

namespace guard {
static jmp_buf env;
static bool armed = false;
static int exit_status;
static char what[256];
enum Outcome { RETURNED = 0, ASSERTED = 1, EXITED = 2, ABORTED = 3, THREW = 4 };
}

extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __real_abort();
[[noreturn]] void __wrap_exit(int s) {
  if (guard::armed && !mcomp::in_parallel()) { guard::armed = false; guard::exit_status = s; longjmp(guard::env, guard::EXITED); }
  __real_exit(s);
}
[[noreturn]] void __wrap_abort() {
  if (guard::armed && !mcomp::in_parallel()) { guard::armed = false; longjmp(guard::env, guard::ABORTED); }
  __real_abort();
}
void __assert_fail(const char *expr, const char *file, unsigned line, const char *func) noexcept {
  const char *b = strrchr(file, '/');
  if (guard::armed && !mcomp::in_parallel()) {
    guard::armed = false;
    snprintf(guard::what, sizeof guard::what, "%s:%u: %s", b ? b + 1 : file, line, expr);
    longjmp(guard::env, guard::ASSERTED);
  }
  fprintf(stderr, "%s: %s:%u: %s: Assertion `%s' failed.\n", "check", b ? b + 1 : file, line, func, expr);
  __real_abort();
}
}

namespace guard {
// RETURNED if f came back; otherwise how it stopped.  Memory held by f at that point is lost.
template <class F> Outcome run(F &&f) {
  what[0] = 0;
  exit_status = -1;
  int r = setjmp(env);
  if (r) { MC_LOG("stopped: %d %s", r, what); return (Outcome)r; }
  armed = true;
  try { f(); } catch (mc::Abandon &) { armed = false; throw; } catch (...) { armed = false; return THREW; }
  armed = false;
  return RETURNED;
}
}
}
#endif
