// What the library obtained and has not given back: everything allocated while a Lib object lives.
#ifndef LEDGER_H
#define LEDGER_H
#include <cstdint>
#include <cstring>
namespace vp {
static bool in_lib = false;
static const size_t LN = 1 << 15;
static uintptr_t ledger[LN]; static uint32_t size_[LN]; static long owned = 0; static size_t inserted = 0;
static void l_add(const volatile void *p, size_t n) {
  if (!in_lib || !p || inserted > LN / 2) return;
  size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 49;
  while (ledger[i] > 1) i = (i + 1) % LN;
  if (ledger[i] == 0) inserted++;
  ledger[i] = (uintptr_t)p; size_[i] = (uint32_t)n; owned++;
}
static void l_del(const volatile void *p) {
  if (!p || !owned) return;
  size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 49;
  while (ledger[i]) { if (ledger[i] == (uintptr_t)p) { ledger[i] = 1; owned--; return; } i = (i + 1) % LN; }
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
inline void ledger_setup() { __sanitizer_install_malloc_and_free_hooks(l_add, l_del); }
inline void ledger_reset() { in_lib = false; owned = 0; inserted = 0; memset(ledger, 0, sizeof ledger); }
struct Lib { bool was; Lib() : was(in_lib) { in_lib = true; } ~Lib() { in_lib = was; } };
struct Own { bool was; Own() : was(in_lib) { in_lib = false; } ~Own() { in_lib = was; } };
}
#endif
