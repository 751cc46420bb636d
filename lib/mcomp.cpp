#include "mcomp.h"
#include "mc.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#if defined(MCOMP_ASAN)
extern "C" void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size);
static inline void san_start(void **f, const void *b, size_t n) { __sanitizer_start_switch_fiber(f, b, n); }
static inline void san_finish(void *f) { __sanitizer_finish_switch_fiber(f, nullptr, nullptr); }
#elif defined(MCOMP_MSAN)
extern "C" void __msan_start_switch_fiber(const void *bottom, size_t size);
extern "C" void __msan_finish_switch_fiber(const void **bottom, size_t *size);
static inline void san_start(void **, const void *b, size_t n) { __msan_start_switch_fiber(b, n); }
static inline void san_finish(void *) { __msan_finish_switch_fiber(nullptr, nullptr); }
#else
static inline void san_start(void **, const void *, size_t) {}
static inline void san_finish(void *) {}
#endif

extern "C" {
typedef struct ident ident_t;
typedef int32_t kmp_int32;
typedef uint32_t kmp_uint32;
typedef int64_t kmp_int64;
typedef uint64_t kmp_uint64;
typedef kmp_int32 kmp_critical_name[8];
typedef kmp_int32 (*routine_t)(kmp_int32, void *);
typedef void (*microtask_t)(kmp_int32 *, kmp_int32 *, ...);
union cmplr { kmp_int32 priority; routine_t destructors; };
struct kmp_task_t { void *shareds; routine_t routine; kmp_int32 part_id; cmplr data1, data2; };
struct kmp_depend_info { intptr_t base; size_t len; uint8_t flags; };
}

namespace mcomp {

long regions, tasks, chunks, points;
int max_team;
bool monitor = false;
long accesses, shadow_checks;


// The runtime's own memory: never malloc, so that neither the monitor nor a leak ledger sees it.
static void *rt_free_list[40];
static char *rt_arena = nullptr, *rt_end = nullptr;
#ifdef MCOMP_MSAN
extern "C" void __msan_unpoison(const volatile void *, size_t);
#define RT_CLEAN(p, n) __msan_unpoison(p, n)
#else
#define RT_CLEAN(p, n)
#endif
static void *rt_alloc(size_t n) {
  int c = 5; while (((size_t)1 << c) < n + 16) c++;
  if (rt_free_list[c]) { void *p = rt_free_list[c]; RT_CLEAN((char *)p + 16, n); rt_free_list[c] = *(void **)((char *)p + 16); return (char *)p + 16; }
  size_t z = (size_t)1 << c;
  if ((size_t)(rt_end - rt_arena) < z) {
    size_t m = z > (1u << 22) ? z : (1u << 22);
    rt_arena = (char *)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (rt_arena == MAP_FAILED) { fprintf(stderr, "mcomp: out of memory\n"); abort(); }
    rt_end = rt_arena + m;
  }
  void *p = rt_arena; rt_arena += z; *(int *)p = c; return (char *)p + 16;
}
static void rt_free(void *q) { if (!q) return; char *p = (char *)q - 16; int c = *(int *)p; *(void **)(p + 16) = rt_free_list[c]; rt_free_list[c] = p; }
struct Rt { static void *operator new(size_t n) { return rt_alloc(n); } static void operator delete(void *p) { rt_free(p); } };
template <class T> struct RA {
  typedef T value_type; RA() {} template <class U> RA(const RA<U> &) {}
  T *allocate(size_t n) { return (T *)rt_alloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { rt_free(p); }
  bool operator==(const RA &) const { return true; } bool operator!=(const RA &) const { return false; }
};
template <class T> using Vec = std::vector<T, RA<T>>;
template <class K, class V> using Map = std::map<K, V, std::less<K>, RA<std::pair<const K, V>>>;

// ------------------------------------------------------------------ vector clocks
struct VC {
  Vec<uint32_t> c;
  uint32_t get(size_t i) const { return i < c.size() ? c[i] : 0; }
  void set(size_t i, uint32_t v) { if (i >= c.size()) c.resize(i + 1, 0); c[i] = v; }
  void join(const VC &o) { if (o.c.size() > c.size()) c.resize(o.c.size(), 0); for (size_t i = 0; i < o.c.size(); i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Group : Rt { Group *outer; long count = 0; VC done; };
struct Team;
struct Thread;

struct Task : Rt {
  int id = 0;                   // index in vector clocks
  VC vc, kids;                  // kids: what completed children did
  Task *parent = nullptr;
  Team *team = nullptr;
  Group *group = nullptr;
  kmp_task_t *kt = nullptr; void *mem = nullptr;
  int children = 0;             // incomplete direct children
  int refs = 1;
  bool is_explicit = false, untied = false, final = false, requeued = false, done = false;
  void tick() { vc.set(id, vc.get(id) + 1); }
};

static void unref(Task *t) { while (t && --t->refs == 0) { Task *p = t->parent; delete t; t = p; } }

enum State { READY, W_TASKWAIT, W_BARRIER, W_LOCK, W_GROUP, W_END, DONE };

struct Fiber : Rt {
  void *sp = nullptr;
  char *stack = nullptr; size_t size = 0;
  Thread *th = nullptr;
  Task *task = nullptr;
  State st = READY;
  void *lock = nullptr;
  Group *group = nullptr;
  void *fake = nullptr;
  bool started = false;
};

struct Loop {
  uint64_t next = 0, trip = 0, done = 0; int sched = 0; int64_t lb = 0, st = 0; uint64_t chunk = 1; bool ready = false;
  int64_t ordered_next = 0; uint64_t static_seq = 0;
};

struct Thread : Rt {
  int tid = 0, gtid = 0;
  Team *team = nullptr;
  Vec<Fiber *> fibers;          // the last one is the one that runs on this thread
  long loop_no = -1, single_no = 0, barrier_no = 0;
  uint64_t my_static = 0;
  bool started = false;
  int64_t ord_cur = -1;
  int saved_threads;
};

struct Team : Rt {
  Team *outer = nullptr;
  int level = 0, active = 0, size = 1;
  Vec<Thread *> th;
  Vec<Task *> pending;          // created, not started; oldest first
  long live_tasks = 0;                  // explicit tasks not finished
  int arrived = 0; long generation = 0;
  VC barrier_vc;                        // everything finished tasks and arrived threads did
  Vec<Loop> loops;
  long singles = 0;
  void *copypriv = nullptr;
  Thread *outer_thread = nullptr; Fiber *outer_fiber = nullptr; size_t slot = 0;
  microtask_t fn = nullptr; int argc = 0; void **argv = nullptr;
};

struct Lock { bool held = false; Task *owner = nullptr; int depth = 0; VC vc; };

static Policy policy = FIRST;
static int nthreads = 1, max_levels = 1, dynamic_ = 0, sched_kind = 1, sched_chunk = 0;
static bool tid_observed = false;
static int next_vc_id = 0, next_gtid = 1;

static Team root_team; static Thread root_thread; static Fiber root_fiber; static Task root_task;
static Thread *cur = &root_thread;       // running thread
static int parallel_depth = 0;
static Map<void *, Lock> locks;
static Map<uintptr_t, VC> atomics;
static Map<std::pair<void *, int>, void *> threadpriv;

static Fiber *fib() { return cur->fibers.back(); }
static Task *task() { return fib()->task; }

// ------------------------------------------------------------------ race monitor
struct Access { int task; uint32_t clock; uint8_t mask; uint8_t kind; int16_t thread; void *pc; };   // kind: 1 write, 2 atomic
struct Cell { uint64_t key = 0; int n = 0; Access a[6]; };
static Cell *shadow = nullptr;
static size_t SHADOW_BITS = 20;
static Vec<uint32_t> used_cells;
static bool mon_on = false;             // inside an outermost parallel region
static bool shadow_full = false;

static Cell *cell(uintptr_t key, bool create) {
  size_t m = ((size_t)1 << SHADOW_BITS) - 1;
  size_t i = (key * 0x9e3779b97f4a7c15ULL >> 20) & m;
  for (int p = 0; p < 4096; p++, i = (i + 1) & m) {
    if (shadow[i].key == key) return &shadow[i];
    if (shadow[i].key == 0) {
      if (!create) return nullptr;
      if (used_cells.size() > m / 2) { shadow_full = true; return nullptr; }
      shadow[i].key = key; shadow[i].n = 0; used_cells.push_back(i); return &shadow[i];
    }
  }
  shadow_full = true;
  return nullptr;
}
static void shadow_clear_all() { for (uint32_t i : used_cells) { shadow[i].key = 0; shadow[i].n = 0; } used_cells.clear(); atomics.clear(); }

static const char *kindname(int k) { return k == 0 ? "read" : k == 1 ? "write" : k == 2 ? "atomic read" : "atomic write"; }

static void access_granule(uintptr_t key, uint8_t mask, int kind, void *pc) {
  Cell *c = cell(key, true);
  if (!c) return;
  shadow_checks++;
  Task *t = task();
  for (int i = 0; i < c->n; i++) {
    Access &a = c->a[i];
    if (!(a.mask & mask)) continue;
    if (a.task == t->id) continue;
    if (!((a.kind | kind) & 1)) continue;
    if ((a.kind & 2) && (kind & 2)) continue;
    if (t->vc.get(a.task) >= a.clock) continue;
    if (tid_observed && a.thread == cur->gtid) continue;
    mc::report("data-race", "unordered %s at %p by task %d (thread %d) and %s at %p by task %d (thread %d) of the same memory",
               kindname(a.kind), a.pc, a.task, a.thread, kindname(kind), pc, t->id, cur->gtid);
  }
  // replace what this access supersedes
  uint32_t clk = t->vc.get(t->id);
  int w = 0;
  for (int i = 0; i < c->n; i++) {
    Access &a = c->a[i];
    bool covered = (a.mask & ~mask) == 0 && (a.task == t->id || t->vc.get(a.task) >= a.clock) && ((kind & 1) || !(a.kind & 1)) && (!(kind & 2) || (a.kind & 2));
    if (a.task == t->id && a.clock == clk && a.kind == kind && (mask & ~a.mask) == 0) return;
    if (!covered) c->a[w++] = a;
  }
  c->n = w;
  Access n = {t->id, clk, mask, (uint8_t)kind, (int16_t)cur->gtid, pc};
  if (c->n < 6) c->a[c->n++] = n;
  else { for (int i = 0; i + 1 < 6; i++) c->a[i] = c->a[i + 1]; c->a[5] = n; }
}

static void access(void *p, size_t n, int kind, void *pc) {
  if (!mon_on || !n) return;
  accesses++;
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; g++) {
    uintptr_t lo = std::max(a, g << 3), hi = std::min(e, (g + 1) << 3);
    uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << (lo - (g << 3)));
    access_granule(g, mask, kind, pc);
  }
}

static void forget(void *p, size_t n) {            // new memory: no history
  if (!mon_on || !p || !n) return;
  uintptr_t a = (uintptr_t)p;
  if (n > (1u << 22)) return;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { Cell *c = cell(g, false); if (c) c->n = 0; }
}

// ------------------------------------------------------------------ fibers
extern "C" void mcomp_switch(void **save, void *to);
asm(R"(
.text
.globl mcomp_switch
.type mcomp_switch,@function
mcomp_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mcomp_switch, .-mcomp_switch
)");

static const size_t STACK = 512 * 1024;
static Vec<char *> stacks; static size_t stacks_used = 0;
static char *get_stack() {
  if (stacks_used == stacks.size()) {
    char *p = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { mc::report("internal", "out of stacks"); mc::die_reported(); }
    mprotect(p, 4096, PROT_NONE);
    stacks.push_back(p + 4096);
  }
  return stacks[stacks_used++];
}

static Fiber *running = &root_fiber;
static void fiber_main();

static void switch_to(Fiber *f, bool dying = false) {
  Fiber *me = running;
  if (f == me) return;
  running = f;
  san_start(dying ? nullptr : &me->fake, f->stack, f->size);
  mcomp_switch(&me->sp, f->sp);
  san_finish(me->fake);
}

static Vec<Fiber *> dead;      // freed at the end of the region

static void *fiber_frame(char *stack) {
  uintptr_t top = ((uintptr_t)stack + STACK - 64) & ~(uintptr_t)15;
  void **sp = (void **)top;
  *--sp = nullptr;
  *--sp = (void *)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp;
  uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  ((uint32_t *)sp)[0] = mx; ((uint32_t *)sp)[1] = cw;
  return sp;
}

static Fiber *new_fiber(Thread *th, Task *t) {
  Fiber *f = new Fiber; f->stack = get_stack(); f->size = STACK; f->th = th; f->task = t; f->sp = fiber_frame(f->stack);
  return f;
}

// ------------------------------------------------------------------ scheduler
static Vec<Thread *> live;     // all threads of all active teams, outermost first; a thread whose nested team runs is not in it

static bool descends(Task *t, Task *a) { for (; t; t = t->parent) if (t == a) return true; return false; }

static void eligible(Thread *th, Vec<int> &out) {
  out.clear();
  Team *tm = th->team;
  Fiber *f = th->fibers.back();
  bool any = f->st == W_BARRIER || f->st == W_END;
  for (int i = (int)tm->pending.size() - 1; i >= 0; i--) {
    Task *t = tm->pending[i];
    // task scheduling constraint: in a taskwait a thread takes a tied task only if it descends from the waiting one
    if (any || t->untied || descends(t->parent, f->task)) out.push_back(i);
  }
}
static bool cond(Fiber *f) {
  switch (f->st) {
    case READY: return true;
    case W_TASKWAIT: return f->task->children == 0;
    case W_GROUP: return f->group->count == 0;
    case W_BARRIER: return f->th->barrier_no != f->th->team->generation + 1;   // released
    case W_LOCK: return !locks[f->lock].held;
    default: return false;
  }
}
static bool may_take_task(Fiber *f) { return f->st == W_TASKWAIT || f->st == W_BARRIER || f->st == W_GROUP || f->st == W_END; }

static Team *ended = nullptr;           // its last thread has arrived at the end

static void try_release(Team *tm) {
  if (tm->size > 1 && tm->arrived == tm->size && tm->live_tasks == 0) {
    bool end = true;
    for (Thread *t : tm->th) if (t->fibers.front()->st != W_END) end = false;
    if (end) { ended = tm; return; }
    for (Thread *t : tm->th) { Task *it = t->fibers.front()->task; it->vc.join(tm->barrier_vc); it->kids = VC(); it->tick(); }
    tm->barrier_vc = VC();
    tm->arrived = 0; tm->generation++;
  }
}

static Vec<int> elig_scratch;

static bool enabled(Thread *t) {
  Fiber *f = t->fibers.back();
  if (f->st == DONE) return false;
  if (cond(f)) return true;
  if (!may_take_task(f)) return false;
  eligible(t, elig_scratch);
  return !elig_scratch.empty();
}

static int pick_n(int n) {          // among n alternatives
  if (n == 1) return 0;
  if (policy == EXPLORE) return mc::choose_dev(n);
  return 0;
}

// Switches to some enabled thread.  Called with the current fiber's state set.
static void sched(bool dying = false) {
  if (ended) {
    // the whole team is at the end of the region: back to whoever forked it
    Team *tm = ended; ended = nullptr;
    for (Thread *t : tm->th) live.erase(std::remove(live.begin(), live.end(), t), live.end());
    live.insert(live.begin() + std::min(tm->slot, live.size()), tm->outer_thread);
    cur = tm->outer_thread;
    switch_to(tm->outer_fiber, dying);
    return;
  }
  points++;
  if (points > 20000000) { mc::report("livelock", "more than 20000000 scheduling points"); mc::die_reported(); }
  Vec<Thread *> en;
  if (enabled(cur)) en.push_back(cur);
  // others: in ring order after the current one; threads that never ran are interchangeable, so only the first is offered
  size_t at = 0; for (size_t i = 0; i < live.size(); i++) if (live[i] == cur) at = i;
  bool fresh = false;
  for (size_t k = 1; k <= live.size(); k++) {
    Thread *t = live[(at + k) % live.size()];
    if (t == cur) continue;
    if (!t->started) { if (fresh && policy == EXPLORE) continue; }
    if (!enabled(t)) continue;
    if (!t->started) fresh = true;
    en.push_back(t);
  }
  if (en.empty()) {
    mc::report("deadlock", "no thread can run: the multiplication never ends");
    mc::die_reported();
  }
  Thread *t = en[0];
  if (policy == EXPLORE) t = en[pick_n((int)en.size())];
  else if (policy == ROUND_ROBIN) t = en.size() > 1 && en[0] == cur ? en[1] : en[0];
  else if (policy == LAST) { for (Thread *o : en) if (o->tid > t->tid) t = o; }
  t->started = true;
  Fiber *f = t->fibers.back();
  if (!cond(f)) {
    // takes a task
    Vec<int> el; eligible(t, el);
    int k = policy == ROUND_ROBIN ? (int)el.size() - 1 : pick_n((int)el.size());
    Task *nt = t->team->pending[el[k]];
    t->team->pending.erase(t->team->pending.begin() + el[k]);
    Fiber *nf = new_fiber(t, nt);
    t->fibers.push_back(nf);
    f = nf;
  } else f->st = READY;
  cur = t;
  switch_to(f, dying);
}
static void sched_point() { if (parallel_depth) sched(); }

static void finish_task(Task *t) {
  t->done = true;
  t->tick();
  t->parent->children--;
  t->parent->kids.join(t->vc);
  t->team->barrier_vc.join(t->vc);
  for (Group *g = t->group; g; g = g->outer) { g->count--; g->done.join(t->vc); }
  Team *tm = t->team;
  tm->live_tasks--;
  rt_free(t->mem); t->mem = nullptr; t->kt = nullptr;
  unref(t);
  try_release(tm);
}

static void run_task(Task *t) {
  t->requeued = false;
  t->kt->routine(cur->gtid, t->kt);
  if (!t->requeued) finish_task(t);
}

static void invoke(microtask_t fn, kmp_int32 *g, kmp_int32 *b, int argc, void **a) {
  switch (argc) {
#define P0
#define C1 , a[0]
#define C2 C1, a[1]
#define C3 C2, a[2]
#define C4 C3, a[3]
#define C5 C4, a[4]
#define C6 C5, a[5]
#define C7 C6, a[6]
#define C8 C7, a[7]
#define C9 C8, a[8]
#define C10 C9, a[9]
#define C11 C10, a[10]
#define C12 C11, a[11]
#define C13 C12, a[12]
#define C14 C13, a[13]
#define C15 C14, a[14]
#define C16 C15, a[15]
#define C17 C16, a[16]
#define C18 C17, a[17]
#define C19 C18, a[18]
#define C20 C19, a[19]
    case 0: fn(g, b); break;
#define K(n) case n: fn(g, b C##n); break;
    K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(14) K(15) K(16) K(17) K(18) K(19) K(20)
    default: fprintf(stderr, "mcomp: %d arguments\n", argc); abort();
  }
}

static void fiber_main() {
  Fiber *f = running;
  san_finish(nullptr);
  if (f->task->is_explicit) {
    run_task(f->task);
    f->st = DONE;
    f->th->fibers.pop_back();
    dead.push_back(f);
  } else {
    Thread *th = f->th; Team *tm = th->team;
    kmp_int32 g = th->gtid, b = th->tid;
    invoke(tm->fn, &g, &b, tm->argc, tm->argv);
    // the barrier at the end of the region: never left
    f->task->tick();
    tm->barrier_vc.join(f->task->vc);
    tm->arrived++;
    f->st = W_END;
    try_release(tm);
  }
  sched(true);
  __builtin_trap();
}

static void barrier() {
  if (!parallel_depth) return;
  Thread *th = cur; Team *tm = th->team;
  if (tm->size == 1) return;       // a serialised region: tasks were executed at once
  Task *it = task();
  it->tick();
  tm->barrier_vc.join(it->vc);
  tm->arrived++;
  th->barrier_no = tm->generation + 1;
  fib()->st = W_BARRIER;
  try_release(tm);
  sched();
}

static void fork_team(microtask_t fn, int argc, void **argv, int n) {
  regions++;
  Thread *outer = cur;
  Team *ot = outer->team;
  Task *pt = task();
  bool active = n > 1 && ot->active < max_levels;
  Team *tm = new Team;
  tm->outer = ot; tm->level = ot->level + 1; tm->active = ot->active + (active ? 1 : 0);
  tm->size = active ? n : 1; tm->outer_thread = outer;
  if (tm->size > max_team) max_team = tm->size;
  if (!active) {
    // serialised: the same fiber runs it as a team of one
    Thread *th = new Thread; th->tid = 0; th->gtid = outer->gtid; th->team = tm; th->started = true; tm->th.push_back(th);
    Task *it = new Task; it->id = pt->id; it->vc = pt->vc; it->kids = pt->kids; it->parent = nullptr; it->team = tm;
    // shares the identity (clock component) of the enclosing task
    Fiber *f = fib();
    Task *savet = f->task;
    f->task = it; f->th = th; th->fibers.push_back(f);
    std::replace(live.begin(), live.end(), outer, th);
    cur = th;
    kmp_int32 g = th->gtid, b = 0;
    invoke(fn, &g, &b, argc, argv);
    cur = outer; f->task = savet; f->th = outer;
    savet->vc = it->vc; savet->kids.join(it->kids);
    std::replace(live.begin(), live.end(), th, outer);
    unref(it); delete th; delete tm;
    return;
  }
  bool outermost = parallel_depth == 0;
  if (outermost) {
    live.clear();
    next_vc_id = 1;
    pt->id = 0; pt->vc = VC(); pt->vc.set(0, 1); pt->kids = VC();
    if (monitor) {
      if (!shadow) shadow = (Cell *)mmap(nullptr, sizeof(Cell) << SHADOW_BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      shadow_clear_all(); locks.clear();
    }
  }
  parallel_depth++;
  tm->fn = fn; tm->argc = argc; tm->argv = argv;
  if (!outermost) { for (size_t i = 0; i < live.size(); i++) if (live[i] == outer) tm->slot = i; live.erase(live.begin() + tm->slot); }
  for (int i = 0; i < n; i++) {
    Thread *th = new Thread; th->tid = i; th->gtid = outermost ? i : (i == 0 ? outer->gtid : next_gtid++); th->team = tm;
    Task *it = new Task; it->id = next_vc_id++; it->vc = pt->vc; it->team = tm; it->tick();
    tm->th.push_back(th);
    th->fibers.push_back(new_fiber(th, it));
    live.insert(live.begin() + tm->slot + i, th);
  }
  if (outermost) next_gtid = n;
  pt->tick();
  tm->outer_fiber = running;
  if (monitor) mon_on = true;
  // threads that have not run are interchangeable, so the first one begins (the last one under LAST)
  cur = policy == LAST ? tm->th[n - 1] : tm->th[0];
  cur->started = true;
  switch_to(cur->fibers.back());
  // the team has ended; cur is the outer thread again
  if (outermost) mon_on = false;
  for (Thread *th : tm->th) { Fiber *f = th->fibers.front(); tm->barrier_vc.join(f->task->vc); unref(f->task); delete f; delete th; }
  pt->vc.join(tm->barrier_vc); pt->tick();
  delete tm;
  parallel_depth--;
  if (outermost) { for (Fiber *f : dead) delete f; dead.clear(); stacks_used = 0; live.clear(); }
}

void reset() {
  root_team.th.assign(1, &root_thread); root_team.size = 1; root_team.level = 0; root_team.active = 0; root_team.pending.clear();
  root_thread.team = &root_team; root_thread.fibers.assign(1, &root_fiber);
  if (!root_fiber.stack) {
    pthread_attr_t at; void *lo; size_t sz;
    if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); root_fiber.stack = (char *)lo; root_fiber.size = sz; }
  }
  root_fiber.th = &root_thread; root_fiber.task = &root_task; root_fiber.st = READY;
  root_task.team = &root_team; root_task.refs = 1000000; root_task.children = 0; root_task.vc = VC(); root_task.kids = VC();
  cur = &root_thread; running = &root_fiber; ended = nullptr; dead.clear(); parallel_depth = 0; mon_on = false; live.clear(); locks.clear();
  policy = FIRST; nthreads = 1; max_levels = 1; dynamic_ = 0; sched_kind = 1; sched_chunk = 0; regions = tasks = chunks = points = 0; max_team = 1; accesses = shadow_checks = 0; tid_observed = false;
  stacks_used = 0;
}
static struct Init { Init() { reset(); } } init_;
void set_threads(int n) { nthreads = n; }
uint64_t settings() { uint64_t h = nthreads; for (int v : {max_levels, dynamic_, sched_kind, sched_chunk}) h = h * 1000003 + (unsigned)v; return h; }
void set_policy(Policy p) { policy = p; }
void set_nested(int l) { max_levels = l; }
bool in_parallel() { return parallel_depth > 0; }

static void do_lock(void *p) {
  sched_point();
  if (locks[p].held) {
    fib()->st = W_LOCK; fib()->lock = p;
    if (!parallel_depth) { mc::report("deadlock", "lock taken twice"); mc::die_reported(); }
    sched();
  }
  Lock &l = locks[p];
  l.held = true; l.owner = task();
  task()->vc.join(l.vc);
}
static void do_unlock(void *p) { Lock &l = locks[p]; task()->tick(); l.vc = task()->vc; l.held = false; l.owner = nullptr; task()->tick(); }

static int spin = 0;
static void sync_atomic(void *p) {
  if (!mon_on) return;
  VC &v = atomics[(uintptr_t)p];
  Task *t = task();
  t->vc.join(v); t->tick(); v.join(t->vc); t->tick();
  if (++spin % 64 == 0) { Policy s = policy; policy = ROUND_ROBIN; sched(); policy = s; }
}

static uint64_t tripcount(int64_t lb, int64_t ub, int64_t st) {
  if (st > 0) return ub < lb ? 0 : (uint64_t)(ub - lb) / (uint64_t)st + 1;
  return lb < ub ? 0 : (uint64_t)(lb - ub) / (uint64_t)(-st) + 1;
}

enum { S_STATIC_CHUNKED = 33, S_STATIC = 34, S_DYN = 35, S_GUIDED = 36, S_RUNTIME = 37, S_AUTO = 38, S_TRAP = 39 };
static int base_sched(int s) { s &= ~((1 << 29) | (1 << 30)); if (s >= 64 && s < 96) s -= 32; return s; }

template <class T, class ST>
static void static_init(kmp_int32 sched, kmp_int32 *plast, T *plower, T *pupper, ST *pstride, ST incr, ST chunk) {
  Thread *th = cur; uint64_t n = th->team->size, id = th->tid;
  int s = base_sched(sched);
  T lo = *plower, up = *pupper;
  uint64_t trip;
  if (incr > 0) trip = up < lo ? 0 : (uint64_t)(T)(up - lo) / (uint64_t)incr + 1;
  else trip = lo < up ? 0 : (uint64_t)(T)(lo - up) / (uint64_t)(-(int64_t)incr) + 1;
  chunks++;
  if (trip == 0) {
    if (plast) *plast = 0;
    // an empty loop: make the bounds empty for every thread
    if (incr > 0) { *pupper = up; *plower = lo; } 
    *pstride = incr;
    return;
  }
  if (s == S_STATIC_CHUNKED || s == 45) {
    if (chunk < 1) chunk = 1;
    uint64_t span = (uint64_t)chunk * (uint64_t)(int64_t)incr;
    *pstride = (ST)(span * n);
    *plower = (T)(lo + span * id);
    *pupper = (T)(*plower + span - incr);
    if (plast) *plast = id == ((trip - 1) / (uint64_t)chunk) % n;
    return;
  }
  // balanced
  *pstride = (ST)(trip * (uint64_t)(int64_t)incr);
  if (trip < n) {
    if (id < trip) { *plower = *pupper = (T)(lo + id * (uint64_t)(int64_t)incr); }
    else { *plower = (T)(up + (T)incr); *pupper = up; }
    if (plast) *plast = id == trip - 1;
    return;
  }
  uint64_t small = trip / n, extra = trip % n;
  *plower = (T)(lo + (uint64_t)(int64_t)incr * (id * small + (id < extra ? id : extra)));
  *pupper = (T)(*plower + small * (uint64_t)(int64_t)incr - (id < extra ? 0 : (uint64_t)(int64_t)incr));
  if (plast) *plast = id == n - 1;
}

static void dispatch_init(kmp_int32 sched, int64_t lb, uint64_t trip, int64_t st, int64_t chunk) {
  Thread *th = cur; Team *tm = th->team;
  th->loop_no++;
  if ((size_t)th->loop_no >= tm->loops.size()) tm->loops.resize(th->loop_no + 1);
  Loop &l = tm->loops[th->loop_no];
  if (!l.ready) { l.ready = true; l.sched = base_sched(sched); l.lb = lb; l.trip = trip; l.st = st; l.chunk = chunk < 1 ? 1 : chunk; if (chunk < 1 && (l.sched == S_STATIC || l.sched == S_AUTO)) { l.chunk = (trip + tm->size - 1) / tm->size; if (!l.chunk) l.chunk = 1; } }
  th->my_static = th->tid;
}
static bool dispatch_next(uint64_t &first, uint64_t &count, bool &last) {
  Thread *th = cur; Team *tm = th->team;
  if (tm->size > 1 && tm->loops[th->loop_no].sched != S_STATIC && tm->loops[th->loop_no].sched != S_STATIC_CHUNKED) sched_point();
  Loop &l = tm->loops[th->loop_no];
  if (l.sched == S_STATIC || l.sched == S_STATIC_CHUNKED) {
    uint64_t f = th->my_static * l.chunk;
    if (f >= l.trip) return false;
    th->my_static += tm->size;
    first = f; count = std::min(l.chunk, l.trip - f);
  } else {
    if (l.next >= l.trip) return false;
    uint64_t c = l.chunk;
    if (l.sched == S_GUIDED) c = std::max<uint64_t>(c, (l.trip - l.next) / (2 * tm->size));
    first = l.next; count = std::min(c, l.trip - l.next);
    l.next += count;
  }
  last = first + count == l.trip;
  th->ord_cur = first;
  chunks++;
  return true;
}

static Task *make_task(kmp_task_t *kt) { return *(Task **)((char *)kt - 16); }

static void run_inline(Task *t) {          // by the current thread, now
  Fiber *f = new_fiber(cur, t);
  Thread *th = cur;
  fib()->st = READY;
  th->fibers.push_back(f);
  switch_to(f);
}

}  // namespace mcomp

using namespace mcomp;

// ================================================================== the ABI
extern "C" {

void __kmpc_fork_call(ident_t *, kmp_int32 argc, microtask_t fn, ...);
static int pushed_threads = 0;

void __kmpc_begin(ident_t *, kmp_int32) {}
void __kmpc_end(ident_t *) {}
kmp_int32 __kmpc_global_thread_num(ident_t *) { return cur->gtid; }
kmp_int32 __kmpc_global_num_threads(ident_t *) { return cur->team->size; }
kmp_int32 __kmpc_bound_thread_num(ident_t *) { tid_observed = true; return cur->tid; }
kmp_int32 __kmpc_bound_num_threads(ident_t *) { return cur->team->size; }
kmp_int32 __kmpc_in_parallel(ident_t *) { return cur->team->active > 0; }
kmp_int32 __kmpc_ok_to_fork(ident_t *) { return 1; }
void __kmpc_push_num_threads(ident_t *, kmp_int32, kmp_int32 n) { pushed_threads = n; }
void __kmpc_push_proc_bind(ident_t *, kmp_int32, int) {}
void __kmpc_fork_call(ident_t *, kmp_int32 argc, microtask_t fn, ...) {
  void *a[24]; va_list ap; va_start(ap, fn); for (int i = 0; i < argc && i < 24; i++) a[i] = va_arg(ap, void *); va_end(ap);
  int n = pushed_threads > 0 ? pushed_threads : nthreads; pushed_threads = 0;
  fork_team(fn, argc, a, n);
}
void __kmpc_fork_call_if(ident_t *, kmp_int32 argc, microtask_t fn, kmp_int32 c, void *args) {
  void *a[1] = {args};
  int n = pushed_threads > 0 ? pushed_threads : nthreads; pushed_threads = 0;
  fork_team(fn, args ? 1 : 0, a, c ? n : 1);
  (void)argc;
}
// serialised regions entered with an if clause: the compiler calls the outlined function itself
static Vec<std::pair<Thread *, Task *>> ser_stack;
void __kmpc_serialized_parallel(ident_t *, kmp_int32) {
  Thread *outer = cur; Team *tm = new Team; tm->outer = outer->team; tm->level = outer->team->level + 1; tm->active = outer->team->active; tm->size = 1;
  Thread *th = new Thread; th->gtid = outer->gtid; th->team = tm; th->started = true; tm->th.push_back(th);
  Fiber *f = fib(); Task *pt = f->task; Task *it = new Task; it->id = pt->id; it->vc = pt->vc; it->kids = pt->kids; it->team = tm;
  f->task = it; f->th = th; th->fibers.push_back(f);
  std::replace(live.begin(), live.end(), outer, th);
  ser_stack.push_back({outer, pt}); cur = th; regions++;
}
void __kmpc_end_serialized_parallel(ident_t *, kmp_int32) {
  Thread *th = cur, *outer = ser_stack.back().first; Task *pt = ser_stack.back().second; ser_stack.pop_back();
  Fiber *f = fib(); pt->vc = f->task->vc; pt->kids.join(f->task->kids); delete f->task; f->task = pt; f->th = outer; cur = outer;
  std::replace(live.begin(), live.end(), th, outer);
  delete th->team; delete th;
}

void __kmpc_for_static_init_4(ident_t *, kmp_int32, kmp_int32 s, kmp_int32 *pl, kmp_int32 *lo, kmp_int32 *up, kmp_int32 *st, kmp_int32 inc, kmp_int32 ch) { static_init<kmp_int32, kmp_int32>(s, pl, lo, up, st, inc, ch); }
void __kmpc_for_static_init_4u(ident_t *, kmp_int32, kmp_int32 s, kmp_int32 *pl, kmp_uint32 *lo, kmp_uint32 *up, kmp_int32 *st, kmp_int32 inc, kmp_int32 ch) { static_init<kmp_uint32, kmp_int32>(s, pl, lo, up, st, inc, ch); }
void __kmpc_for_static_init_8(ident_t *, kmp_int32, kmp_int32 s, kmp_int32 *pl, kmp_int64 *lo, kmp_int64 *up, kmp_int64 *st, kmp_int64 inc, kmp_int64 ch) { static_init<kmp_int64, kmp_int64>(s, pl, lo, up, st, inc, ch); }
void __kmpc_for_static_init_8u(ident_t *, kmp_int32, kmp_int32 s, kmp_int32 *pl, kmp_uint64 *lo, kmp_uint64 *up, kmp_int64 *st, kmp_int64 inc, kmp_int64 ch) { static_init<kmp_uint64, kmp_int64>(s, pl, lo, up, st, inc, ch); }
void __kmpc_for_static_fini(ident_t *, kmp_int32) {}

#define DISPATCH(SUF, T, ST)                                                                                     \
  void __kmpc_dispatch_init_##SUF(ident_t *, kmp_int32, kmp_int32 s, T lb, T ub, ST st, ST ch) {                 \
    uint64_t trip = st > 0 ? (ub < lb ? 0 : (uint64_t)(T)(ub - lb) / (uint64_t)st + 1)                           \
                           : (lb < ub ? 0 : (uint64_t)(T)(lb - ub) / (uint64_t)(-(int64_t)st) + 1);              \
    dispatch_init(s, (int64_t)lb, trip, (int64_t)st, (int64_t)ch);                                               \
  }                                                                                                              \
  int __kmpc_dispatch_next_##SUF(ident_t *, kmp_int32, kmp_int32 *last, T *lb, T *ub, ST *st) {                  \
    uint64_t f, n; bool la;                                                                                      \
    if (!dispatch_next(f, n, la)) return 0;                                                                      \
    Loop &l = cur->team->loops[cur->loop_no];                                                                    \
    if (last) *last = la;                                                                                        \
    *lb = (T)(l.lb + (int64_t)f * l.st);                                                                         \
    *ub = (T)(l.lb + (int64_t)(f + n - 1) * l.st);                                                               \
    if (st) *st = (ST)l.st;                                                                                      \
    return 1;                                                                                                    \
  }                                                                                                              \
  void __kmpc_dispatch_fini_##SUF(ident_t *, kmp_int32) { }
DISPATCH(4, kmp_int32, kmp_int32)
DISPATCH(4u, kmp_uint32, kmp_int32)
DISPATCH(8, kmp_int64, kmp_int64)
DISPATCH(8u, kmp_uint64, kmp_int64)
void __kmpc_dispatch_deinit(ident_t *, kmp_int32) {}

void __kmpc_barrier(ident_t *, kmp_int32) { barrier(); }
kmp_int32 __kmpc_cancel_barrier(ident_t *, kmp_int32) { barrier(); return 0; }
kmp_int32 __kmpc_cancel(ident_t *, kmp_int32, kmp_int32) { return 0; }
kmp_int32 __kmpc_cancellationpoint(ident_t *, kmp_int32, kmp_int32) { return 0; }
void __kmpc_flush(ident_t *) {}
kmp_int32 __kmpc_master(ident_t *, kmp_int32) { return cur->tid == 0; }
void __kmpc_end_master(ident_t *, kmp_int32) {}
kmp_int32 __kmpc_masked(ident_t *, kmp_int32, kmp_int32 f) { return cur->tid == f; }
void __kmpc_end_masked(ident_t *, kmp_int32) {}
kmp_int32 __kmpc_single(ident_t *, kmp_int32) {
  sched_point();
  Thread *th = cur; Team *tm = th->team; long no = ++th->single_no;
  if (tm->size == 1) return 1;
  if (no > tm->singles) { tm->singles = no; return 1; }
  return 0;
}
void __kmpc_end_single(ident_t *, kmp_int32) {}
void __kmpc_copyprivate(ident_t *, kmp_int32, size_t, void *data, void (*cpy)(void *, void *), kmp_int32 didit) {
  Team *tm = cur->team; if (didit) tm->copypriv = data;
  barrier();
  if (!didit) cpy(data, tm->copypriv);
  barrier();
}
void __kmpc_critical(ident_t *, kmp_int32, kmp_critical_name *c) { do_lock(c); }
void __kmpc_critical_with_hint(ident_t *, kmp_int32, kmp_critical_name *c, uint32_t) { do_lock(c); }
void __kmpc_end_critical(ident_t *, kmp_int32, kmp_critical_name *c) { do_unlock(c); }
void __kmpc_ordered(ident_t *, kmp_int32) { do_lock((void *)&root_team); }
void __kmpc_end_ordered(ident_t *, kmp_int32) { do_unlock((void *)&root_team); }
kmp_int32 __kmpc_reduce_nowait(ident_t *, kmp_int32, kmp_int32, size_t, void *, void (*)(void *, void *), kmp_critical_name *c) { do_lock(c); return 1; }
void __kmpc_end_reduce_nowait(ident_t *, kmp_int32, kmp_critical_name *c) { do_unlock(c); }
kmp_int32 __kmpc_reduce(ident_t *, kmp_int32, kmp_int32, size_t, void *, void (*)(void *, void *), kmp_critical_name *c) { do_lock(c); return 1; }
void __kmpc_end_reduce(ident_t *, kmp_int32, kmp_critical_name *c) { do_unlock(c); barrier(); }

// ---- tasks ----
static Group *cur_group() { return task()->group; }

kmp_task_t *__kmpc_omp_task_alloc(ident_t *, kmp_int32, kmp_int32 flags, size_t sz, size_t ssz, routine_t entry) {
  size_t a = (sz + 15) & ~(size_t)15;
  char *m = (char *)rt_alloc(16 + a + ssz + 16);
  forget(m, 16 + a + ssz + 16);
  m += 16;
  kmp_task_t *kt = (kmp_task_t *)m;
  memset(m, 0, sizeof(kmp_task_t));
  kt->shareds = ssz ? m + a : nullptr; kt->routine = entry; kt->part_id = 0;
  Task *t = new Task; t->is_explicit = true; t->untied = !(flags & 1); t->final = (flags & 2) || task()->final;
  t->kt = kt; t->mem = m - 16;
  *(Task **)(m - 16) = t; *(size_t *)(m - 8) = a + ssz;
  return kt;
}
// A task is created: child of the current task.
static void born(Task *t) {
  Task *p = task();
  tasks++;
  t->parent = p; p->refs++; p->children++;
  t->team = cur->team; t->group = cur_group();
  for (Group *g = t->group; g; g = g->outer) g->count++;
  t->id = next_vc_id++;
  t->vc = p->vc; t->tick();
  p->tick();
  t->team->live_tasks++;
}
void __kmpc_omp_task_begin_if0(ident_t *, kmp_int32, kmp_task_t *kt) {
  // undeferred: executed by the encountering fiber; its own task identity for the monitor
  Task *t = make_task(kt); born(t);
  fib()->task = t;
}
void __kmpc_omp_task_complete_if0(ident_t *, kmp_int32, kmp_task_t *kt) {
  Task *t = make_task(kt); Task *p = t->parent;
  fib()->task = p;
  p->vc.join(t->vc); p->tick();
  finish_task(t);
}
kmp_int32 __kmpc_omp_task(ident_t *, kmp_int32, kmp_task_t *kt) {
  Task *t = make_task(kt);
  if (t->parent && !t->done) {                    // an untied task puts itself back
    t->requeued = true;
    t->team->pending.push_back(t);
    return 0;
  }
  born(t);
  if (cur->team->size == 1 || t->parent->final) {
    // serialised or final: at once, as an included task
    Task *p = t->parent;
    fib()->task = t;
    do { t->requeued = false; kt->routine(cur->gtid, kt); if (t->requeued) { auto &v = t->team->pending; v.erase(std::find(v.begin(), v.end(), t)); } } while (t->requeued);
    fib()->task = p; p->vc.join(t->vc); p->tick();
    finish_task(t);
    return 0;
  }
  bool now = policy == EAGER;
  if (policy == EXPLORE) now = mc::choose_dev(2) == 1;
  if (now) { run_inline(t); return 0; }
  t->team->pending.push_back(t);
  sched_point();
  return 0;
}
kmp_int32 __kmpc_omp_task_parts(ident_t *l, kmp_int32 g, kmp_task_t *kt) { return __kmpc_omp_task(l, g, kt); }

kmp_int32 __kmpc_omp_taskwait(ident_t *, kmp_int32) {
  Task *t = task();
  if (parallel_depth && t->children) { fib()->st = W_TASKWAIT; sched(); }
  t->vc.join(t->kids); t->kids = VC();
  t->tick();
  return 0;
}
kmp_int32 __kmpc_omp_taskyield(ident_t *, kmp_int32, int) { sched_point(); return 0; }
void __kmpc_omp_wait_deps(ident_t *l, kmp_int32 g, kmp_int32, kmp_depend_info *, kmp_int32, kmp_depend_info *) { __kmpc_omp_taskwait(l, g); }
void __kmpc_omp_taskwait_deps_51(ident_t *l, kmp_int32 g, kmp_int32, kmp_depend_info *, kmp_int32, kmp_depend_info *, kmp_int32) { __kmpc_omp_taskwait(l, g); }
kmp_int32 __kmpc_omp_task_with_deps(ident_t *l, kmp_int32 g, kmp_task_t *kt, kmp_int32, kmp_depend_info *, kmp_int32, kmp_depend_info *) {
  // conservative but legal order: everything created before finishes first
  __kmpc_omp_taskwait(l, g);
  return __kmpc_omp_task(l, g, kt);
}
void __kmpc_taskgroup(ident_t *, kmp_int32) { Group *gr = new Group; gr->outer = task()->group; task()->group = gr; }
void __kmpc_end_taskgroup(ident_t *, kmp_int32) {
  Task *t = task(); Group *gr = t->group;
  if (parallel_depth && gr->count) { fib()->st = W_GROUP; fib()->group = gr; sched(); }
  t->vc.join(gr->done); t->tick();
  t->group = gr->outer; delete gr;
}
void __kmpc_taskloop(ident_t *l, kmp_int32 g, kmp_task_t *kt, kmp_int32, kmp_uint64 *lb, kmp_uint64 *ub, kmp_int64 st, kmp_int32 nogroup, kmp_int32 sched_kind, kmp_uint64 grain, void *dup) {
  typedef void (*dup_t)(kmp_task_t *, kmp_task_t *, kmp_int32);
  if (!nogroup) __kmpc_taskgroup(l, g);
  uint64_t trip = tripcount((int64_t)*lb, (int64_t)*ub, st);
  uint64_t per = 1;
  if (sched_kind == 1) per = grain ? grain : 1;
  else if (sched_kind == 2) per = grain ? (trip + grain - 1) / grain : 1;
  if (!per) per = 1;
  int64_t base = (int64_t)*lb;
  size_t off_l = (char *)lb - (char *)kt, off_u = (char *)ub - (char *)kt;
  size_t total = *(size_t *)((char *)kt - 8);
  for (uint64_t f = 0; f < trip; f += per) {
    uint64_t n = std::min(per, trip - f);
    char *m = (char *)rt_alloc(16 + total + 16); forget(m, 16 + total + 16);
    memcpy(m + 16, kt, total);
    kmp_task_t *c = (kmp_task_t *)(m + 16);
    if (kt->shareds) c->shareds = m + 16 + ((char *)kt->shareds - (char *)kt);
    Task *t = new Task; t->is_explicit = true; t->untied = make_task(kt)->untied;
    t->kt = c; t->mem = m; *(Task **)m = t; *(size_t *)(m + 8) = total;
    *(kmp_uint64 *)((char *)c + off_l) = (kmp_uint64)(base + (int64_t)f * st);
    *(kmp_uint64 *)((char *)c + off_u) = (kmp_uint64)(base + (int64_t)(f + n - 1) * st);
    if (dup) ((dup_t)dup)(c, kt, f + n == trip);
    __kmpc_omp_task(l, g, c);
  }
  delete make_task(kt); rt_free((char *)kt - 16);
  if (!nogroup) __kmpc_end_taskgroup(l, g);
}

// ---- threadprivate ----
void *__kmpc_threadprivate_cached(ident_t *, kmp_int32, void *data, size_t size, void ***) {
  tid_observed = true;
  if (cur->gtid == 0) return data;
  void *&p = threadpriv[{data, cur->gtid}];
  if (!p) { p = rt_alloc(size); memcpy(p, data, size); }
  return p;
}
void __kmpc_threadprivate_register(ident_t *, void *, void *, void *, void *) {}

// ---- locks and queries ----
typedef void *omp_lock_t_;
void omp_init_lock(omp_lock_t_ *l) { locks[l] = Lock(); }
void omp_init_nest_lock(omp_lock_t_ *l) { locks[l] = Lock(); }
void omp_destroy_lock(omp_lock_t_ *l) { locks.erase(l); }
void omp_destroy_nest_lock(omp_lock_t_ *l) { locks.erase(l); }
void omp_set_lock(omp_lock_t_ *l) { do_lock(l); }
void omp_unset_lock(omp_lock_t_ *l) { do_unlock(l); }
int omp_test_lock(omp_lock_t_ *l) { sched_point(); if (locks[l].held) return 0; do_lock(l); return 1; }
void omp_set_nest_lock(omp_lock_t_ *l) { Lock &k = locks[l]; if (k.held && k.owner == task()) { k.depth++; return; } do_lock(l); locks[l].depth = 1; }
void omp_unset_nest_lock(omp_lock_t_ *l) { if (--locks[l].depth == 0) do_unlock(l); }
int omp_get_thread_num() { tid_observed = true; return cur->tid; }
int omp_get_num_threads() { return cur->team->size; }
int omp_get_max_threads() { return nthreads; }
int omp_get_num_procs() { return nthreads; }
int omp_get_thread_limit() { return 64; }
int omp_in_parallel() { return cur->team->active > 0; }
int omp_get_level() { return cur->team->level; }
int omp_get_active_level() { return cur->team->active; }
int omp_get_team_size(int) { return cur->team->size; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_dynamic() { return dynamic_; }
int omp_get_nested() { return max_levels > 1; }
int omp_in_final() { return task()->final; }
int omp_get_max_active_levels() { return max_levels; }
void omp_set_num_threads(int n) { if (n > 0) nthreads = n; }
void omp_set_dynamic(int n) { dynamic_ = n != 0; }
void omp_set_nested(int n) { max_levels = n ? 8 : 1; }
void omp_set_max_active_levels(int n) { max_levels = n; }
void omp_set_schedule(int k, int c) { sched_kind = k; sched_chunk = c; }
void omp_get_schedule(int *k, int *c) { *k = sched_kind; *c = sched_chunk; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
}

// ================================================================== instrumentation of the harness (clang -fsanitize=thread, without its runtime)
#ifdef MCOMP_TSAN
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                     \
  void __tsan_read##n(void *p) { access(p, n, 0, PC); }                           \
  void __tsan_write##n(void *p) { access(p, n, 1, PC); }                          \
  void __tsan_read_write##n(void *p) { access(p, n, 1, PC); }                     \
  void __tsan_unaligned_read##n(void *p) { access(p, n, 0, PC); }                 \
  void __tsan_unaligned_write##n(void *p) { access(p, n, 1, PC); }                \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, 1, PC); }           \
  void __tsan_volatile_read##n(void *p) { access(p, n, 0, PC); }                  \
  void __tsan_volatile_write##n(void *p) { access(p, n, 1, PC); }                 \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, 0, PC); }        \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, 1, PC); }
void __tsan_vptr_update(void *p, void *) { access(p, 8, 1, PC); }
void __tsan_vptr_read(void *p) { access(p, 8, 0, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, 0, PC); access(d, n, 1, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, 0, PC); access(d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, 1, PC); return memset(d, c, n); }
#define ATOM(T, n)                                                                                                     \
  T __tsan_atomic##n##_load(const volatile T *a, int) { access((void *)a, sizeof(T), 2, PC); sync_atomic((void *)a); return *a; }      \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); *a = v; }      \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, sizeof(T), 3, PC); sync_atomic((void *)a); T o = *a; if (o == c) *a = v; return o; }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
typedef unsigned __int128 u128;
ATOM(u128, 128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
size_t malloc_usable_size(void *);
static void freed(void *p, void *pc) { if (mon_on && p) { size_t n = malloc_usable_size(p); if (n <= (1u << 22)) access(p, n, 1, pc); } }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); forget(p, malloc_usable_size(p)); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); forget(p, malloc_usable_size(p)); return p; }
void *__wrap_realloc(void *q, size_t n) { freed(q, PC); void *p = __real_realloc(q, n); forget(p, malloc_usable_size(p)); return p; }
void __wrap_free(void *p) { freed(p, PC); __real_free(p); }
}
static void *op_new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, malloc_usable_size(p)); return p; }
void *operator new(size_t n) { return op_new(n); }
void *operator new[](size_t n) { return op_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = __real_malloc(n ? n : 1); forget(p, malloc_usable_size(p)); return p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { void *p = __real_malloc(n ? n : 1); forget(p, malloc_usable_size(p)); return p; }
void operator delete(void *p) noexcept { freed(p, PC); __real_free(p); }
void operator delete[](void *p) noexcept { freed(p, PC); __real_free(p); }
void operator delete(void *p, size_t) noexcept { freed(p, PC); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { freed(p, PC); __real_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { freed(p, PC); __real_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { freed(p, PC); __real_free(p); }
#endif
