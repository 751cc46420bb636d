// A controlled OpenMP runtime: the threads of a team and the tasks they run are fibers of one process, and every
// scheduling decision is a choice of the explorer (or of a fixed policy).  See DESIGN.md, "Controlled OpenMP runtime".
#ifndef MCOMP_H
#define MCOMP_H
#include <cstddef>
#include <cstdint>

namespace mcomp {

enum Policy {
  EXPLORE,         // every decision is an mc choice (bounded by mc::dev_bound)
  FIRST,           // run the current thread as long as it can run: thread 0 takes every dynamic chunk; tasks run newest first
  ROUND_ROBIN,     // switch at every scheduling point: chunks are dealt out in turn; tasks run oldest first
  LAST,            // the highest-numbered runnable thread goes first; tasks run newest first
  EAGER,           // as FIRST, but every task is executed by its creator at once
  NPOLICY
};

void reset();                    // before every execution: default state (1 thread, FIRST)
uint64_t settings();              // a number for what omp_set_* has set
void set_threads(int n);         // what omp_get_max_threads reports, and the size of a team
void set_policy(Policy p);
void set_nested(int levels);     // max_active_levels
bool in_parallel();
extern long regions, tasks, chunks, points;   // counts since reset()
extern int max_team;             // largest team since reset
extern bool monitor;             // race monitor on (needs a -fsanitize=thread instrumented harness)
extern long accesses, shadow_checks;

}  // namespace mcomp
#endif
