// Controlled scheduler for two threads.  The code under test is compiled with memory-access callbacks
// (-fsanitize=thread, with the runtime below instead of the race detector): every access can be a switch
// point, and accesses are recorded to find the ones of both threads that do not commute.
#pragma once

namespace sched {
struct Preempt {
  int tid;  // 1 or 2
  long at;  // before its at-th point (counted from 1) this thread hands over to the other one
};
enum Mode { kPlain, kRecord, kAll, kConflicts };
typedef void (*Body)(void*);

// Runs the two bodies on two threads, one at a time: `first` starts, switches happen at the given
// preemptions and when a thread ends or blocks.
void run(Body f1, void* a1, Body f2, void* a2, int first, const Preempt* p, int np, Mode mode);
long points(int tid);  // points passed in the last run
long switches();
// Accesses (in 8-byte granules) of the recorded runs that conflict; freezes the set for kConflicts.
void clear_record();
int freeze_conflicts();
long recorded();  // accesses recorded
void pin(int k);
// Runs one body on the calling thread as if it were thread `tid` (its own memory arena).
void alone(int tid, Body f, void* a);
}  // namespace sched
