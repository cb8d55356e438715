// Deterministic scheduler.  Threads of a run are real threads of which exactly
// one runs at a time; who runs next, how long time stands still, spurious
// wake-ups, and which waiter a notification reaches are choices of the case.
// Interposed: pthread mutexes, condition variables, reader-writer locks,
// create/join/detach, sleeping, yielding, the monotonic and the real-time clock, and
// stdio output.  Code compiled with -fsanitize-coverage=trace-loads,trace-stores
// can also be preempted between its memory accesses.  Under TSan the hand-over
// between threads is invisible to the tool, so a data race is reported in
// whichever schedule the case runs.
#ifndef VERIF_LIB_DETSCHED_H_
#define VERIF_LIB_DETSCHED_H_

#include <cstdint>
#include <functional>

#include "pbt.h"

namespace det {

// Draws a strategy and runs |body| as the first thread of a run.  Returns once
// every thread created in the run has finished.  A state in which no thread
// can ever run again fails the case, as does a run that makes no progress.
void run(pbt::Ctx& c, const std::function<void()>& body);

// In bookkeeping of the harness: no preemption, invisible to TSan.
class Hidden {
 public:
  Hidden();
  ~Hidden();
  Hidden(const Hidden&) = delete;
};

void point();            // explicit scheduling point
int64_t now_ns();        // virtual monotonic time
void sleep_ns(int64_t);  // virtual sleep
// Blocks until |pred| holds.  |pred| must be cheap and read only bookkeeping.
// Gives no happens-before edge.
void await(const std::function<bool()>& pred, const char* what);
int self();              // thread number in the run, -1 outside
// Threads created in this run that have not finished, without the caller.
int others_alive();
bool active();
// Called when the run is stuck, to add to the message; may be null.
void on_stuck(const std::function<std::string()>& f);

struct Stats {
  uint64_t steps, switches, accesses, preemptions, spurious, timeouts, threads, jumps;
};
Stats stats();

// pthread-level thread of the harness itself (std::thread works as well).
}  // namespace det

#endif
