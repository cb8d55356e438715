#include "detsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define WEAK __attribute__((weak))
#define NOSAN __attribute__((no_sanitize("thread", "coverage")))

extern "C" {
WEAK void AnnotateIgnoreReadsBegin(const char*, int);
WEAK void AnnotateIgnoreReadsEnd(const char*, int);
WEAK void AnnotateIgnoreWritesBegin(const char*, int);
WEAK void AnnotateIgnoreWritesEnd(const char*, int);
WEAK int __asan_address_is_poisoned(void const volatile*);
}

// The real function: the sanitizer's interceptor if there is one.
#define DECL_REAL(ret, name, ...)                       \
  extern "C" WEAK ret __interceptor_##name(__VA_ARGS__); \
  using name##_fn = ret (*)(__VA_ARGS__);               \
  static name##_fn real_##name() {                      \
    static name##_fn p;                                 \
    if (!p) {                                           \
      p = &__interceptor_##name;                        \
      if (!p) p = (name##_fn)dlsym(RTLD_NEXT, #name);   \
    }                                                   \
    return p;                                           \
  }

typedef void* (*start_fn)(void*);
DECL_REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, start_fn, void*)
DECL_REAL(int, pthread_join, pthread_t, void**)
DECL_REAL(int, pthread_detach, pthread_t)
DECL_REAL(int, pthread_mutex_lock, pthread_mutex_t*)
DECL_REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
DECL_REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
DECL_REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
DECL_REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
DECL_REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
DECL_REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
DECL_REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
DECL_REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
DECL_REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*)
DECL_REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)
DECL_REAL(int, pthread_cond_signal, pthread_cond_t*)
DECL_REAL(int, pthread_cond_broadcast, pthread_cond_t*)
DECL_REAL(int, pthread_cond_destroy, pthread_cond_t*)
DECL_REAL(int, clock_gettime, clockid_t, timespec*)
DECL_REAL(int, nanosleep, const timespec*, timespec*)
DECL_REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
DECL_REAL(int, usleep, useconds_t)
DECL_REAL(int, sched_yield, void)
DECL_REAL(size_t, fwrite, const void*, size_t, size_t, FILE*)
DECL_REAL(int, fflush, FILE*)
DECL_REAL(int, fputs, const char*, FILE*)
DECL_REAL(int, fputc, int, FILE*)
DECL_REAL(int, vfprintf, FILE*, const char*, va_list)
DECL_REAL(int, fclose, FILE*)
DECL_REAL(void, flockfile, FILE*)
DECL_REAL(void, funlockfile, FILE*)

namespace det {
namespace {

enum State { kFree, kRun, kLock, kRead, kWrite, kCond, kJoin, kPred, kSleep, kDone };
const char* const kStateName[] = {"free", "running", "waiting for a mutex", "waiting for a read lock",
                                  "waiting for a write lock", "waiting on a condition variable", "joining",
                                  "waiting for", "sleeping", "done"};

struct Thread {
  int id;
  int go;
  State st;
  void* obj;          // what it waits for
  void* relock;       // mutex to take after a condition wait
  bool timed;
  int64_t deadline;
  bool timed_out;
  pthread_t handle;
  bool detached;
  start_fn fn;
  void* arg;
  uint64_t prio;
  const std::function<bool()>* pred;
  const char* what;
};

constexpr int kMaxThreads = 256;
Thread g_t[kMaxThreads];
int g_n;
int g_cur;
bool g_active;
pbt::Ctx* g_ctx;
int64_t g_now;
constexpr int64_t kBase = 1000000000000LL;        // virtual monotonic time at start
constexpr int64_t kWall = 1700000000000000000LL;  // real time minus monotonic time
Stats g_stats;
std::function<std::string()>* g_stuck_own;

// Strategy of the run.
int g_mode;              // 0 random walk, 1 priorities
unsigned g_switch_den;   // random walk: switch at 1 of this many points
unsigned g_gap_mean;     // mean distance of preemptions at memory accesses
int64_t g_gap;
int g_spurious_left;
unsigned g_jump_den;     // time jumps, 0: none
int64_t g_next_change;   // priorities: steps to the next change point
int g_changes_left;
uint64_t g_limit;

struct Held { void* m; int owner; int count; int readers; };
constexpr int kMaxHeld = 512;
Held g_held[kMaxHeld];
int g_nheld;

thread_local int t_self = -1;
thread_local int t_hidden = 0;

Held* find(void* m) {
  for (int i = 0; i < g_nheld; i++)
    if (g_held[i].m == m) return &g_held[i];
  return nullptr;
}
Held* get(void* m) {
  Held* h = find(m);
  if (h) return h;
  if (g_nheld == kMaxHeld) g_ctx->fail("scheduler: too many locks held");
  g_held[g_nheld] = {m, -1, 0, 0};
  return &g_held[g_nheld++];
}
void drop(Held* h) {
  if (h->owner < 0 && h->readers == 0) *h = g_held[--g_nheld];
}

bool managed() { return g_active && t_self >= 0 && t_hidden == 0; }

void ignore_begin() {
  if (AnnotateIgnoreReadsBegin) {
    AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
    AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
  }
}
void ignore_end() {
  if (AnnotateIgnoreReadsEnd) {
    AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
    AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
  }
}

struct Guard {  // inside the scheduler
  Guard() { t_hidden++; ignore_begin(); }
  ~Guard() { ignore_end(); t_hidden--; }
};

uint64_t draw(uint64_t n) {
  if (n <= 1) return 0;
  return g_ctx->draw(n);
}
// True with probability 1/den; false is the simplest choice.
bool rarely(unsigned den) { return den != 0 && draw(den) == den - 1; }

void futex_wait(int* p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
void futex_wake(int* p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void stuck(const char* kind) {
  std::string s = kind;
  s += ":";
  for (int i = 0; i < g_n; i++) {
    if (g_t[i].st == kDone) continue;
    s += pbt::strf(" [thread %d%s: %s%s%s]", i, i == g_cur ? "*" : "", kStateName[g_t[i].st],
                   g_t[i].what ? " " : "", g_t[i].what ? g_t[i].what : "");
  }
  if (g_stuck_own && *g_stuck_own) s += " " + (*g_stuck_own)();
  g_ctx->fail_str(s);
}

bool can_run(Thread& t) {
  switch (t.st) {
    case kRun: return true;
    case kLock: { Held* h = find(t.obj); return !h; }
    case kWrite: { Held* h = find(t.obj); return !h; }
    case kRead: { Held* h = find(t.obj); return !h || h->owner < 0; }
    case kJoin: return g_t[(int)(intptr_t)t.obj].st == kDone;
    case kPred: return (*t.pred)();
    case kCond: return t.timed && t.deadline <= g_now;
    case kSleep: return t.deadline <= g_now;
    default: return false;
  }
}

int64_t next_deadline() {
  int64_t best = INT64_MAX;
  for (int i = 0; i < g_n; i++)
    if (((g_t[i].st == kCond && g_t[i].timed) || g_t[i].st == kSleep) && g_t[i].deadline > g_now &&
        g_t[i].deadline < best)
      best = g_t[i].deadline;
  return best;
}

// Chooses who runs next.  |forced|: the current thread cannot or should not go on.
int choose(bool forced) {
  while (true) {
    if (++g_stats.steps > g_limit) stuck("no progress (step limit reached)");
    g_now += 1;
    if (g_jump_den && rarely(g_jump_den)) {
      // Time passes while threads are still able to run.
      const int64_t d = next_deadline();
      if (d != INT64_MAX && d - g_now < 1000000000LL) {
        const uint64_t k = draw(4);
        g_now = k == 0 ? d : k == 1 ? d - 1 : k == 2 ? g_now + (d - g_now) / 2 : d + 1000;
        g_stats.jumps++;
      } else {
        g_now += (int64_t)draw(1000);
      }
    }
    if (g_spurious_left > 0 && rarely(24)) {
      int w[kMaxThreads], n = 0;
      for (int i = 0; i < g_n; i++)
        if (g_t[i].st == kCond) w[n++] = i;
      if (n) {
        Thread& t = g_t[w[draw(n)]];
        t.st = kLock;
        t.obj = t.relock;
        t.timed_out = false;
        g_spurious_left--;
        g_stats.spurious++;
      }
    }
    int r[kMaxThreads], n = 0;
    bool cur_ok = false;
    for (int i = 0; i < g_n; i++) {
      if (!can_run(g_t[i])) continue;
      if (i == g_cur) { cur_ok = true; continue; }
      r[n++] = i;
    }
    if (n == 0 && !cur_ok) {
      const int64_t d = next_deadline();
      if (d == INT64_MAX || d - g_now > 1000000000000000LL) stuck("deadlock");
      g_now = d;
      continue;
    }
    int next;
    if (g_mode == 1) {
      if (g_changes_left > 0 && --g_next_change <= 0) {
        g_changes_left--;
        g_next_change = 1 + (int64_t)draw(400);
        g_t[g_cur].prio = (uint64_t)g_changes_left;
      }
      if (forced && n) cur_ok = false;
      next = cur_ok ? g_cur : r[0];
      for (int i = 0; i < n; i++)
        if (g_t[r[i]].prio > g_t[next].prio) next = r[i];
    } else {
      if (n == 0) {
        next = g_cur;
      } else if (cur_ok && !forced) {
        next = rarely(g_switch_den) ? r[draw(n)] : g_cur;
      } else {
        next = r[draw(n)];
      }
    }
    Thread& t = g_t[next];
    if (t.st == kCond) {  // Its time is over; it goes for the mutex now.
      t.st = kLock;
      t.obj = t.relock;
      t.timed_out = true;
      g_stats.timeouts++;
      if (find(t.obj)) continue;
    }
    return next;
  }
}

void hand_over(int next) {
  Thread& me = g_t[g_cur];
  if (next == g_cur) return;
  g_stats.switches++;
  g_cur = next;
  const bool leave = me.st == kDone;
  Thread& you = g_t[next];
  if (leave) {
    futex_wake(&you.go);
    return;
  }
  futex_wake(&you.go);
  futex_wait(&me.go);
}

void acquire_now(Thread& me) {
  Held* h = get(me.obj);
  switch (me.st) {
    case kLock: case kWrite: h->owner = me.id; h->count = 1; break;
    case kRead: h->readers++; break;
    default: break;
  }
}

// Blocks the current thread in state |st| until chosen and able to run.
void block(State st, void* obj) {
  Thread& me = g_t[t_self];
  me.st = st;
  if (st != kCond) me.obj = obj;
  hand_over(choose(true));
  if (me.st == kLock || me.st == kWrite || me.st == kRead) acquire_now(me);
  me.st = kRun;
  me.what = nullptr;
}

void maybe_switch(bool forced) { hand_over(choose(forced)); }

void check_addr(const void* p, const char* what) {
  if (__asan_address_is_poisoned && __asan_address_is_poisoned(p))
    g_ctx->fail("%s of an object that is already destroyed (thread %d)", what, t_self);
}

int64_t to_ns(const timespec* ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (v > INT64_MAX) return INT64_MAX - 1;
  if (v < INT64_MIN) return INT64_MIN;
  return (int64_t)v;
}
int64_t deadline_of(clockid_t clk, const timespec* ts) {
  const int64_t v = to_ns(ts);
  if (clk != CLOCK_REALTIME) return v;
  return v < INT64_MIN + kWall ? INT64_MIN : v - kWall;
}

void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  futex_wait(&t->go);
  t_self = t->id;
  void* r = t->fn(t->arg);
  {
    Guard g;
    t->st = kDone;
    t_self = -1;
    const int next = choose(true);
    hand_over(next);
  }
  return r;
}

Thread& new_thread() {
  if (g_n == kMaxThreads) g_ctx->fail("scheduler: too many threads");
  Thread& t = g_t[g_n];
  t = Thread{};
  t.id = g_n++;
  t.st = kRun;
  t.prio = g_mode == 1 ? 1000 + draw(1000000) : 0;
  g_stats.threads++;
  return t;
}

void redraw_gap() {
  g_gap = g_gap_mean ? (int64_t)(2 * g_gap_mean) - (int64_t)draw(2 * g_gap_mean) : INT64_MAX;
}

void access_point() {
  if (t_self < 0 || !g_active || t_hidden) return;
  g_stats.accesses++;
  if (--g_gap > 0) return;
  Guard g;
  redraw_gap();
  g_stats.preemptions++;
  maybe_switch(g_mode == 0);
}

void cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, bool timed, int64_t deadline, bool* timed_out) {
  Thread& me = g_t[t_self];
  {
    Guard g;
    check_addr(cv, "wait");
    maybe_switch(false);
    Held* h = find(m);
    if (!h || h->owner != t_self) g_ctx->fail("condition wait without holding the mutex");
    me.obj = cv;
    me.relock = m;
    me.timed = timed;
    me.deadline = deadline;
    me.timed_out = false;
    h->owner = -1;
    drop(h);
  }
  real_pthread_mutex_unlock()(m);
  {
    Guard g;
    block(kCond, cv);
    *timed_out = me.timed_out;
    me.timed = false;
  }
  real_pthread_mutex_lock()(m);
}

void notify(pthread_cond_t* cv, bool all) {
  Guard g;
  check_addr(cv, "notification");
  maybe_switch(false);
  check_addr(cv, "notification");
  while (true) {
    int w[kMaxThreads], n = 0;
    for (int i = 0; i < g_n; i++)
      if (g_t[i].st == kCond && g_t[i].obj == cv) w[n++] = i;
    if (n == 0) break;
    Thread& t = g_t[w[all ? 0 : draw(n)]];
    t.st = kLock;
    t.obj = t.relock;
    t.timed_out = false;
    if (!all) break;
  }
  maybe_switch(false);
}

int lock(void* m, bool recursive, State st, bool try_only) {
  Guard g;
  check_addr(m, "lock");
  maybe_switch(false);
  check_addr(m, "lock");
  Held* h = find(m);
  if (h && h->owner == t_self) {
    if (recursive) { h->count++; return 0; }
    if (try_only) return EBUSY;
    g_ctx->fail("thread %d locks a mutex it holds already", t_self);
  }
  Thread& me = g_t[t_self];
  if (h && !(st == kRead && h->owner < 0)) {
    if (try_only) return EBUSY;
    block(st, m);
  } else {
    me.obj = m;
    me.st = st;
    acquire_now(me);
    me.st = kRun;
  }
  return 0;
}

// True if the model releases it now.
bool unlock_model(void* m) {
  check_addr(m, "unlock");
  Held* h = find(m);
  if (!h) g_ctx->fail("thread %d unlocks a lock nobody holds", t_self);
  if (h->owner == t_self) {
    if (--h->count > 0) return false;
    h->owner = -1;
  } else if (h->readers > 0) {
    h->readers--;
  } else {
    g_ctx->fail("thread %d unlocks a lock of thread %d", t_self, h->owner);
  }
  drop(h);
  return true;
}

Thread* by_handle(pthread_t h) {
  for (int i = g_n - 1; i >= 0; i--)
    if (i > 0 && pthread_equal(g_t[i].handle, h)) return &g_t[i];
  return nullptr;
}

}  // namespace

Hidden::Hidden() { t_hidden++; ignore_begin(); }
Hidden::~Hidden() { ignore_end(); t_hidden--; }

void run(pbt::Ctx& c, const std::function<void()>& body) {
  {
    Guard g;
    g_ctx = &c;
    g_n = 0;
    g_nheld = 0;
    g_now = kBase;
    g_stats = Stats{};
    if (!g_stuck_own) g_stuck_own = new std::function<std::string()>;
    *g_stuck_own = nullptr;
    g_mode = (int)c.weighted({3, 2});
    static const unsigned kDen[] = {8, 4, 2, 20};
    g_switch_den = kDen[c.draw(4)];
    static const unsigned kGap[] = {0, 300, 60, 12, 1500};
    g_gap_mean = kGap[c.draw(5)];
    redraw_gap();
    g_spurious_left = (int)c.weighted({3, 1, 1});
    static const unsigned kJump[] = {0, 100, 20, 6};
    g_jump_den = kJump[c.draw(4)];
    g_changes_left = g_mode == 1 ? (int)c.draw(6) : 0;
    g_next_change = 1 + (g_mode == 1 ? (int64_t)c.draw(200) : 0);
    g_limit = 3000000;
    Thread& t = new_thread();
    t.handle = pthread_self();
    g_cur = 0;
    t_self = 0;
    g_active = true;
  }
  body();
  {
    Guard g;
    Thread& me = g_t[0];
    while (true) {
      int left = 0;
      for (int i = 1; i < g_n; i++) left += g_t[i].st != kDone;
      if (!left) break;
      const std::function<bool()> pred = [] {
        for (int i = 1; i < g_n; i++)
          if (g_t[i].st != kDone) return false;
        return true;
      };
      me.pred = &pred;
      me.what = "all threads to finish";
      block(kPred, nullptr);
    }
    g_active = false;
    t_self = -1;
  }
}

void point() {
  if (!managed()) return;
  Guard g;
  maybe_switch(false);
}

int64_t now_ns() { return g_now; }

void sleep_ns(int64_t ns) {
  if (!managed()) return;
  Guard g;
  Thread& me = g_t[t_self];
  me.deadline = ns > INT64_MAX - 1 - g_now ? INT64_MAX - 1 : g_now + ns;
  block(kSleep, nullptr);
}

void await(const std::function<bool()>& pred, const char* what) {
  if (!managed()) return;
  Guard g;
  Thread& me = g_t[t_self];
  maybe_switch(false);
  if (pred()) return;
  me.pred = &pred;
  me.what = what;
  block(kPred, nullptr);
}

int self() { return t_self; }
bool active() { return g_active; }
int others_alive() {
  int n = 0;
  for (int i = 0; i < g_n; i++) n += i != t_self && g_t[i].st != kDone;
  return n;
}
void on_stuck(const std::function<std::string()>& f) { *g_stuck_own = f; }
Stats stats() { return g_stats; }

}  // namespace det

using namespace det;

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, start_fn fn, void* arg) {
  if (!managed()) return real_pthread_create()(out, attr, fn, arg);
  Thread* t;
  {
    Guard g;
    t = &new_thread();
    t->fn = fn;
    t->arg = arg;
  }
  const int r = real_pthread_create()(&t->handle, attr, trampoline, t);
  Guard g;
  if (r != 0) g_ctx->fail("scheduler: pthread_create failed: %d", r);
  *out = t->handle;
  maybe_switch(false);
  return 0;
}

int pthread_join(pthread_t h, void** ret) {
  if (!managed()) return real_pthread_join()(h, ret);
  {
    Guard g;
    Thread* t = by_handle(h);
    if (!t || t->detached) g_ctx->fail("join of a thread that is not joinable");
    maybe_switch(false);
    if (t->st != kDone) {
      block(kJoin, (void*)(intptr_t)t->id);
    }
    t->detached = true;
  }
  return real_pthread_join()(h, ret);
}

int pthread_detach(pthread_t h) {
  if (managed()) {
    Guard g;
    Thread* t = by_handle(h);
    if (!t || t->detached) g_ctx->fail("detach of a thread that is not joinable");
    t->detached = true;
    maybe_switch(false);
  }
  return real_pthread_detach()(h);
}

static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (managed()) {
    const bool rec = is_recursive(m);
    lock(m, rec, kLock, false);
  }
  return real_pthread_mutex_lock()(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (managed() && lock(m, is_recursive(m), kLock, true) != 0) return EBUSY;
  return real_pthread_mutex_trylock()(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) return real_pthread_mutex_unlock()(m);
  {
    Guard g;
    unlock_model(m);
  }
  const int r = real_pthread_mutex_unlock()(m);
  Guard g;
  maybe_switch(false);
  return r;
}

#define RW(name, st, tr)                                                    \
  int name(pthread_rwlock_t* m) {                                           \
    if (managed() && lock(m, false, st, tr) != 0) return EBUSY;             \
    return real_##name()(m);                                                \
  }
RW(pthread_rwlock_rdlock, kRead, false)
RW(pthread_rwlock_wrlock, kWrite, false)
RW(pthread_rwlock_tryrdlock, kRead, true)
RW(pthread_rwlock_trywrlock, kWrite, true)
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!managed()) return real_pthread_rwlock_unlock()(m);
  {
    Guard g;
    unlock_model(m);
  }
  const int r = real_pthread_rwlock_unlock()(m);
  Guard g;
  maybe_switch(false);
  return r;
}

int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (!managed()) return real_pthread_cond_wait()(cv, m);
  bool to;
  cond_wait(cv, m, false, 0, &to);
  return 0;
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  if (!managed()) return real_pthread_cond_clockwait()(cv, m, clk, ts);
  bool to;
  cond_wait(cv, m, true, deadline_of(clk, ts), &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const timespec* ts) {
  if (!managed()) return real_pthread_cond_timedwait()(cv, m, ts);
  bool to;
  cond_wait(cv, m, true, deadline_of(CLOCK_REALTIME, ts), &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_signal(pthread_cond_t* cv) {
  if (!managed()) return real_pthread_cond_signal()(cv);
  notify(cv, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) {
  if (!managed()) return real_pthread_cond_broadcast()(cv);
  notify(cv, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* cv) {
  if (!managed()) return real_pthread_cond_destroy()(cv);
  Guard g;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kCond && g_t[i].obj == cv)
      g_ctx->fail("condition variable destroyed while thread %d waits on it", i);
  maybe_switch(false);
  return 0;
}

int clock_gettime(clockid_t clk, timespec* ts) {
  if (!managed() || (clk != CLOCK_MONOTONIC && clk != CLOCK_REALTIME)) return real_clock_gettime()(clk, ts);
  int64_t v = g_now + (clk == CLOCK_REALTIME ? kWall : 0);
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) {
  if (!managed()) return real_nanosleep()(ts, rem);
  sleep_ns(to_ns(ts));
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* ts, timespec* rem) {
  if (!managed()) return real_clock_nanosleep()(clk, flags, ts, rem);
  const int64_t d = (flags & TIMER_ABSTIME) ? deadline_of(clk, ts) - g_now : to_ns(ts);
  sleep_ns(d < 0 ? 0 : d);
  return 0;
}
int usleep(useconds_t us) {
  if (!managed()) return real_usleep()(us);
  sleep_ns((int64_t)us * 1000);
  return 0;
}
int sched_yield(void) {
  if (!managed()) return real_sched_yield()();
  Guard g;
  maybe_switch(true);
  return 0;
}

// No preemption while a function-local static is being initialised.
// (Linked with --wrap.)
int __real___cxa_guard_acquire(long*);
void __real___cxa_guard_release(long*);
int __wrap___cxa_guard_acquire(long* p) {
  t_hidden++;
  const int r = __real___cxa_guard_acquire(p);
  if (!r) t_hidden--;
  return r;
}
void __wrap___cxa_guard_release(long* p) {
  __real___cxa_guard_release(p);
  t_hidden--;
}

// The same for std::call_once().
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  det::point();
  t_hidden++;
  const int r = __real_pthread_once(o, f);
  t_hidden--;
  return r;
}

// stdio output: a scheduling point before and after each call.
int fputs(const char* p, FILE* f) {
  det::point();
  const int r = real_fputs()(p, f);
  det::point();
  return r;
}
int fputc(int ch, FILE* f) {
  det::point();
  const int r = real_fputc()(ch, f);
  det::point();
  return r;
}
int putc(int ch, FILE* f) { return fputc(ch, f); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
  det::point();
  const size_t r = real_fwrite()(p, s, n, f);
  det::point();
  return r;
}
int fflush(FILE* f) {
  det::point();
  const int r = real_fflush()(f);
  det::point();
  return r;
}
int fclose(FILE* f) {
  det::point();
  return real_fclose()(f);
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  det::point();
  const int r = real_vfprintf()(f, fmt, ap);
  det::point();
  return r;
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  const int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
// Locking a file explicitly: no preemption until unlocked.
void flockfile(FILE* f) {
  det::point();
  real_flockfile()(f);
  t_hidden++;
}
void funlockfile(FILE* f) {
  t_hidden--;
  real_funlockfile()(f);
  det::point();
}

#define ACC(n)                                            \
  void __sanitizer_cov_load##n(void*) { access_point(); } \
  void __sanitizer_cov_store##n(void*) { access_point(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
WEAK void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { access_point(); }
}
