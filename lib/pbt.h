// Property-based testing engine of this repository's checks.
//
// A case is a pure function of a sequence of bounded choices.  Every random
// decision of a case is drawn through Ctx, so a case can be replayed from its
// choice list, and shrunk by deleting and lowering choices.  Cases run in
// forked workers: an assertion, a sanitizer report, a crash, a hang or an
// explicit Ctx::fail() ends the worker and is a failure of the current case.
#ifndef VERIF_LIB_PBT_H_
#define VERIF_LIB_PBT_H_

#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <new>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace pbt {

class Ctx {
 public:
  // Uniform in [0, n).  n == 0 means the full 64-bit range.
  uint64_t draw(uint64_t n);
  // Uniform in [lo, hi].
  int64_t range(int64_t lo, int64_t hi) {
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo) +
        draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
  }
  size_t size(size_t lo, size_t hi) {
    return lo + static_cast<size_t>(draw(hi - lo + 1));
  }
  // True with probability num/den; shrinks towards false.
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool flip() { return draw(2) == 1; }
  // Index with the given weights; shrinks towards the first.
  size_t weighted(std::initializer_list<unsigned> w);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <class T, size_t N>
  const T& pick(const T (&v)[N]) {
    return v[draw(N)];
  }
  // Counts of class |name| end up in the evidence.
  void label(const char* name);
  // Marks the case as non-trivial (by the scenario's stated rule).
  void nontrivial() { nontrivial_ = true; }
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail_str(const std::string& msg);
  // Case description, only materialised for samples and replays.
  bool tracing() const { return tracing_; }
  void trace(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

  // --- internal ---
  // kChild: a generator of its own from one seed, for a thread of a case.
  enum Mode { kRandom, kReplay, kChild };
  Mode mode_ = kRandom;
  uint64_t rng_ = 0;
  const uint64_t* replay_ = nullptr;
  size_t replay_n_ = 0;
  size_t pos_ = 0;
  uint64_t hash_ = 0;
  bool nontrivial_ = false;
  bool tracing_ = false;
  // Byte source (coverage-guided front end).
  const uint8_t* bytes_ = nullptr;
  size_t bytes_n_ = 0;
};

#define PBT_CHECK(c, cond, ...)                                     \
  do {                                                              \
    if (!(cond)) {                                                  \
      ::pbt::pre_fail(#cond, __FILE__, __LINE__);                   \
      (c).fail(__VA_ARGS__);                                        \
    }                                                               \
  } while (0)

void pre_fail(const char* cond, const char* file, int line);

using ScenarioFn = void (*)(Ctx&);

struct Scenario {
  const char* name;
  ScenarioFn fn;
  uint64_t quick;     // number of cases, quick tier
  uint64_t thorough;  // number of cases, thorough tier
  bool isolate;       // one process per case
  const char* rule;   // how cases are made / what is non-trivial
};

struct Registrar {
  explicit Registrar(const Scenario& s);
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define SCENARIO(id, quick, thorough, isolate, rule)                       \
  static void PBT_CAT(scenario_, id)(::pbt::Ctx & c);                      \
  static const ::pbt::Registrar PBT_CAT(registrar_, id)(::pbt::Scenario{   \
      #id, &PBT_CAT(scenario_, id), quick, thorough, isolate, rule});      \
  static void PBT_CAT(scenario_, id)(::pbt::Ctx & c)

// Runs 2 to 4 threads at the same time, each with |rounds| cases of |f| from
// seeds of its own.  Nothing but the library connects them.
void in_threads(Ctx& c, int rounds, const std::function<void(Ctx&)>& f);
// The same on cases that may share something prepared by the caller.
void in_threads_i(Ctx& c, int rounds, const std::function<void(Ctx&, int thread)>& f);

// What an earlier call of something else may have left behind.
inline int gen_errno(Ctx& c) {
  static const int k[] = {0, ENOENT, EIO, ENOSPC, EINTR, EAGAIN, EINVAL, EFBIG, EEXIST, ERANGE, EBADF, EPERM};
  return c.pick(k);
}
inline void stale_errno(Ctx& c) {
  const int e = gen_errno(c);
  errno = e;
}

// Whether so many bytes of memory are to be had without pressing anyone.
bool memory_for(uint64_t bytes);

// The "hop" build moves a running case from thread to thread, at its choices, so
// that objects are used by several threads one after the other.
#ifdef PBT_HOP
#define PBT_THREAD_LOCAL
#else
#define PBT_THREAD_LOCAL thread_local
#endif
// No moves while one exists: around calls that call back.
struct Stay {
  Stay();
  ~Stay();
};

// Result of running something in a forked child.
struct Death {
  enum Kind { kExited, kAborted, kSignaled, kBadExit, kHung } kind;
  int code;            // exit code or signal
  uint64_t progress;   // last value stored by mark()
  std::string out;     // text stored by say() in the child
  std::string err;     // captured stderr
  bool survived() const { return kind == kExited; }
  bool aborted() const { return kind == kAborted; }
  std::string describe() const;
};
// Runs |f| in a forked child.  A deliberate stop (abort()/assert) yields
// kAborted; a sanitizer report or a crash yields kBadExit/kSignaled.
Death run_forked(const std::function<void()>& f);
// Usable in the forked child: remembers the last step reached.
void mark(uint64_t step);
void say(const std::string& s);

// Value generators.
std::string gen_bytes(Ctx& c, size_t max_len);
int64_t gen_int(Ctx& c);       // edge-biased over int64
uint64_t gen_uint(Ctx& c);     // edge-biased over uint64
double gen_double(Ctx& c);     // any bit pattern, edge-biased (may be nan/inf)
double gen_finite(Ctx& c);
// Calls f with a braced list of n elements, each built in place by mk(at, i).
template <class T, class Mk, class F>
auto with_list(size_t n, Mk&& mk, F&& f) {
  struct Layout { const T* data; size_t size; } layout;
  static_assert(sizeof(Layout) == sizeof(std::initializer_list<T>));
  struct Storage {
    T* p;
    size_t n = 0;
    ~Storage() { while (n) p[--n].~T(); ::operator delete(p); }
  } st{static_cast<T*>(::operator new(n * sizeof(T)))};
  for (; st.n < n; st.n++) mk(static_cast<void*>(st.p + st.n), st.n);
  layout = {st.p, n};
  std::initializer_list<T> l;
  memcpy(static_cast<void*>(&l), &layout, sizeof l);
  return f(l);
}
std::string quote(std::string_view s, size_t max = 80);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash64(uint64_t x);

// A private scratch directory of this process tree, removed at exit of the
// top-level process.
const std::string& scratch();
// One on another file system, or an empty string.
const std::string& far_scratch();
bool thorough();
uint64_t seed();

}  // namespace pbt

// Live operator-new allocations (lib/alloc.cc).
namespace alloc {
struct Counts {
  int64_t live;
  uint64_t news;
};
Counts now();
void per_thread();  // from now on count for this thread alone
}  // namespace alloc

#endif
