// C20: bound calls run with their arguments only while the target lives.
#include <functional>
#include <memory>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <tuple>

#include "rst/bind/bind.h"
#include "rst/bind/bind_helpers.h"
#include "rst/memory/weak_ptr.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
struct Log {
  int calls = 0;
  const void* target = nullptr;
  int target_id = -1;
  std::string args;
  bool alive = false;
};
PBT_THREAD_LOCAL Log* g_log = nullptr;
PBT_THREAD_LOCAL std::function<void()> g_during;  // runs inside the callee
PBT_THREAD_LOCAL int g_alive[64];
PBT_THREAD_LOCAL int g_freed = 0;

struct Target : rst::SupportsWeakPtr<Target>, std::enable_shared_from_this<Target> {
  explicit Target(int i) : id(i) { g_alive[i] = 1; }
  ~Target() { g_alive[id] = 0; g_freed++; }
  void record(const std::string& args) const {
    g_log->calls++;
    g_log->target = this;
    g_log->target_id = id;
    g_log->args = args;
    if (g_during) g_during();
    g_log->alive = g_alive[g_log->target_id];
  }
  void None() { record(""); }
  void NoneConst() const { record(""); }
  void One(const std::string& a) { record("s:" + a + ";"); }
  void Ref(int& r) { r++; record("r:" + std::to_string(r) + ";"); }
  int Two(std::string a, int b) const { record("s:" + a + ";i:" + std::to_string(b) + ";"); return 5; }
  int id;
};

std::string show(const std::string& s) { return "s:" + s + ";"; }
std::string show(const int& v) { return "i:" + std::to_string(v) + ";"; }
std::string show(const std::unique_ptr<int>& v) { return "u:" + std::to_string(*v) + ";"; }
struct Counter { int* n; int key; Counter(int* c, int k) : n(c), key(k) { ++*n; } Counter(const Counter& o) : n(o.n), key(o.key) { ++*n; } ~Counter() { --*n; } };
std::string show(const Counter& k) { return "k:" + std::to_string(k.key) + ";"; }

// Accepts any target and arguments.
struct Any {
  template <class T, class... A>
  void operator()(const T& target, A&&... a) const {
    std::string s;
    ((s += show(a)), ...);
    target->record(s);
  }
};
void free_raw(Target* t, const std::string& a) { t->record("s:" + a + ";"); }
// Takes the target however the bound call passes it.
struct Passed {
  Passed(Target* t) : p(t) {}
  Passed(const std::shared_ptr<Target>& t) : keep(t), p(t.get()) {}
  std::shared_ptr<Target> keep;
  Target* p;
};
void free_shared(Passed t, const std::string& a) { t.keep.reset(); t.p->record("s:" + a + ";"); }

// An argument of a bound call, chosen by a number.
enum { kStr, kInt, kRefInt, kCounter, kPh1, kPh2, kRefStr, kArgKinds };
struct Args { std::string str; int num; int ref; std::string ref_str; int counters = 0; int key; };
template <int K> auto arg(Args& a) {
  if constexpr (K == kStr) return a.str;
  else if constexpr (K == kInt) return a.num;
  else if constexpr (K == kRefInt) return std::ref(a.ref);
  else if constexpr (K == kCounter) return Counter(&a.counters, a.key);
  else if constexpr (K == kPh1) return std::placeholders::_1;
  else if constexpr (K == kPh2) return std::placeholders::_2;
  else return std::cref(a.ref_str);
}
std::string expect(int k, const Args& bound, const Args& now, const std::string& p1, int p2) {
  switch (k) {
    case kStr: return show(bound.str);
    case kInt: return show(bound.num);
    case kRefInt: return show(now.ref);
    case kCounter: return "k:" + std::to_string(bound.key) + ";";
    case kPh1: return show(p1);
    case kPh2: return show(p2);
    default: return show(now.ref_str);
  }
}
using Fn = std::function<void(const std::string&, int)>;

constexpr int third(int code) { return (code % kArgKinds + 2 * (code / kArgKinds) + 1) % kArgKinds; }
template <int N, int C>
Fn make(Args& a, const std::shared_ptr<Target>& t, bool shared) {
  constexpr int k0 = C % kArgKinds, k1 = C / kArgKinds % kArgKinds, k2 = third(C);
  auto bind = [&](auto&&... x) -> Fn {
    if (shared) return rst::Bind(Any(), std::weak_ptr<Target>(t), std::forward<decltype(x)>(x)...);
    return rst::Bind(Any(), t->AsWeakPtr(), std::forward<decltype(x)>(x)...);
  };
  if constexpr (N == 0) return bind();
  else if constexpr (N == 1) return bind(arg<k0>(a));
  else if constexpr (N == 2) return bind(arg<k0>(a), arg<k1>(a));
  else return bind(arg<k0>(a), arg<k1>(a), arg<k2>(a));
}
using MakeFn = Fn (*)(Args&, const std::shared_ptr<Target>&, bool);
template <int N, int... C> std::vector<MakeFn> table(std::integer_sequence<int, C...>) { return {&make<N, C>...}; }
const std::vector<MakeFn> kMake[4] = {table<0>(std::make_integer_sequence<int, 1>()), table<1>(std::make_integer_sequence<int, kArgKinds>()),
                                      table<2>(std::make_integer_sequence<int, kArgKinds * kArgKinds>()), table<3>(std::make_integer_sequence<int, kArgKinds * kArgKinds>())};

struct Bound { Fn f; int target; Args* args; Args snapshot; int n; int kinds[3]; bool shared; };
std::string word(Ctx& c) { return std::string(c.size(0, 20), char('a' + c.draw(26))); }
}  // namespace

SCENARIO(calls, 150000, 2500000, false,
         "up to 4 bound functions (each of the 106 argument patterns: all of up to two arguments, 49 of three, of values, references, counted objects and placeholders, both kinds of weak pointer) on up to 2 targets, copied, moved, called and dropped in random order with targets dying between and during calls; "
         "non-trivial: a call with arguments on a live target and a call on a dead one") {
  memset(g_alive, 0, sizeof g_alive);
  std::vector<std::shared_ptr<Target>> targets;
  for (int k = 0; k < 2; k++) targets.push_back(std::make_shared<Target>(k));
  int targets_made = 2;
  std::vector<int> ids = {0, 1};
  std::vector<std::unique_ptr<Args>> args;
  std::vector<Bound> fs;
  bool live_call = false, dead_call = false;
  for (size_t k = 0, steps = c.size(2, 16); k < steps; k++) {
    switch (c.weighted({3, 6, 2, 2, 1, 1})) {
      case 0: {
        size_t t = c.draw(targets.size());
        if (!targets[t] || fs.size() >= 6) break;
        args.push_back(std::make_unique<Args>());
        Args& a = *args.back();
        a.str = word(c); a.num = int(c.draw(100)); a.ref = int(c.draw(100)); a.ref_str = word(c); a.key = int(c.draw(50));
        Bound b;
        b.n = int(c.draw(4));
        b.shared = c.flip();
        size_t code = c.draw(kMake[b.n].size());
        b.kinds[0] = int(code) % kArgKinds; b.kinds[1] = int(code) / kArgKinds % kArgKinds; b.kinds[2] = third(int(code));
        b.f = kMake[b.n][code](a, targets[t], b.shared);
        b.target = ids[t];
        b.args = &a;
        b.snapshot = a;
        c.trace("bind %zu: %s weak pointer to target %d, %d arguments, kinds %d %d %d\n", fs.size(), b.shared ? "shared" : "rst", b.target, b.n, b.kinds[0], b.kinds[1], b.kinds[2]);
        // The originals may change at will.
        a.str = "changed"; a.num = -1;
        fs.push_back(std::move(b));
        break;
      }
      case 1: {
        if (fs.empty()) break;
        Bound& b = fs[c.draw(fs.size())];
        std::string p1 = word(c);
        int p2 = int(c.draw(1000));
        b.args->ref = int(c.draw(1000));
        b.args->ref_str = word(c);
        Log log;
        g_log = &log;
        bool alive = g_alive[b.target];
        int kill = -1;
        if (alive && c.chance(1, 6)) {
          for (size_t t = 0; t < targets.size(); t++) if (targets[t] && ids[t] == b.target) kill = int(t);
          g_during = [&] { if (kill >= 0) targets[size_t(kill)].reset(); };
        }
        int freed = g_freed;
        b.f(p1, p2);
        g_during = nullptr;
        std::string want;
        for (int i = 0; i < b.n; i++) want += expect(b.kinds[i], b.snapshot, *b.args, p1, p2);
        c.trace("call on %s target %d%s -> %d calls, \"%s\"\n", alive ? "live" : "dead", b.target, kill >= 0 ? ", which loses its owner meanwhile" : "", log.calls, log.args.c_str());
        PBT_CHECK(c, log.calls == (alive ? 1 : 0), "called %d times on a %s target", log.calls, alive ? "live" : "dead");
        if (alive) {
          PBT_CHECK(c, log.target_id == b.target, "wrong target %d", log.target_id);
          PBT_CHECK(c, log.args == want, "arguments \"%s\" instead of \"%s\"", log.args.c_str(), want.c_str());
          if (kill >= 0) {
            PBT_CHECK(c, log.alive == b.shared, "target %s during the call after its last other owner went away", log.alive ? "alive" : "gone");
            PBT_CHECK(c, !g_alive[b.target] && g_freed == freed + 1, "the target outlives the call");
          }
          if (b.n) live_call = true;
        } else dead_call = true;
        break;
      }
      case 2: {
        size_t t = c.draw(targets.size());
        if (targets[t]) {
          c.trace("target %d dies\n", ids[t]);
          targets[t].reset();
          PBT_CHECK(c, !g_alive[ids[t]], "bound functions keep a target alive");
        } else if (targets_made < 60) {
          ids[t] = targets_made;
          targets[t] = std::make_shared<Target>(targets_made++);
          c.trace("new target %d\n", ids[t]);
        }
        break;
      }
      case 3: {
        if (fs.empty() || fs.size() >= 6) break;
        Bound b = fs[c.draw(fs.size())];
        c.trace("copy\n");
        fs.push_back(b);
        break;
      }
      case 4: {
        if (fs.empty()) break;
        size_t i = c.draw(fs.size());
        Fn g = std::move(fs[i].f);
        fs[i].f = std::move(g);
        c.trace("move %zu\n", i);
        break;
      }
      default: {
        if (fs.empty()) break;
        fs.erase(fs.begin() + long(c.draw(fs.size())));
        c.trace("drop one\n");
      }
    }
    for (auto& b : fs) {
      bool counted = false;
      for (int i = 0; i < b.n; i++) counted |= b.kinds[i] == kCounter;
      if (counted) PBT_CHECK(c, b.args->counters >= 1, "a bound object was destroyed");
    }
  }
  fs.clear();
  for (auto& a : args) PBT_CHECK(c, a->counters == 0, "%d bound objects are still alive after the bound functions", a->counters);
  if (live_call && dead_call) c.nontrivial();
}

SCENARIO(members, 40000, 800000, false,
         "member functions, free functions, moved-only values and stored bind objects, called several times; non-trivial: two or more calls on a live target") {
  memset(g_alive, 0, sizeof g_alive);
  auto t = std::make_shared<Target>(3);
  std::string s = word(c), p = word(c);
  int n = int(c.draw(100)), r = int(c.draw(100)), r0 = r;
  bool shared = c.flip();
  int which = int(c.draw(8));
  std::function<void(const std::string&)> f;
  auto weak = [&] { return t->AsWeakPtr(); };
  auto wsh = [&] { return std::weak_ptr<Target>(t); };
  switch (which) {
    case 0: if (shared) f = rst::Bind(&Target::None, wsh()); else f = rst::Bind(&Target::None, weak()); break;
    case 1: if (shared) f = rst::Bind(&Target::NoneConst, wsh()); else f = rst::Bind(&Target::NoneConst, weak()); break;
    case 2: if (shared) f = rst::Bind(&Target::One, wsh(), s); else f = rst::Bind(&Target::One, weak(), s); break;
    case 3: if (shared) f = rst::Bind(&Target::One, wsh(), std::placeholders::_1); else f = rst::Bind(&Target::One, weak(), std::placeholders::_1); break;
    case 4: if (shared) f = rst::Bind(&Target::Ref, wsh(), std::ref(r)); else f = rst::Bind(&Target::Ref, weak(), std::ref(r)); break;
    case 5: if (shared) f = rst::Bind(&Target::Two, wsh(), std::placeholders::_1, n); else f = rst::Bind(&Target::Two, weak(), std::placeholders::_1, n); break;
    case 6: if (shared) f = rst::Bind(&Target::Two, wsh(), s, n); else f = rst::Bind(&Target::Two, weak(), s, n); break;
    default: if (shared) f = rst::Bind(&free_shared, wsh(), s); else f = rst::Bind(&free_raw, weak(), s); break;
  }
  size_t calls = c.size(1, 4);
  auto g = f;
  for (size_t k = 0; k < calls; k++) {
    Log log;
    g_log = &log;
    bool dead = c.chance(1, 5);
    if (dead) t.reset();
    (k % 2 ? g : f)(p);
    bool live = t != nullptr;
    std::string want;
    switch (which) {
      case 2: case 7: want = show(s); break;
      case 3: want = show(p); break;
      case 4: if (live) r0++; want = "r:" + std::to_string(r0) + ";"; break;
      case 5: want = show(p) + show(n); break;
      case 6: want = show(s) + show(n); break;
    }
    c.trace("%s form %d call %zu: %d calls \"%s\"\n", shared ? "shared" : "rst", which, k, log.calls, log.args.c_str());
    PBT_CHECK(c, log.calls == (live ? 1 : 0), "called %d times on a %s target", log.calls, live ? "live" : "dead");
    if (live) {
      PBT_CHECK(c, log.target == t.get(), "wrong target");
      PBT_CHECK(c, log.args == want, "arguments \"%s\" instead of \"%s\"", log.args.c_str(), want.c_str());
    }
    PBT_CHECK(c, r == r0, "reference argument %d instead of %d", r, r0);
    if (k && live) c.nontrivial();
  }
  // Move-only values are held by the bound object itself.
  auto t2 = std::make_shared<Target>(4);
  Log log;
  g_log = &log;
  if (c.flip()) {
    auto h = rst::Bind(Any(), std::weak_ptr<Target>(t2), std::make_unique<int>(n), std::placeholders::_1);
    auto h2 = std::move(h);
    h2(p);
    h2(p);
  } else {
    auto h = rst::Bind(Any(), t2->AsWeakPtr(), std::make_unique<int>(n), std::placeholders::_1);
    auto h2 = std::move(h);
    h2(p);
    h2(p);
  }
  PBT_CHECK(c, log.calls == 2 && log.args == "u:" + std::to_string(n) + ";" + show(p), "move-only value: \"%s\"", log.args.c_str());
}

SCENARIO(helpers, 2000, 20000, false, "do-nothing and null functions converted to many signatures, called with random values; non-trivial: always") {
  c.nontrivial();
  std::string s = word(c), keep = s;
  int n = int(c.draw(1000)), keep_n = n;
  auto live = alloc::now().live;
  {
    std::function<void()> a = rst::DoNothing();
    std::function<void(int&)> b = rst::DoNothing();
    std::function<void(const std::string&, int)> d = rst::DoNothing();
    std::function<void(std::unique_ptr<int>)> e = rst::DoNothing();
    std::function<void(std::string&, int, double, const char*, int&, std::string)> f = rst::DoNothing();
    auto g = rst::DoNothing::Function<int, std::string&>();
    std::function<void(std::string&&)> h = rst::DoNothing();
    for (size_t k = 0, m = c.size(1, 3); k < m; k++) {
      a(); b(n); d(s, n); e(std::make_unique<int>(n)); f(s, n, 1.5, "x", n, s); g(n, s); h(std::move(s));
    }
    PBT_CHECK(c, s == keep && n == keep_n, "the do-nothing function changed an argument");
    PBT_CHECK(c, a && b && d && e && f && g && h, "an empty do-nothing function");
    std::function<void()> na = rst::NullFunction();
    std::function<int(int, std::string)> nb = rst::NullFunction();
    std::function<std::string(std::unique_ptr<int>, int&)> nc = rst::NullFunction();
    PBT_CHECK(c, na == nullptr && nb == nullptr && nc == nullptr, "a null function is not empty");
    a = rst::NullFunction();
    PBT_CHECK(c, !a, "assigning a null function");
  }
  PBT_CHECK(c, alloc::now().live == live, "leak");
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of calls, members; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_calls(t); break;
      default: scenario_members(t); break;
    }
  });
}

namespace {
struct Plain {
  explicit Plain(std::atomic<int>* d) : died(d) {}
  ~Plain() { value = -1; died->fetch_add(1, std::memory_order_relaxed); }
  void Add(std::atomic<long>* sum, const std::string& s, int extra) const {
    const long v = value;
    sum->fetch_add(v + long(s.size()) + extra, std::memory_order_relaxed);
    if (value != v || v != 1000) { fprintf(stderr, "the target changed during the call\n"); _exit(97); }
  }
  long value = 1000;
  std::atomic<int>* died;
};
}  // namespace

SCENARIO(shared, 500, 15000, false,
         "a call bound to a std::weak_ptr, or copies of it, made by 2 to 4 threads while another drops the last owner at a random moment; every call runs on the live object "
         "or does nothing, none runs afterwards, and the object dies once; data races found by TSan; non-trivial: the owner was dropped meanwhile") {
  std::atomic<int> died{0};
  std::atomic<long> sum{0};
  auto owner = std::make_shared<Plain>(&died);
  const std::string word(c.draw(60), 'x');
  const int extra = int(c.draw(10));
  const bool drop = c.weighted({1, 3}) == 1, copies = c.flip();
  const uint64_t delay = c.draw(3000);
  if (drop) c.nontrivial();
  c.trace("%s, dropped: %d after %llu\n", copies ? "a copy for each thread" : "one function", drop, (unsigned long long)delay);
  const auto f = rst::Bind(&Plain::Add, std::weak_ptr<Plain>(owner), &sum, word, extra);
  const std::function<void()> g = f;
  std::thread dropper([&] {
    for (volatile uint64_t i = 0; i < delay; i = i + 1) {}
    if (drop) owner.reset();
  });
  std::atomic<long> calls{0};
  pbt::in_threads_i(c, 12, [&](Ctx&, int) {
    std::function<void()> h;
    if (copies) h = g;
    for (int k = 0; k < 5; k++) {
      if (copies) h(); else g();
      calls.fetch_add(1, std::memory_order_relaxed);
    }
  });
  dropper.join();
  const long each = 1000 + long(word.size()) + extra;
  PBT_CHECK(c, sum % each == 0 && sum / each <= calls, "the calls added up to %ld, each adds %ld", sum.load(), each);
  PBT_CHECK(c, drop || sum / each == calls, "%ld of %ld calls ran on a living target", sum / each, calls.load());
  PBT_CHECK(c, died == int(drop), "the target died %d times", died.load());
  const long before = sum;
  g();
  PBT_CHECK(c, sum == before + (drop ? 0 : each), "a later call %s", drop ? "ran on the dead target" : "did not run");
  owner.reset();
  g();
  PBT_CHECK(c, died == 1 && sum == before + (drop ? 0 : each), "a call after the target died changed something");
}
