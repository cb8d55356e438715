// C32: deferred actions, immortal objects and checks behave as documented.
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "rst/check/check.h"
#include "rst/defer/defer.h"
#include "rst/macros/optimization.h"
#include "rst/no_destructor/no_destructor.h"
#include "ctor_forms.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
#ifdef NDEBUG
constexpr bool kDebug = false;
#else
constexpr bool kDebug = true;
#endif

// A random program of nested scopes with deferred actions.
enum What { kDefer, kSet, kScope, kLoop, kReturn, kBreak, kContinue };
struct Stmt { What what; int a = 0, b = 0, d = 0; std::vector<Stmt> body; };
struct Gen { int ids = 0, budget = 0; };
std::vector<Stmt> gen(Ctx& c, Gen& g, int depth, bool loop) {
  std::vector<Stmt> v;
  for (size_t n = c.size(1, 9); n-- && g.budget-- > 0;) {
    Stmt s;
    switch (c.weighted({6, 3, depth ? 2u : 0u, depth ? 2u : 0u, 1, loop ? 2u : 0u})) {
      case 0: s.what = kDefer; s.a = g.ids++; break;
      case 1: s.what = kSet; s.a = int(c.draw(100)); break;
      case 2: s.what = kScope; s.body = gen(c, g, depth - 1, loop); break;
      case 3: s.what = kLoop; s.a = int(c.size(0, 3)); s.body = gen(c, g, depth - 1, true); break;
      case 4: s.what = kReturn; s.a = int(c.draw(4)); break;  // when the counter says so
      default: s.what = c.flip() ? kBreak : kContinue; s.a = int(c.draw(3)); break;
    }
    v.push_back(std::move(s));
  }
  return v;
}
struct Env { int var = 0; int ticks = 0; std::vector<std::pair<int, int>> log; };
enum Flow { kOn, kRet, kBrk, kCont };

// With the real macro: every statement after a deferred action runs inside its scope.
Flow real(const std::vector<Stmt>& v, size_t k, Env& e) {
  for (; k < v.size(); k++) {
    const Stmt& s = v[k];
    e.ticks++;
    switch (s.what) {
      case kDefer: {
        RST_DEFER([&] { e.log.push_back({s.a, e.var}); });
        return real(v, k + 1, e);
      }
      case kSet: e.var = s.a; break;
      case kScope: { Flow f = real(s.body, 0, e); if (f != kOn) return f; break; }
      case kLoop: {
        for (int i = 0; i < s.a; i++) {
          const int at = i;
          RST_DEFER([&] { e.log.push_back({-1 - at, e.var}); });
          Flow f = real(s.body, 0, e);
          if (f == kRet) return f;
          if (f == kBrk) break;
          if (f == kCont) continue;
          e.var += 1000;
        }
        break;
      }
      case kReturn: if (e.ticks % 4 == s.a) return kRet; break;
      case kBreak: if (e.ticks % 3 == s.a) return kBrk; break;
      case kContinue: if (e.ticks % 3 == s.a) return kCont; break;
    }
  }
  return kOn;
}
// The same with an explicit stack of pending actions.
Flow model(const std::vector<Stmt>& v, Env& e) {
  std::vector<int> pending;
  Flow f = kOn;
  for (size_t k = 0; k < v.size() && f == kOn; k++) {
    const Stmt& s = v[k];
    e.ticks++;
    switch (s.what) {
      case kDefer: pending.push_back(s.a); break;
      case kSet: e.var = s.a; break;
      case kScope: f = model(s.body, e); break;
      case kLoop:
        for (int i = 0; i < s.a; i++) {
          Flow g = model(s.body, e);
          if (g == kOn) e.var += 1000;
          e.log.push_back({-1 - i, e.var});
          if (g == kRet) { f = kRet; break; }
          if (g == kBrk) break;
        }
        break;
      case kReturn: if (e.ticks % 4 == s.a) f = kRet; break;
      case kBreak: if (e.ticks % 3 == s.a) f = kBrk; break;
      case kContinue: if (e.ticks % 3 == s.a) f = kCont; break;
    }
  }
  while (!pending.empty()) { e.log.push_back({pending.back(), e.var}); pending.pop_back(); }
  return f;
}
// Several in one scope, with named functions and moved-only captures.
struct Act { std::vector<int>* log; int id; void operator()() const { log->push_back(id); } };
int straight(int route, std::vector<int>& log, const std::function<void()>& named) {
  RST_DEFER(named);
  auto p = std::make_unique<int>(7);
  RST_DEFER(([&log, q = std::move(p)] { log.push_back(*q); }));
  RST_DEFER((Act{&log, 8}));
  Act act{&log, 9};
  RST_DEFER(act);
  act.id = 10;
  if (route == 0) return 1;
  {
    RST_DEFER([&] { log.push_back(11); });
    if (route == 1) return 2;
  }
  switch (route) {
    case 2: { RST_DEFER([&] { log.push_back(12); }); break; }
    case 3: { RST_DEFER([&] { log.push_back(13); }); return 3; }
    default: break;
  }
  if (route == 4) { RST_DEFER([&] { log.push_back(14); }); goto out; }
  log.push_back(15);
out:
  return 4;
}
}  // namespace

SCENARIO(defer_programs, 200000, 3000000, false,
         "random programs of nested scopes and loops with deferred actions, left by falling through, return, break and continue, against a model with an explicit stack; non-trivial: three or more actions and a jump") {
  Gen g;
  g.budget = 70;
  auto v = gen(c, g, 4, false);
  Env a, b;
  Flow fa = real(v, 0, a), fb = model(v, b);
  PBT_CHECK(c, fa == fb, "left by another route");
  c.trace("%zu actions ran\n", a.log.size());
  for (size_t k = 0; k < std::min(a.log.size(), b.log.size()); k++)
    PBT_CHECK(c, a.log[k] == b.log[k], "action number %zu: %d with value %d instead of %d with %d", k, a.log[k].first, a.log[k].second, b.log[k].first, b.log[k].second);
  PBT_CHECK(c, a.log.size() == b.log.size(), "%zu actions ran instead of %zu", a.log.size(), b.log.size());
  PBT_CHECK(c, a.var == b.var, "variable");
  if (a.log.size() >= 3 && fa != kOn) c.nontrivial();
  std::vector<int> log;
  int route = int(c.draw(6));
  straight(route, log, [&] { log.push_back(6); });
  static const std::vector<int> want[] = {{10, 8, 7, 6}, {11, 10, 8, 7, 6}, {11, 12, 15, 10, 8, 7, 6}, {11, 13, 10, 8, 7, 6}, {11, 14, 10, 8, 7, 6}, {11, 15, 10, 8, 7, 6}};
  PBT_CHECK(c, log == want[route], "route %d", route);
}

namespace {
struct Life { std::atomic<int> built{0}, copied{0}, moved{0}, destroyed{0}; };
Life* g_life;
template <size_t Align>
struct alignas(Align) Obj {
  int a; std::string s; std::vector<int> v;
  Obj(int x, const std::string& y, std::vector<int>&& z) : a(x), s(y), v(std::move(z)) { g_life->built++; }
  Obj() : a(0) { g_life->built++; }
  Obj(const Obj& o) : a(o.a), s(o.s), v(o.v) { g_life->copied++; }
  Obj(Obj&& o) noexcept : a(o.a), s(std::move(o.s)), v(std::move(o.v)) { g_life->moved++; }
  ~Obj() { g_life->destroyed++; pbt::say("destroyed"); }
};
template <size_t Align>
Obj<Align>& instance(int x, const std::string& y, std::vector<int> z) {
  static rst::NoDestructor<Obj<Align>> o(x, y, std::move(z));
  return *o;
}
template <size_t Align>
void immortal(Ctx& c) {
  Life life;
  g_life = &life;
  int x = int(c.draw(1000));
  std::string y = std::string(c.size(0, 40), 'y');
  std::vector<int> z(c.size(0, 10), x);
  int threads = int(c.size(1, 6));
  c.trace("alignment %zu, %d threads\n", Align, threads);
  if (threads > 1) c.nontrivial();
  auto d = pbt::run_forked([&] {
    std::atomic<int> ready{0};
    std::vector<Obj<Align>*> seen(static_cast<size_t>(threads));
    std::vector<std::thread> ts;
    std::atomic<bool> bad{false};
    for (int k = 0; k < threads; k++)
      ts.emplace_back([&, k] {
        ready++;
        while (ready < threads) {}
        auto& o = instance<Align>(x, y, z);
        seen[size_t(k)] = &o;
        if (o.a != x || o.s != y || o.v != z) bad = true;
      });
    for (auto& t : ts) t.join();
    if (bad) pbt::say("wrong contents;");
    for (auto* p : seen) if (p != seen[0]) pbt::say("two objects;");
    if (reinterpret_cast<uintptr_t>(seen[0]) % Align) pbt::say("misaligned;");
    if (life.built != 1 || life.copied || life.moved) pbt::say("built " + std::to_string(life.built + life.copied + life.moved) + " times;");
    exit(0);  // Runs the destructors of static objects.
  });
  PBT_CHECK(c, d.survived(), "%s", d.describe().c_str());
  PBT_CHECK(c, d.out.empty(), "%s", d.out.c_str());
}
}  // namespace

SCENARIO(no_destructor_static, 400, 6000, false, "first access to a function-local immortal object from 1-6 racing threads, objects aligned to 8-256 bytes, then exit; non-trivial: two or more threads") {
  switch (c.draw(4)) {
    case 0: immortal<8>(c); break;
    case 1: immortal<16>(c); break;
    case 2: immortal<64>(c); break;
    default: immortal<256>(c); break;
  }
}

SCENARIO(no_destructor_local, 20000, 200000, false, "immortal objects built from arguments, copies and moves, used through every accessor, and dropped; non-trivial: always") {
  c.nontrivial();
  Life life;
  g_life = &life;
  using O = Obj<64>;
  int x = int(c.draw(1000));
  std::string y = pbt::gen_bytes(c, 30);
  std::vector<int> z(c.size(0, 8), x);
  O* at = nullptr;
  {
    O src(x, y, std::vector<int>(z));
    life.built = 0;
    int how = int(c.draw(3));
    auto run = [&](rst::NoDestructor<O>& n) {
      const auto& cn = n;
      at = n.get().get();
      PBT_CHECK(c, &*n == at && &*cn == at && cn.get().get() == at && &n->a == &at->a && &cn->a == &at->a, "accessors yield different objects");
      PBT_CHECK(c, reinterpret_cast<uintptr_t>(at) % 64 == 0, "misaligned");
      PBT_CHECK(c, at->a == x && at->s == y && at->v == z, "other contents");
      n->a++;
      PBT_CHECK(c, cn->a == x + 1 && (*n).a == x + 1, "changes through the accessors");
      PBT_CHECK(c, life.built == (how == 0) && life.copied == (how == 1) && life.moved == (how == 2), "built %d, copied %d, moved %d times", life.built.load(), life.copied.load(), life.moved.load());
    };
    switch (how) {
      case 0: { alignas(64) rst::NoDestructor<O> n(x, y, std::vector<int>(z)); run(n); at->~O(); break; }
      case 1: { const O& s = src; rst::NoDestructor<O> n(s); run(n); at->~O(); break; }
      default: { rst::NoDestructor<O> n(std::move(src)); run(n); at->~O(); break; }
    }
    PBT_CHECK(c, life.destroyed == 1, "the immortal object was destroyed");
  }
  rst::NoDestructor<std::vector<std::string>> list({"a", "b", y});
  PBT_CHECK(c, list->size() == 3 && (*list)[2] == y, "initialiser list");
  using V = std::vector<std::string>;
  list->~V();
}

SCENARIO(no_destructor_arguments, 20000, 200000, false,
         "immortal objects built from arguments of every kind (none, several, references that are changed or taken, lists) by explicit and overloaded constructors; "
         "counts and characters of containers; non-trivial: always") {
  c.nontrivial();
  cf::all_forms(c, [](auto&&... a) {
    rst::NoDestructor<cf::Probe> n(std::forward<decltype(a)>(a)...);
    std::string how = n->how;
    n->~Probe();
    return how;
  });
  const size_t k = c.size(0, 20);
  const int x = int(c.range(-3, 20));
  using V = std::vector<int>;
  rst::NoDestructor<V> v(k, x), w(k), e;
  PBT_CHECK(c, *v == V(k, x) && *w == V(k) && e->empty(), "vectors of %zu numbers", k);
  v->~V();
  w->~V();
  e->~V();
  rst::NoDestructor<int> zero, one(x);
  PBT_CHECK(c, *zero == 0 && *one == x, "numbers");
}

namespace {
struct Truth { bool v; int* n; explicit operator bool() const { ++*n; return v; } };
// All the ways of writing a condition; |n| counts evaluations.
template <class F> void all_forms(F f) { f(); }
#define FORMS(CHECKER, v, n, how)                                              \
  switch (how) {                                                               \
    case 0: CHECKER(((n)++, (v))); break;                                      \
    case 1: CHECKER((n)++ < 1000 && (v)); break;                               \
    case 2: CHECKER(!((n)++ >= 0 && !(v))); break;                             \
    case 3: CHECKER((n)++ >= 0 ? (v) : !(v)); break;                           \
    case 4: if ((n) == 0) CHECKER(((n)++, (v))); else (n) += 100; break;       \
    case 5: if ((n) != 0) (n) += 100; else CHECKER(((n)++, (v))); break;       \
    case 6: { Truth t{(v), &(n)}; CHECKER(t); break; }                         \
    case 7: { int bits = (v) ? 1 << 30 : 0; CHECKER(((n)++, bits)); break; }   \
    case 8: { const char* p = (v) ? "x" : nullptr; CHECKER(((n)++, p)); break; } \
    case 9: { double x = (v) ? 0.25 : 0.0; CHECKER(((n)++, x != 0)); break; }  \
    case 10: { uint64_t x = (v) ? 1ull << 63 : 0; CHECKER(((n)++, x)); break; } \
    case 11: { auto l = [&] { CHECKER(((n)++, (v))); }; l(); break; }          \
    default: for (int i = 0; i < 1; i++) CHECKER(((n)++, (v))); break;         \
  }
constexpr int kForms = 13;
}  // namespace

SCENARIO(checks, 1000, 5000, false, "always-on and debug checks over 13 forms of condition, true or false; evaluations counted and shared with a fork when the process must stop; non-trivial: a false condition") {
  bool v = c.flip();
  int how = int(c.draw(kForms));
  bool debug = c.flip();
  c.trace("%s check, form %d, %s\n", debug ? "debug" : "always-on", how, v ? "true" : "false");
  if (!v) c.nontrivial();
  const bool stops = !v && (!debug || kDebug);
  const int want = debug && !kDebug ? 0 : 1;
  auto run = [&](int& n) {
    if (debug) { FORMS(RST_DCHECK, v, n, how) } else { FORMS(RST_CHECK, v, n, how) }
  };
  if (!stops) {
    int n = 0;
    run(n);
    PBT_CHECK(c, n == want, "condition evaluated %d times instead of %d", n, want);
    return;
  }
  static int* shared = nullptr;
  (void)shared;
  auto d = pbt::run_forked([&] { int n = 0; run(n); pbt::say("went on"); });
  PBT_CHECK(c, d.aborted() && d.out.empty(), "a failed check did not stop the process: %s", d.describe().c_str());
}

SCENARIO(not_reached, 40, 400, false, "the not-reached marker stops debug builds and does nothing in release builds; the build flag agrees; likely/unlikely keep truth values; non-trivial: always") {
  c.nontrivial();
  auto d = pbt::run_forked([] { RST_NOTREACHED(); });
  PBT_CHECK(c, kDebug ? d.aborted() : d.survived(), "%s", d.describe().c_str());
#if RST_BUILDFLAG(DCHECK_IS_ON)
  PBT_CHECK(c, kDebug, "the build flag says debug");
#else
  PBT_CHECK(c, !kDebug, "the build flag says release");
#endif
  for (int k = 0; k < 200; k++) {
    int64_t x = pbt::gen_int(c), y = c.flip() ? x : pbt::gen_int(c);
    int n = 0;
    bool a = RST_LIKELY((n++, x == y)), b = RST_UNLIKELY((n++, x == y)), e = RST_LIKELY(x), f = RST_UNLIKELY(x);
    PBT_CHECK(c, a == (x == y) && b == (x == y) && e == (x != 0) && f == (x != 0) && n == 2, "likely/unlikely of %ld, %ld", long(x), long(y));
    if (RST_LIKELY(x < y)) PBT_CHECK(c, x < y, "taken"); else PBT_CHECK(c, !(x < y), "not taken");
    if (RST_UNLIKELY(x < y)) PBT_CHECK(c, x < y, "taken"); else PBT_CHECK(c, !(x < y), "not taken");
    PBT_CHECK(c, RST_LIKELY_EQ(x, y) == x, "likely value");
  }
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of defer_programs; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_defer_programs(t);
  });
}
