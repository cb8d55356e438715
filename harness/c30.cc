// C30: taking functions and resizing strings keep their contracts.
#include <array>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "rst/clone/clone.h"
#include "rst/memory/memory.h"
#include "rst/stl/function.h"
#include "rst/stl/resize_uninitialized.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
struct Stats { int copies = 0, moves = 0, live = 0, calls = 0; };
template <size_t N>
struct Target {
  Stats* s;
  int key;
  std::array<char, N> pad;
  Target(Stats* st, int k) : s(st), key(k) { s->live++; pad.fill(char(k)); }
  Target(const Target& o) : s(o.s), key(o.key), pad(o.pad) { s->copies++; s->live++; }
  Target(Target&& o) noexcept : s(o.s), key(o.key), pad(o.pad) { s->moves++; s->live++; }
  ~Target() { s->live--; }
  template <class... A> int sum(A&&... a) const { s->calls++; for (char ch : pad) if (ch != char(key)) return -1; return key + (0 + ... + int(a)); }
  int operator()() const { return sum(); }
  int operator()(int a) const { return sum(a); }
  int operator()(int a, const int& b, char d) const { return sum(a, b, d); }
};
int plain(int a) { return a * 3; }

template <size_t N>
void take(Ctx& c) {
  Stats st;
  int key = int(c.draw(100));
  c.trace("capture of %zu bytes, key %d\n", N, key);
  {
    std::function<int(int)> f = Target<N>(&st, key);
    std::function<int()> f0 = Target<N>(&st, key);
    std::function<int(int, const int&, char)> f3 = Target<N>(&st, key);
    auto copies = st.copies;
    auto live = st.live;
    auto allocs = alloc::now().live;
    {
      auto g = rst::TakeFunction(std::move(f));
      PBT_CHECK(c, f == nullptr, "the source is not empty");
      PBT_CHECK(c, g != nullptr && g(5) == key + 5 && st.calls == 1, "the taken function behaves differently");
      PBT_CHECK(c, st.copies == copies, "the target was copied %d times", st.copies - copies);
      PBT_CHECK(c, st.live == live, "%d targets live instead of %d", st.live, live);
      auto g0 = rst::TakeFunction(std::move(f0));
      PBT_CHECK(c, !f0 && g0() == key, "no arguments");
      auto g3 = rst::TakeFunction(std::move(f3));
      PBT_CHECK(c, !f3 && g3(1, 2, char(3)) == key + 6, "three arguments");
      // Chains and taking into itself.
      for (size_t k = 0, n = c.size(0, 4); k < n; k++) {
        auto h = rst::TakeFunction(std::move(g));
        PBT_CHECK(c, !g, "the source is not empty in a chain");
        g = rst::TakeFunction(std::move(h));
        PBT_CHECK(c, !h, "the source is not empty in a chain");
      }
      g = rst::TakeFunction(std::move(g));
      PBT_CHECK(c, g && g(1) == key + 1, "taking a function into itself");
      PBT_CHECK(c, st.copies == copies && st.live == live && alloc::now().live == allocs, "copies, lost or extra targets after a chain");
    }
    PBT_CHECK(c, st.live == 0, "%d targets live after the taken functions", st.live);
    auto e = rst::TakeFunction(std::move(f));
    PBT_CHECK(c, !e && !f, "taking an empty function");
  }
}

// A string with the default-initialising resize of libc++.
struct OtherString {
  std::string s;
  int calls = 0;
  void __resize_default_init(size_t n) { calls++; s.resize(n, '?'); }
  void resize(size_t n) { s.resize(n); }
};
size_t gen_len(Ctx& c) {
  static const size_t edge[] = {0, 1, 14, 15, 16, 17, 22, 23, 24, 30, 31, 32, 63, 64, 4095, 4096};
  return c.flip() ? c.pick(edge) : c.size(0, c.chance(1, 6) ? 70000 : 80);
}
template <class S>
void resize(Ctx& c) {
  using Ch = typename S::value_type;
  S s, m;
  size_t valid = 0;  // Bytes of |s| that are determined.
  // Letters, any value, or zeros with some others.
  const size_t kind = c.draw(3), salt = c.draw(1000);
  auto fill = [&](size_t i) {
    const uint64_t h = pbt::hash64(i * 7919 + salt);
    return kind == 0 ? Ch('a' + i % 26) : kind == 1 ? Ch(h) : h % 3 ? Ch(0) : Ch(h >> 8);
  };
  for (size_t k = 0, n = c.size(1, 8); k < n; k++) {
    switch (c.weighted({4, 1, 1, 1})) {
      case 0: {
        size_t z = gen_len(c);
        c.trace("resize %zu to %zu\n", s.size(), z);
        if (valid && z && valid != z) c.nontrivial();
        if (c.flip()) rst::StringResizeUninitialized(&s, z); else rst::StringResizeUninitialized(rst::NotNull<S*>(&s), z);
        PBT_CHECK(c, s.size() == z && s.length() == z, "size %zu instead of %zu", s.size(), z);
        valid = std::min(valid, z);
        m.resize(valid);
        for (size_t i = valid; i < z; i++) s[i] = fill(i);  // Every byte is writable.
        m = s.substr(0, valid) == m ? s : S(1, Ch('!'));
        PBT_CHECK(c, valid == 0 || s.compare(0, valid, m, 0, valid) == 0, "a byte below %zu changed", valid);
        valid = z;
        break;
      }
      case 1: { size_t t = c.size(0, 50); const Ch ch = fill(s.size()); s.append(t, ch); m.append(t, ch); valid = s.size(); break; }
      case 2: s.reserve(gen_len(c)); break;
      default: { if (c.flip()) s.shrink_to_fit(); S t = s; s = std::move(t); break; }
    }
    PBT_CHECK(c, s == m, "contents differ after step %zu", k);
    PBT_CHECK(c, s.c_str()[s.size()] == Ch(0) && s.data() == s.c_str(), "not terminated");
    PBT_CHECK(c, s.capacity() >= s.size(), "capacity");
  }
}
}  // namespace

SCENARIO(take_function, 20000, 300000, false, "functions with captures of 1-600 bytes, plain functions, shared captures, taken directly, in chains and into themselves; non-trivial: always") {
  c.nontrivial();
  switch (c.draw(7)) {
    case 0: take<1>(c); break;
    case 1: take<8>(c); break;
    case 2: take<64>(c); break;
    case 3: take<600>(c); break;
    case 4: {
      std::function<int(int)> f = plain;
      auto g = rst::TakeFunction(std::move(f));
      PBT_CHECK(c, !f && g(7) == 21, "plain function");
      int n = int(c.draw(100));
      std::function<int(int)> s = [n](int a) { return a + n; };
      auto t = rst::TakeFunction(std::move(s));
      PBT_CHECK(c, !s && t(1) == n + 1, "small capture");
      break;
    }
    case 5: {
      auto p = std::make_shared<int>(int(c.draw(1000)));
      std::function<int()> f = [p] { return *p; };
      auto g = rst::TakeFunction(std::move(f));
      PBT_CHECK(c, !f && p.use_count() == 2 && g() == *p, "shared capture has %ld owners", p.use_count());
      g = nullptr;
      PBT_CHECK(c, p.use_count() == 1, "capture not released");
      break;
    }
    default: {
      // A function that is taken out of a variable which it assigns itself.
      std::function<void()> f;
      int runs = 0;
      auto tok = std::make_shared<int>(1);
      f = [&runs, &f, tok] { runs++; f = [&runs] { runs += 10; }; };
      rst::TakeFunction(std::move(f))();
      PBT_CHECK(c, runs == 1 && f != nullptr && tok.use_count() == 1, "taken function that replaces its source");
      rst::TakeFunction(std::move(f))();
      PBT_CHECK(c, runs == 11 && !f, "second run");
      // References and move-only arguments pass through.
      std::function<std::unique_ptr<int>(std::unique_ptr<int>, int&)> h = [](std::unique_ptr<int> q, int& r) { r++; return q; };
      auto i = rst::TakeFunction(std::move(h));
      int r = 4;
      auto q = i(std::make_unique<int>(9), r);
      PBT_CHECK(c, !h && r == 5 && *q == 9, "move-only and reference arguments");
    }
  }
}

SCENARIO(resize_string, 40000, 600000, false, "histories of resizing, appending, reserving and moving byte and wide strings (letters, any value, many zeros) of 0-70000 characters around the sizes of the short-string buffer, against a model of the determined bytes; non-trivial: an existing string changes size") {
  switch (c.draw(4)) {
    case 0: case 1: resize<std::string>(c); break;
    case 2: resize<std::u16string>(c); break;
    default: {
      OtherString s;
      s.s = std::string(c.size(0, 40), c.flip() ? 'k' : '\0');
      std::string old = s.s;
      size_t z = gen_len(c);
      rst::StringResizeUninitialized(&s, z);
      PBT_CHECK(c, s.calls == 1 && s.s.size() == z && s.s.compare(0, std::min(z, old.size()), old, 0, std::min(z, old.size())) == 0, "string with a default-initialising resize");
    }
  }
}

namespace {
PBT_THREAD_LOCAL int g_gone = 0;
struct Base { explicit Base(int k) : v(k) {} virtual ~Base() { g_gone++; } int v; };
struct Derived : Base { using Base::Base; std::string s = "payload payload payload payload"; };
}  // namespace

#if defined(NDEBUG) && !defined(__SANITIZE_ADDRESS__)
SCENARIO(gigabytes, 1, 4, false, "strings resized to 2^31 and 2^32 bytes and some more, then back; non-trivial: always") {
  c.nontrivial();
  for (int bits : {31, 32}) {
    const size_t n = (size_t(1) << bits) + c.draw(1000);
    if (!pbt::memory_for(n + n / 2)) return;
    c.trace("%zu bytes\n", n);
    std::string s = "start";
    rst::StringResizeUninitialized(&s, n);
    PBT_CHECK(c, s.size() == n, "%zu bytes instead of %zu", s.size(), n);
    PBT_CHECK(c, s.compare(0, 5, "start") == 0 && s.c_str()[n] == 0, "contents");
    memcpy(&s[n - 3], "end", 3);
    const size_t m = n / 2 + 1 + c.draw(1000);
    memcpy(&s[m - 3], "mid", 3);
    PBT_CHECK(c, s.compare(n - 3, 3, "end") == 0, "contents at the end");
    rst::StringResizeUninitialized(&s, m);
    PBT_CHECK(c, s.size() == m && s.compare(m - 3, 3, "mid") == 0 && s.c_str()[m] == 0, "contents after shrinking");
  }
}
#endif

SCENARIO(wrap_and_clone, 10000, 100000, false, "owners made of raw and not-null pointers of plain and derived types; clones of strings, vectors and functions; non-trivial: always") {
  c.nontrivial();
  auto live = alloc::now().live;
  {
    g_gone = 0;
    int k = int(c.draw(1000));
    auto* d = new Derived(k);
    {
      rst::NotNull<std::unique_ptr<Derived>> o = c.flip() ? rst::WrapUnique(d) : rst::WrapUnique(rst::NotNull<Derived*>(d));
      PBT_CHECK(c, o.get() == d && o->v == k && g_gone == 0, "another object");
      if (c.flip()) {
        std::unique_ptr<Base> b = std::move(o).Take();
        PBT_CHECK(c, b.get() == d && g_gone == 0, "taken owner");
      }
    }
    PBT_CHECK(c, g_gone == 1, "object destroyed %d times", g_gone);
    const int* i = new int(k);
    PBT_CHECK(c, *rst::WrapUnique(i) == k, "const object");
#ifndef NDEBUG
    if (c.chance(1, 200)) {
      auto dd = pbt::run_forked([] { int* z = nullptr; (void)rst::WrapUnique(z); });
      PBT_CHECK(c, dd.aborted(), "owner of null: %s", dd.describe().c_str());
    }
#endif
    std::string s = pbt::gen_bytes(c, 60);
    const std::string keep = s;
    auto t = rst::Clone(s);
    PBT_CHECK(c, t == keep && s == keep, "clone of a string");
    t += "x";
    PBT_CHECK(c, s == keep, "the clone shares with its source");
    std::vector<std::string> v(c.size(0, 4), s);
    auto w = rst::Clone(v);
    PBT_CHECK(c, w == v, "clone of a vector");
    auto eat = [](std::string&& x) { std::string y = std::move(x); };
    eat(rst::Clone(s));
    PBT_CHECK(c, s == keep, "consuming a clone changed its source");
    auto p = std::make_shared<int>(3);
    { auto q = rst::Clone(p); PBT_CHECK(c, q == p && p.use_count() == 2, "clone of a shared pointer"); }
    PBT_CHECK(c, p.use_count() == 1, "clone of a shared pointer stays");
  }
  PBT_CHECK(c, alloc::now().live == live, "leak");
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of take_function, resize_string, wrap_and_clone; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(3)) {
      case 0: scenario_take_function(t); break;
      case 1: scenario_resize_string(t); break;
      default: scenario_wrap_and_clone(t); break;
    }
  });
}
