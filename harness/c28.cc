// C28: HashCombine over generated sequences.
#include <functional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>

#include "pbt.h"
#include "rst/stl/hash.h"
using pbt::Ctx;

namespace {
template <class A>
A elem_of(size_t (*)(std::initializer_list<A>));
using H = decltype(elem_of(&rst::HashCombine));

enum class Color : int { kRed };

struct El {
  int kind;
  int64_t i;
  std::string s;
  double d;
  size_t h;  // std::hash of the element
};

struct User { int64_t x; };
}  // namespace
namespace std {
template <> struct hash<User> { size_t operator()(const User& u) const { return std::hash<int64_t>()(u.x) * 31; } };
}
namespace {
El gen_el(Ctx& c) {
  El e{int(c.draw(10)), 0, "", 0, 0};
  switch (e.kind) {
    case 0: case 1: case 2: case 3: case 6: case 7: case 9: e.i = c.flip() ? int64_t(c.draw(4)) : pbt::gen_int(c); break;
    case 4: case 8: e.s = pbt::gen_bytes(c, 20); break;
    default: e.d = pbt::gen_finite(c); break;
  }
  switch (e.kind) {
    case 0: e.h = std::hash<int>()(int(e.i)); break;
    case 1: e.h = std::hash<int64_t>()(e.i); break;
    case 2: e.h = std::hash<bool>()(e.i & 1); break;
    case 3: e.h = std::hash<unsigned char>()((unsigned char)(e.i)); break;
    case 4: e.h = std::hash<std::string>()(e.s); break;
    case 5: e.h = std::hash<double>()(e.d); break;
    case 6: e.h = std::hash<Color>()(Color(int(e.i))); break;
    case 7: e.h = std::hash<const void*>()(reinterpret_cast<const void*>(uintptr_t(e.i))); break;
    case 8: e.h = std::hash<std::string_view>()(e.s); break;
    default: e.h = std::hash<User>()(User{e.i}); break;
  }
  return e;
}

// form: temporaries, references, const references, moved.
H make(const El& e, int form) {
#define FORMS(T, expr)                                          \
  {                                                             \
    if (form == 0) return H(T(expr));                           \
    if (form == 1) { T v = T(expr); return H(v); }              \
    if (form == 2) { const T v = T(expr); return H(v); }        \
    const T v = T(expr); return H(static_cast<const T&&>(v));   \
  }
  switch (e.kind) {
    case 0: FORMS(int, e.i)
    case 1: FORMS(int64_t, e.i)
    case 2: FORMS(bool, e.i & 1)
    case 3: { using UC = unsigned char; FORMS(UC, e.i) }
    case 4: FORMS(std::string, e.s)
    case 5: FORMS(double, e.d)
    case 6: FORMS(Color, int(e.i))
    case 7: { using P = const void*; FORMS(P, reinterpret_cast<const void*>(uintptr_t(e.i))) }
    case 8: FORMS(std::string_view, e.s)
    default: { User u{e.i}; if (form == 0) return H(User{e.i}); if (form == 1) return H(u); const User& r = u; return H(r); }
  }
#undef FORMS
}

std::string show(const El& e) {
  return pbt::strf("%d:%lld/%s/%g", e.kind, static_cast<long long>(e.i), pbt::quote(e.s, 20).c_str(), e.d);
}

size_t combine(const std::vector<El>& v, const std::vector<int>& f) {
#define A(i) make(v[i], f[i])
  switch (v.size()) {
    case 0: return rst::HashCombine({});
    case 1: return rst::HashCombine({A(0)});
    case 2: return rst::HashCombine({A(0), A(1)});
    case 3: return rst::HashCombine({A(0), A(1), A(2)});
    case 4: return rst::HashCombine({A(0), A(1), A(2), A(3)});
    case 5: return rst::HashCombine({A(0), A(1), A(2), A(3), A(4)});
    case 6: return rst::HashCombine({A(0), A(1), A(2), A(3), A(4), A(5)});
    case 7: return rst::HashCombine({A(0), A(1), A(2), A(3), A(4), A(5), A(6)});
    case 8: return rst::HashCombine({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7)});
    default: return pbt::with_list<H>(v.size(), [&](void* at, size_t i) { new (at) H(make(v[i], f[i])); }, [](std::initializer_list<H> l) { return rst::HashCombine(l); });
  }
#undef A
}
}  // namespace

namespace {
size_t gen_long(Ctx& c) {
  switch (c.weighted({60, 10, 1})) {
    case 0: return c.size(8, 60);
    case 1: return c.size(61, 300);
    default: return c.size(301, 5000);
  }
}
}  // namespace

SCENARIO(combine_relations, 300000, 10000000, false,
         "sequences of 0 to 8, sometimes 60 and rarely thousands of elements of ten types: equal for equal elements in every value category, different after changing one element, appending one or "
         "swapping two with different hashes; non-trivial: two or more elements and a relation exercised") {
  size_t n = c.draw(8) == 7 ? gen_long(c) : c.size(0, 7);
  std::vector<El> v;
  std::vector<int> f, g;
  for (size_t i = 0; i < n; i++) { v.push_back(gen_el(c)); f.push_back(0); g.push_back(int(c.draw(4))); c.trace("%s\n", show(v.back()).c_str()); }
  // Repeated elements are common in practice.
  if (n >= 2 && c.draw(3) == 2) v[c.draw(n)] = v[c.draw(n)];
  const size_t base = combine(v, f);
  PBT_CHECK(c, combine(v, f) == base, "a second call differs");
  PBT_CHECK(c, combine(v, g) == base, "depends on the value category of the elements");
  if (n >= 2) c.nontrivial();
  if (n >= 1) {
    auto w = v;
    size_t i = c.draw(n);
    w[i] = gen_el(c);
    const bool same = w[i].h == v[i].h;
    const size_t h = combine(w, g);
    c.label(same ? "same hash" : "changed element");
    if (same) PBT_CHECK(c, h == base, "element %zu replaced by one of equal hash changed the result", i);
    else PBT_CHECK(c, h != base, "changing element %zu of %zu from %s to %s left the hash at %zx", i, n, show(v[i]).c_str(), show(w[i]).c_str(), base);
    auto a = v;
    a.push_back(gen_el(c));
    g.push_back(int(c.draw(4)));
    PBT_CHECK(c, combine(a, g) != base, "appending %s to %zu elements left the hash at %zx", show(a.back()).c_str(), n, base);
  }
  if (n >= 2) {
    size_t i = c.draw(n), j = c.draw(n);
    auto w = v;
    std::swap(w[i], w[j]);
    if (v[i].h != v[j].h) {
      c.label("swapped");
      PBT_CHECK(c, combine(w, f) != base, "swapping elements %zu (%s) and %zu (%s) of %zu left the hash at %zx", i, show(v[i]).c_str(), j, show(v[j]).c_str(), n, base);
    } else {
      PBT_CHECK(c, combine(w, f) == base, "swapping elements of equal hash changed the result");
    }
  }
}

SCENARIO(single_bit, 100000, 3000000, false, "sequences of integers differing in exactly one bit of one element; non-trivial: always") {
  c.nontrivial();
  size_t n = c.draw(8) == 7 ? gen_long(c) : c.size(1, 7);
  std::vector<El> v;
  std::vector<int> f(n, 0);
  for (size_t i = 0; i < n; i++) { El e{1, c.flip() ? int64_t(c.draw(16)) : pbt::gen_int(c), "", 0, 0}; v.push_back(e); }
  size_t i = c.draw(n);
  unsigned b = unsigned(c.draw(64));
  c.trace("%zu elements, element %zu = %llx, bit %u\n", n, i, static_cast<unsigned long long>(v[i].i), b);
  auto w = v;
  w[i].i = int64_t(uint64_t(w[i].i) ^ (uint64_t{1} << b));
  PBT_CHECK(c, combine(v, f) != combine(w, f), "flipping bit %u of element %zu of %zu left the hash unchanged", b, i, n);
}

SCENARIO(spread, 60, 600, false,
         "grids and random sets of 20000 sequences: no collisions, every result bit balanced, low and high bits spread over buckets; non-trivial: always") {
  c.nontrivial();
  const size_t n = c.size(2, 4);
  const uint64_t stride = uint64_t{1} << c.draw(20);
  const bool grid = c.flip();
  const uint64_t base = c.draw(1000);
  c.trace("%zu elements, %s, stride %llu, base %llu\n", n, grid ? "grid" : "random", (unsigned long long)stride, (unsigned long long)base);
  constexpr size_t kN = 20000;
  std::unordered_set<size_t> all;
  size_t ones[64] = {};
  std::vector<unsigned> lo(1024), hi(1024);
  std::vector<int> f(n, 0);
  for (size_t k = 0; k < kN; k++) {
    std::vector<El> v(n, El{1, 0, "", 0, 0});
    if (grid) { v[n - 1].i = int64_t(base + (k % 200) * stride); v[n - 2].i = int64_t(base + (k / 200) * stride); }
    else for (auto& e : v) e.i = int64_t(pbt::hash64(base * kN * 8 + k * 8 + size_t(&e - &v[0])));
    size_t h = combine(v, f);
    all.insert(h);
    for (int b = 0; b < 64; b++) ones[b] += (h >> b) & 1;
    lo[h & 1023]++;
    hi[h >> 54]++;
  }
  PBT_CHECK(c, all.size() == kN, "%zu collisions among %zu different sequences", kN - all.size(), kN);
  for (int b = 0; b < 64; b++) PBT_CHECK(c, ones[b] > kN / 5 && ones[b] < kN * 4 / 5, "result bit %d is set in %zu of %zu results", b, ones[b], kN);
  size_t elo = 0, ehi = 0;
  for (auto x : lo) elo += x == 0;
  for (auto x : hi) ehi += x == 0;
  if (!grid) PBT_CHECK(c, elo < 256 && ehi < 256, "of 1024 buckets %zu (low bits) and %zu (high bits) are empty after %zu results", elo, ehi, kN);
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of combine_relations, single_bit; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 20, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_combine_relations(t); break;
      default: scenario_single_bit(t); break;
    }
  });
}
