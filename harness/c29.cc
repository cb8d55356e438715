// C29: container algorithms and adapters agree with the standard ones.
#include <cmath>
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>

#include "rst/stl/algorithm.h"
#include "rst/stl/reversed.h"
#include "rst/stl/vector_builder.h"
#include "amount.h"
#include "ctor_forms.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
struct Item {
  int key = 0, tag = 0;
  bool operator<(const Item& o) const { return key < o.key; }
  bool operator==(const Item& o) const { return key == o.key && tag == o.tag; }
};
struct MoveOnly {
  std::unique_ptr<int> p;
  int key() const { return *p; }
  bool operator<(const MoveOnly& o) const { return *p < *o.p; }
};
// A comparator with state that cannot be copied: only forwarding works.
struct Counting {
  int* calls;
  bool down;
  bool operator()(const Item& a, const Item& b) const { ++*calls; return down ? b.key < a.key : a.key < b.key; }
};
using Cmp = std::function<bool(const Item&, const Item&)>;
Cmp cmp_of(Ctx& c, const char** name) {
  switch (c.draw(4)) {
    case 0: *name = "less"; return [](const Item& a, const Item& b) { return a.key < b.key; };
    case 1: *name = "greater"; return [](const Item& a, const Item& b) { return a.key > b.key; };
    case 2: { *name = "modulo"; int m = int(c.size(1, 5)); return [m](const Item& a, const Item& b) { return a.key % m < b.key % m; }; }
    default: *name = "parity, then down"; return [](const Item& a, const Item& b) { return a.key % 2 != b.key % 2 ? a.key % 2 < b.key % 2 : a.key > b.key; };
  }
}
std::vector<Item> gen(Ctx& c, size_t max = 300) {
  size_t n = c.weighted({3, 2, 1}) == 0 ? c.size(0, 8) : c.size(0, max == 300 && c.chance(1, 500) ? 5000 : max);
  static const int ranges[] = {2, 5, 1000};
  int range = c.pick(ranges);
  std::vector<Item> v(n);
  int shape = int(c.draw(4));
  for (size_t k = 0; k < n; k++) { v[k].key = shape == 1 ? int(k) : shape == 2 ? int(n - k) : int(c.draw(uint64_t(range))); v[k].tag = int(k); }
  return v;
}
template <class C> std::vector<Item> vec(const C& c) { return std::vector<Item>(std::begin(c), std::end(c)); }
std::vector<Item> canon(std::vector<Item> v) {
  std::sort(v.begin(), v.end(), [](const Item& a, const Item& b) { return a.tag < b.tag; });
  return v;
}

template <class C>
void run(Ctx& c, const std::vector<Item>& in, const char* what) {
  const char* name = "";
  C x(in.begin(), in.end());
  std::vector<Item> ref = in;
  const int op = int(c.draw(9));
  switch (op) {
    case 0: rst::c_sort(x);
      PBT_CHECK(c, canon(vec(x)) == canon(in) && std::is_sorted(x.begin(), x.end()), "c_sort of %s of %zu", what, in.size()); break;
    case 1: { auto f = cmp_of(c, &name); rst::c_sort(x, f);
      PBT_CHECK(c, canon(vec(x)) == canon(in) && std::is_sorted(x.begin(), x.end(), f), "c_sort by %s of %s of %zu", name, what, in.size()); break; }
    case 2: rst::c_stable_sort(x); std::stable_sort(ref.begin(), ref.end());
      PBT_CHECK(c, vec(x) == ref, "c_stable_sort of %s of %zu", what, in.size()); break;
    case 3: { auto f = cmp_of(c, &name); rst::c_stable_sort(x, f); std::stable_sort(ref.begin(), ref.end(), f);
      PBT_CHECK(c, vec(x) == ref, "c_stable_sort by %s of %s of %zu", name, what, in.size()); break; }
    case 4: { int k = int(c.draw(8)); auto p = [k](const Item& i) { return i.key == k; };
      auto it = rst::c_find_if(x, p); auto jt = std::find_if(x.begin(), x.end(), p);
      PBT_CHECK(c, it == jt, "c_find_if in %s", what);
      const C& cx = x; auto ct = rst::c_find_if(cx, p);
      PBT_CHECK(c, ct == std::find_if(cx.begin(), cx.end(), p), "c_find_if in const %s", what);
      if (it != x.end()) { it->tag = -7; PBT_CHECK(c, jt->tag == -7, "c_find_if yields a copy"); } break; }
    case 5: { auto f = cmp_of(c, &name); C heap;
      for (auto& i : in) { heap.push_back(i); rst::c_push_heap(heap, f); PBT_CHECK(c, std::is_heap(heap.begin(), heap.end(), f), "c_push_heap by %s in %s", name, what); }
      while (!heap.empty()) {
        Item top = heap.front();
        for (auto& i : heap) PBT_CHECK(c, !f(top, i), "heap top is not the largest");
        size_t n = heap.size();
        rst::c_pop_heap(heap, f);
        PBT_CHECK(c, heap.size() == n && heap.back() == top && std::is_heap(heap.begin(), heap.end() - 1, f), "c_pop_heap by %s in %s", name, what);
        heap.pop_back();
        if (in.size() > 60 && c.chance(1, 10)) break;
      } break; }
    case 6: { auto f = cmp_of(c, &name); if (c.flip()) std::sort(x.begin(), x.end(), f);
      if (!x.empty() && c.chance(1, 3)) x[c.draw(x.size())].key = int(c.draw(8));
      PBT_CHECK(c, rst::c_is_sorted(x, f) == std::is_sorted(x.begin(), x.end(), f), "c_is_sorted by %s of %s", name, what); break; }
    case 7: { uint64_t s = c.draw(1u << 20); std::mt19937_64 g(s), h(s); rst::c_shuffle(x, g); std::shuffle(ref.begin(), ref.end(), h);
      PBT_CHECK(c, canon(vec(x)) == canon(in), "c_shuffle of %s of %zu does not permute", what, in.size());
      PBT_CHECK(c, in.size() < 2 || g != std::mt19937_64(s), "c_shuffle did not use the caller's generator"); break; }
    default: { int calls = 0; bool down = c.flip(); Counting k{&calls, down}; rst::c_sort(x, k);
      PBT_CHECK(c, std::is_sorted(x.begin(), x.end(), k) && canon(vec(x)) == canon(in) && (in.size() < 2 || calls > 0), "c_sort with the caller's comparator"); break; }
  }
  static const char* const ops[] = {"sort", "sort by", "stable sort", "stable sort by", "find", "heap", "is sorted", "shuffle", "counting"};
  c.label(ops[op]);
  c.trace("%s by %s on %s of %zu\n", ops[op], name, what, in.size());
}
}  // namespace

SCENARIO(algorithms, 300000, 1000000, false,
         "every algorithm on vectors, deques and arrays of 0-300, rarely 5000 keyed items (few or many keys, ascending, descending) under 5 kinds of comparator, against the standard one; non-trivial: two or more items") {
  auto in = gen(c);
  if (in.size() > 1) c.nontrivial();
  switch (c.draw(3)) {
    case 0: run<std::vector<Item>>(c, in, "vector"); break;
    case 1: run<std::deque<Item>>(c, in, "deque"); break;
    default: {
      Item a[17];
      for (size_t k = 0; k < 17; k++) a[k] = k < in.size() ? in[k] : Item{int(c.draw(9)), int(k)};
      std::vector<Item> ref(a, a + 17);
      const char* name = "";
      auto f = cmp_of(c, &name);
      if (c.flip()) { rst::c_stable_sort(a, f); std::stable_sort(ref.begin(), ref.end(), f); PBT_CHECK(c, vec(a) == ref, "c_stable_sort of array"); }
      else { rst::c_sort(a, f); PBT_CHECK(c, std::is_sorted(a, a + 17, f) && canon(vec(a)) == canon(ref), "c_sort of array"); }
      std::vector<MoveOnly> m;
      for (auto& i : in) m.push_back(MoveOnly{std::make_unique<int>(i.key)});
      if (c.flip()) rst::c_sort(m); else rst::c_stable_sort(m, [](const MoveOnly& x, const MoveOnly& y) { return x.key() < y.key(); });
      PBT_CHECK(c, std::is_sorted(m.begin(), m.end()) && m.size() == in.size(), "sort of move-only items");
      for (auto& x : m) PBT_CHECK(c, x.p != nullptr, "sort lost an item");
    }
  }
}

namespace {
template <class C>
void reversed(Ctx& c, C& x, const char* what) {
  using V = std::remove_reference_t<decltype(*std::begin(x))>;
  std::vector<V*> want, got;
  for (auto& i : x) want.push_back(&i);
  std::reverse(want.begin(), want.end());
  for (auto& i : rst::Reversed(x)) got.push_back(&i);
  PBT_CHECK(c, got == want, "reverse iteration over %s of %zu visits %zu items or not in order or by value", what, want.size(), got.size());
  auto r = rst::Reversed(x);
  auto r2 = r;
  PBT_CHECK(c, size_t(std::distance(r2.begin(), r2.end())) == want.size(), "copy of the adapter");
  if constexpr (!std::is_const_v<C>) reversed<const C>(c, x, what);
}
}  // namespace

SCENARIO(reverse, 100000, 400000, false, "reverse iteration over vectors, lists, sets, maps, strings, arrays and const ones, by address; non-trivial: two or more elements") {
  size_t n = c.chance(1, 100) ? c.size(41, 2000) : c.chance(1, 3000) ? 65530 + c.size(0, 12) : c.size(0, 40);
  if (n > 1) c.nontrivial();
  std::vector<int> v(n);
  for (auto& i : v) i = int(c.draw(30));
  c.trace("%zu elements\n", n);
  std::list<int> l(v.begin(), v.end());
  std::deque<int> d(v.begin(), v.end());
  std::string s;
  for (int i : v) s += char('a' + i % 26);
  std::set<int> st(v.begin(), v.end());
  std::multimap<int, int> m;
  for (int i : v) m.emplace(i, i);
  int a[5] = {1, 2, 3, 4, 5};
  std::array<int, 3> ar = {1, 2, 3};
  switch (c.draw(8)) {
    case 0: reversed(c, v, "vector"); break;
    case 1: reversed(c, l, "list"); break;
    case 2: reversed(c, d, "deque"); break;
    case 3: reversed(c, s, "string"); break;
    case 4: reversed<const std::set<int>>(c, st, "set"); break;
    case 5: reversed(c, m, "multimap"); break;
    case 6: reversed(c, a, "C array"); break;
    default: reversed(c, ar, "array"); break;
  }
  // Changes through the adapter reach the container, also those made after
  // the adapter was built.
  auto r = rst::Reversed(v);
  v.push_back(99);
  int k = 0;
  for (auto& i : r) i = k++;
  for (size_t j = 0; j < v.size(); j++) PBT_CHECK(c, v[j] == int(v.size() - 1 - j), "writing through the adapter");
}

namespace {
template <class T, class Gen>
std::vector<T> build(const std::vector<int>& v, size_t k, rst::VectorBuilder<T>&& b, Gen g) {
  if (k == v.size()) return std::move(b).Build();
  return build(v, k + 1, std::move(b).emplace_back(g(v[k])), g);
}
}  // namespace

SCENARIO(vector_builder, 20000, 300000, false, "vectors built from 0-30, sometimes 400 elements of copyable and move-only types, with live-object counts; non-trivial: two or more elements") {
  std::vector<int> v(c.chance(1, 40) ? c.size(31, 400) : c.size(0, 30));
  for (auto& i : v) i = int(c.draw(1000));
  if (v.size() > 1) c.nontrivial();
  c.trace("%zu elements\n", v.size());
  auto live = alloc::now().live;
  {
    auto a = build<std::string>(v, 0, rst::VectorBuilder<std::string>(), [](int i) { return std::to_string(i) + std::string(20, 'x'); });
    PBT_CHECK(c, a.size() == v.size(), "%zu strings", a.size());
    for (size_t k = 0; k < v.size(); k++) PBT_CHECK(c, a[k] == std::to_string(v[k]) + std::string(20, 'x'), "element %zu", k);
    auto b = build<std::unique_ptr<int>>(v, 0, rst::VectorBuilder<std::unique_ptr<int>>(), [](int i) { return std::make_unique<int>(i); });
    PBT_CHECK(c, b.size() == v.size(), "%zu pointers", b.size());
    for (size_t k = 0; k < v.size(); k++) PBT_CHECK(c, b[k] && *b[k] == v[k], "element %zu", k);
    if (v.size() >= 3) {
      auto d = rst::VectorBuilder<std::pair<int, std::unique_ptr<int>>>().emplace_back(v[0], std::make_unique<int>(v[1])).emplace_back(v[2], nullptr).Build();
      PBT_CHECK(c, d.size() == 2 && d[0].first == v[0] && *d[0].second == v[1] && d[1].first == v[2] && !d[1].second, "several constructor arguments");
    }
  }
  PBT_CHECK(c, alloc::now().live == live, "leak");
}

SCENARIO(vector_builder_arguments, 20000, 300000, false,
         "elements built in the vector from arguments of every kind (none, several, references that are changed or taken, lists) by explicit and overloaded "
         "constructors, among other elements; counts and characters of containers; non-trivial: always") {
  c.nontrivial();
  struct Fixed : cf::Probe {  // Cannot be copied.
    using Probe::Probe;
    Fixed() = default;
    Fixed(Fixed&&) = default;
    Fixed& operator=(Fixed&&) = default;
  };
  const bool first = c.flip();
  cf::all_forms(c, [&](auto&&... a) {
    if (first) {
      auto v = rst::VectorBuilder<Fixed>().emplace_back(std::forward<decltype(a)>(a)...).emplace_back(4, 5).Build();
      return v.size() == 2 && v[1].how == "ints 4 5" ? v[0].how : "other elements";
    }
    auto v = rst::VectorBuilder<Fixed>().emplace_back().emplace_back(7).emplace_back(std::forward<decltype(a)>(a)...).Build();
    return v.size() == 3 && v[0].how == "none" && v[1].how == "int 7" ? v[2].how : "other elements";
  });
  const size_t n = c.size(0, 20);
  const int x = int(c.range(-3, 20));
  const auto vs = rst::VectorBuilder<std::vector<int>>().emplace_back(n, x).emplace_back(n).emplace_back().Build();
  PBT_CHECK(c, vs.size() == 3 && vs[0] == std::vector<int>(n, x) && vs[1] == std::vector<int>(n) && vs[2].empty(), "vectors of %zu numbers", n);
  const auto ss = rst::VectorBuilder<std::string>().emplace_back(n, 'z').emplace_back("abcdef", n % 7).emplace_back().Build();
  PBT_CHECK(c, ss.size() == 3 && ss[0] == std::string(n, 'z') && ss[1] == std::string("abcdef", n % 7) && ss[2].empty(), "strings");
  const auto is = rst::VectorBuilder<int>().emplace_back().emplace_back(x).emplace_back(2.5).Build();
  PBT_CHECK(c, is == std::vector<int>({0, x, 2}), "numbers");
}

SCENARIO(shuffle_fair, 12, 200, false,
         "20000 shuffles of 2 to 5 elements of a vector, a deque or an array with a seeded generator: all orders about equally often; non-trivial: always") {
  c.nontrivial();
  std::mt19937_64 g(c.draw(uint64_t(1) << 40));
  const size_t n = 2 + c.draw(4), kind = c.draw(3);
  c.trace("%zu elements, container %zu\n", n, kind);
  constexpr size_t kRounds = 20000;
  std::map<std::vector<int>, size_t> count;
  for (size_t r = 0; r < kRounds; r++) {
    std::vector<int> v;
    for (size_t i = 0; i < n; i++) v.push_back(int(i));
    if (kind == 0) {
      rst::c_shuffle(v, g);
    } else if (kind == 1) {
      std::deque<int> d(v.begin(), v.end());
      rst::c_shuffle(d, g);
      v.assign(d.begin(), d.end());
    } else {
      int a[3] = {0, 1, 2};
      rst::c_shuffle(a, g);
      v.assign(a, a + 3);
    }
    count[v]++;
  }
  size_t orders = 1;
  for (size_t i = 2; i <= (kind == 2 ? 3 : n); i++) orders *= i;
  PBT_CHECK(c, count.size() == orders, "%zu of %zu orders occurred in %zu shuffles", count.size(), orders, kRounds);
  // 8 standard deviations.
  const double p = 1.0 / double(orders), want = double(kRounds) * p, sigma = std::sqrt(want * (1 - p));
  for (auto& [v, k] : count) PBT_CHECK(c, std::fabs(double(k) - want) < 8 * sigma, "an order that begins with %d, %d occurred %zu times, expected about %.0f", v[0], v[1], k, want);
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of algorithms, reverse, vector_builder; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(3)) {
      case 0: scenario_algorithms(t); break;
      case 1: scenario_reverse(t); break;
      default: scenario_vector_builder(t); break;
    }
  });
}
