// C31: strong alias types behave exactly like the wrapped value.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "rst/type/type.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
template <class U> using Alias = rst::Type<class Tag, U>;
// A subclass may reach the value.
struct Derived : Alias<std::string> { using Alias<std::string>::Type; void Add(const std::string& s) { value_ += s; } };

template <class U> U make(Ctx& c);
template <> int64_t make<int64_t>(Ctx& c) { return c.flip() ? pbt::gen_int(c) : c.range(-2, 2); }
template <> double make<double>(Ctx& c) { static const double d[] = {0.0, -0.0, 1.0, -1.0, __builtin_nan(""), __builtin_inf()}; return c.flip() ? c.pick(d) : pbt::gen_double(c); }
template <> bool make<bool>(Ctx& c) { return c.flip(); }
template <> char make<char>(Ctx& c) { return char(c.draw(256)); }
template <> std::string make<std::string>(Ctx& c) { return c.flip() ? std::string(c.size(0, 3), 'a') : pbt::gen_bytes(c, 40); }
template <> std::vector<int> make<std::vector<int>>(Ctx& c) { std::vector<int> v(c.size(0, 5)); for (auto& i : v) i = int(c.draw(3)); return v; }
template <> std::unique_ptr<int> make<std::unique_ptr<int>>(Ctx& c) { return c.chance(1, 4) ? nullptr : std::make_unique<int>(int(c.draw(100))); }

template <class U>
bool same(const U& a, const U& b) { return a == b || (a != a && b != b); }

template <class U>
void compare(Ctx& c, const U& a, const U& b) {
  Alias<U> x(a), y(b);
  const Alias<U>&cx = x, &cy = y;
  PBT_CHECK(c, (cx == cy) == (a == b), "==");
  PBT_CHECK(c, (cx != cy) == (a != b), "!=");
  PBT_CHECK(c, (cx < cy) == (a < b), "<");
  PBT_CHECK(c, (cx <= cy) == (a <= b), "<=");
  PBT_CHECK(c, (cx > cy) == (a > b), ">");
  PBT_CHECK(c, (cx >= cy) == (a >= b), ">=");
  PBT_CHECK(c, same(cx.value(), a) && same(cy.value(), b), "value()");
  PBT_CHECK(c, same(static_cast<U>(cx), a), "conversion");
}
template <class U>
void hashes(Ctx& c, const U& a) { PBT_CHECK(c, std::hash<Alias<U>>()(Alias<U>(a)) == std::hash<U>()(a), "hash"); }

// Variables of an alias against variables of the wrapped type.
template <class U>
void history(Ctx& c) {
  U m[3] = {};
  Alias<U> x[3] = {Alias<U>(U()), Alias<U>(U()), Alias<U>(U())};
  bool moved[3] = {};
  for (size_t k = 0, n = c.size(1, 12); k < n; k++) {
    size_t i = c.draw(3), j = c.draw(3);
    switch (c.draw(6)) {
      case 0: { U v = make<U>(c); m[i] = v; x[i] = Alias<U>(v); moved[i] = false; break; }
      case 1: { U v = make<U>(c); m[i] = v; x[i] = Alias<U>(std::move(v)); moved[i] = false; break; }
      case 2: if (!moved[j]) { m[i] = m[j]; x[i] = x[j]; moved[i] = false; } break;
      case 3: if (!moved[j] && i != j) { m[i] = m[j]; x[i] = std::move(x[j]); moved[i] = false; moved[j] = true; } break;
      case 4: if (!moved[j]) { Alias<U> t(x[j]); Alias<U> u(std::move(t)); m[i] = m[j]; x[i] = u; moved[i] = false; } break;
      default: if (!moved[i] && !moved[j] && i != j) { std::swap(m[i], m[j]); std::swap(x[i], x[j]); }
    }
    for (int q = 0; q < 3; q++) if (!moved[q]) PBT_CHECK(c, same(x[q].value(), m[q]), "variable %d after step %zu", q, k);
    for (int q = 0; q < 3; q++) for (int r = 0; r < 3; r++) if (!moved[q] && !moved[r]) PBT_CHECK(c, (x[q] == x[r]) == (m[q] == m[r]) && (x[q] < x[r]) == (m[q] < m[r]), "comparison of variables");
  }
}
template <class U>
void containers(Ctx& c) {
  std::map<U, int> a;
  std::map<Alias<U>, int> b;
  std::unordered_map<Alias<U>, int> d;
  std::set<Alias<U>> s;
  for (size_t k = 0, n = c.size(1, 20); k < n; k++) {
    U v = make<U>(c);
    if (!(v == v)) continue;
    switch (c.draw(3)) {
      case 0: case 1: a[v] = int(k); b[Alias<U>(v)] = int(k); d[Alias<U>(v)] = int(k); s.insert(Alias<U>(v)); break;
      default: a.erase(v); b.erase(Alias<U>(v)); d.erase(Alias<U>(v)); s.erase(Alias<U>(v)); break;
    }
  }
  PBT_CHECK(c, a.size() == b.size() && a.size() == d.size() && a.size() == s.size(), "containers of sizes %zu %zu %zu %zu", a.size(), b.size(), d.size(), s.size());
  auto it = b.begin();
  for (auto& [k, v] : a) {
    PBT_CHECK(c, same(it->first.value(), k) && it->second == v && d.at(Alias<U>(k)) == v && s.count(Alias<U>(k)), "container contents");
    ++it;
  }
}
template <class U> void all(Ctx& c) {
  U a = make<U>(c), b = c.chance(1, 4) ? a : make<U>(c);
  if (a != b) c.nontrivial();
  compare(c, a, b);
  history<U>(c);
}
}  // namespace

SCENARIO(aliases, 400000, 1200000, false,
         "pairs of values, histories over 3 variables (construct, copy, move, assign, swap, reassign after move) and use as map, set and hash keys for aliases of integers, doubles, bool, char, strings, vectors, and move-only pointers, against the wrapped type; non-trivial: two different values") {
  switch (c.draw(8)) {
    case 0: c.trace("int64\n"); all<int64_t>(c); hashes(c, make<int64_t>(c)); containers<int64_t>(c); break;
    case 1: c.trace("double\n"); all<double>(c); hashes(c, make<double>(c)); containers<double>(c); break;
    case 2: c.trace("string\n"); all<std::string>(c); hashes(c, make<std::string>(c)); containers<std::string>(c); break;
    case 3: c.trace("vector\n"); all<std::vector<int>>(c); break;
    case 4: c.trace("char\n"); all<char>(c); hashes(c, make<char>(c)); containers<char>(c); break;
    case 5: c.trace("bool\n"); all<bool>(c); hashes(c, make<bool>(c)); break;
    case 6: {
      c.trace("derived\n");
      std::string s = make<std::string>(c), t = make<std::string>(c);
      Derived d(s);
      d.Add(t);
      PBT_CHECK(c, d.value() == s + t, "value of a subclass");
      if (!t.empty()) c.nontrivial();
      break;
    }
    default: {
      c.trace("move-only\n");
      auto live = alloc::now().live;
      {
        auto p = make<std::unique_ptr<int>>(c), q = make<std::unique_ptr<int>>(c);
        int *pr = p.get(), *qr = q.get();
        if (pr && qr) c.nontrivial();
        Alias<std::unique_ptr<int>> x(std::move(p)), y(std::move(q));
        PBT_CHECK(c, x.value().get() == pr && y.value().get() == qr, "value");
        PBT_CHECK(c, (x == y) == (pr == qr) && (x != y) == (pr != qr) && (x < y) == (pr < qr), "comparison");
        PBT_CHECK(c, std::hash<decltype(x)>()(x) == std::hash<std::unique_ptr<int>>()(x.value()), "hash");
        Alias<std::unique_ptr<int>> z(std::move(x));
        PBT_CHECK(c, z.value().get() == pr, "move");
        x = std::move(y);
        PBT_CHECK(c, x.value().get() == qr, "reassigning a moved-from alias");
        std::vector<Alias<std::unique_ptr<int>>> v;
        for (int k = 0; k < 9; k++) v.emplace_back(std::make_unique<int>(k));
        for (int k = 0; k < 9; k++) PBT_CHECK(c, *v[size_t(k)].value() == k, "in a growing vector");
      }
      PBT_CHECK(c, alloc::now().live == live, "leak");
    }
  }
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of aliases; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_aliases(t);
  });
}
