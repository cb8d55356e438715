// C19: weak pointers are valid exactly while the object lives.
#include <memory>
#include <optional>
#include <tuple>
#include <vector>

#include "rst/memory/weak_ptr.h"
#include "amount.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
// A tree of objects with weak pointers: pointer values change between bases.
struct Pad { virtual ~Pad() = default; long pad = 1; };
struct A : rst::SupportsWeakPtr<A> { virtual ~A() = default; long a = 2; };
struct Side { virtual ~Side() = default; long side = 3; };
struct B : Pad, A { long b = 4; };
struct C : Side, B { long c = 5; };
// An object whose base is virtual: converting needs the live object.
struct VB { virtual ~VB() = default; long v = 6; };
struct VD : virtual VB, rst::SupportsWeakPtr<VD> { long d = 7; };

using Types = std::tuple<A, B, C, const A, const B, const C, VD, VB, const VD, const VB, Pad, Side>;
constexpr size_t kTypes = std::tuple_size_v<Types>;
template <size_t I> using TypeAt = std::tuple_element_t<I, Types>;
const char* const kNames[] = {"A", "B", "C", "const A", "const B", "const C", "VD", "VB", "const VD", "const VB", "Pad", "Side"};
constexpr int kSlots = 2, kObjects = 4;

enum Kind { kA, kB, kC, kVD };
const char* const kKinds[] = {"A", "B", "C", "VD"};
struct Object {
  bool alive = false;
  Kind kind = kA;
  int serial = -1;
  bool arena = false;
  void* at = nullptr;  // most derived object
};
struct Cell { int serial = -1; int object = -1; bool moved = false; };
template <class T> struct Bank { rst::WeakPtr<T> p[kSlots]; };
template <class Tuple> struct BanksOf;
template <class... T> struct BanksOf<std::tuple<T...>> { using type = std::tuple<Bank<T>...>; };

struct World {
  Object obj[kObjects];
  alignas(64) char arena[kObjects][256];
  BanksOf<Types>::type banks;
  Cell cell[kTypes][kSlots];
  int next = 0;
};

// Address of the T in object |o|, or null if it has none.
template <class T>
const void* address(const Object& o) {
  auto up = [](auto* p) -> const void* {
    if constexpr (std::is_convertible_v<decltype(p), const T*>) return static_cast<const T*>(p);
    else return nullptr;
  };
  switch (o.kind) {
    case kA: return up(static_cast<A*>(o.at));
    case kB: return up(static_cast<B*>(o.at));
    case kC: return up(static_cast<C*>(o.at));
    default: return up(static_cast<VD*>(o.at));
  }
}

template <size_t I = 0>
void check_all(Ctx& c, World& w, const char* after) {
  if constexpr (I < kTypes) {
    using T = TypeAt<I>;
    for (int k = 0; k < kSlots; k++) {
      const Cell& m = w.cell[I][k];
      const auto& p = std::get<I>(w.banks).p[k];
      const void* want = nullptr;
      if (m.object >= 0 && w.obj[m.object].alive && w.obj[m.object].serial == m.serial) want = address<T>(w.obj[m.object]);
      const void* got = p.GetNullable().get();
      if (m.moved && got == nullptr) continue;
      PBT_CHECK(c, got == want, "after %s: WeakPtr<%s>[%d] to object %d yields %s", after, kNames[I], k, m.serial, got == nullptr ? "null" : want == nullptr ? "a dead object" : "another address");
      rst::Nullable<T*> n = p.GetNullable();
      PBT_CHECK(c, (n == nullptr) == (want == nullptr), "null test");
    }
    check_all<I + 1>(c, w, after);
  }
}

template <size_t D, size_t S>
bool transfer(World& w, int d, int s, int how) {
  using TD = TypeAt<D>;
  using TS = TypeAt<S>;
  if constexpr (!std::is_convertible_v<TS*, TD*>) { (void)w; (void)d; (void)s; (void)how; return false; }
  else {
    auto& dst = std::get<D>(w.banks).p[d];
    auto& src = std::get<S>(w.banks).p[s];
    Cell &dc = w.cell[D][d], &sc = w.cell[S][s];
    if (sc.moved) return false;
    const bool self = D == S && d == s;
    const auto& csrc = src;
    switch (how) {
      case 0: dst = csrc; break;
      case 1: if (self) return false; dst = std::move(src); sc.moved = true; break;
      case 2: { rst::WeakPtr<TD> t(csrc); dst = t; break; }
      case 3: { if (self) return false; rst::WeakPtr<TD> t(std::move(src)); dst = std::move(t); sc.moved = true; break; }
      default: { rst::WeakPtr<TD> t; t = csrc; rst::WeakPtr<TD> u(std::move(t)); dst = u; break; }
    }
    if (!self) { int so = sc.object, ss = sc.serial; dc = Cell{ss, so, false}; }
    return true;
  }
}
using TransferFn = bool (*)(World&, int, int, int);
template <size_t... I> struct Tables { TransferFn t[kTypes * kTypes] = {&transfer<I / kTypes, I % kTypes>...}; };
template <size_t... I> Tables<I...> tables(std::index_sequence<I...>) { return {}; }
const auto kTables = tables(std::make_index_sequence<kTypes * kTypes>());

template <size_t I, class F>
void with_type(size_t t, F&& f) {
  if constexpr (I < kTypes) {
    if (t == I) f(std::integral_constant<size_t, I>());
    else with_type<I + 1>(t, std::forward<F>(f));
  }
}

// Obtains a weak pointer to object |o| as a WeakPtr<T>.
template <size_t I>
bool obtain(World& w, int slot, const Object& o, int how) {
  using T = TypeAt<I>;
  auto& dst = std::get<I>(w.banks).p[slot];
  auto from = [&](auto* p) {
    using O = std::remove_pointer_t<decltype(p)>;
    if constexpr (std::is_convertible_v<O*, T*>) {
      if constexpr (std::is_same_v<O, A> || std::is_same_v<O, VD>) {
        if (how == 1) { dst = p->AsWeakPtr(); return true; }
      }
      if constexpr (std::is_const_v<T>) {
        const O* q = p;
        using Member = decltype(q->AsWeakPtr());
        if constexpr (std::is_convertible_v<Member, rst::WeakPtr<T>> && std::is_convertible_v<decltype(q->AsWeakPtr().GetNullable().get()), T*>) {
          if (how == 0) { dst = q->AsWeakPtr(); return true; }
        }
        if (how == 2) dst = rst::AsWeakPtr(q);
        else dst = rst::AsWeakPtr(p);
        return true;
      } else {
        if (how == 2) dst = rst::AsWeakPtr(rst::NotNull<O*>(p));
        else dst = rst::AsWeakPtr(p);
        return true;
      }
    } else {
      return false;
    }
  };
  switch (o.kind) {
    case kA: return from(static_cast<A*>(o.at));
    case kB: return from(static_cast<B*>(o.at));
    case kC: return from(static_cast<C*>(o.at));
    default: return from(static_cast<VD*>(o.at));
  }
}
const std::vector<size_t> k_fit[] = {{0, 3}, {0, 1, 3, 4, 10}, {0, 1, 2, 3, 4, 5, 10, 11}, {6, 7, 8, 9}};
const std::vector<size_t> k_to[] = {{0, 3}, {0, 1, 3, 4, 10}, {0, 1, 2, 3, 4, 5, 10, 11}, {3}, {3, 4}, {3, 4, 5}, {6, 7, 8, 9}, {7, 9}, {8, 9}, {9}, {10}, {11}};
}  // namespace

SCENARIO(histories, 400000, 6000000, false,
         "histories of creating and destroying objects of 4 classes (multiple, virtual bases; heap or reused memory) and of obtaining, copying, converting, moving, assigning and resetting weak pointers of 12 types; every weak pointer is compared with the model after every step; "
         "non-trivial: an object died while weak pointers to it existed, and a conversion happened") {
  auto before = alloc::now().live;
  {
    auto wp = std::make_unique<World>();
    World& w = *wp;
    size_t steps = c.size(1, 50);
    bool died = false, converted = false;
    for (size_t k = 0; k < steps; k++) {
      int o = int(c.draw(kObjects));
      if (!w.obj[o].alive && c.chance(1, 2)) o = int(c.draw(kObjects));
      Object& ob = w.obj[o];
      std::string what;
      switch (c.weighted({4, 2, 5, 6, 1})) {
        case 0: {
          if (ob.alive) break;
          ob.kind = Kind(c.draw(4));
          ob.arena = c.flip();
          void* mem = w.arena[o];
          switch (ob.kind) {
            case kA: ob.at = ob.arena ? new (mem) A : new A; break;
            case kB: ob.at = ob.arena ? new (mem) B : new B; break;
            case kC: ob.at = ob.arena ? new (mem) C : new C; break;
            default: ob.at = ob.arena ? new (mem) VD : new VD; break;
          }
          ob.alive = true;
          ob.serial = w.next++;
          what = pbt::strf("creating object %d of class %s in place %d%s", ob.serial, kKinds[ob.kind], o, ob.arena ? " (reused memory)" : "");
          break;
        }
        case 1: {
          if (!ob.alive) break;
          for (auto& t : w.cell) for (auto& m : t) if (m.serial == ob.serial && m.object >= 0) died = true;
          what = pbt::strf("destroying object %d", ob.serial);
          auto kill = [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            if (ob.arena) { p->~T(); memset(w.arena[o], 0x5d, sizeof w.arena[o]); } else delete p;
          };
          switch (ob.kind) {
            case kA: kill(static_cast<A*>(ob.at)); break;
            case kB: kill(static_cast<B*>(ob.at)); break;
            case kC: kill(static_cast<C*>(ob.at)); break;
            default: kill(static_cast<VD*>(ob.at)); break;
          }
          ob.alive = false;
          break;
        }
        case 2: {
          if (!ob.alive) break;
          size_t t = c.pick(k_fit[ob.kind]);
          int slot = int(c.draw(kSlots)), how = int(c.draw(3));
          with_type<0>(t, [&](auto i) {
            constexpr size_t I = decltype(i)::value;
            if (obtain<I>(w, slot, ob, how)) {
              w.cell[I][slot] = Cell{ob.serial, o, false};
              what = pbt::strf("obtaining WeakPtr<%s>[%d] of object %d", kNames[I], slot, ob.serial);
            }
          });
          break;
        }
        case 3: {
          std::vector<std::pair<size_t, int>> used;
          for (size_t t = 0; t < kTypes; t++) for (int i = 0; i < kSlots; i++) if (w.cell[t][i].serial >= 0 && !w.cell[t][i].moved) used.push_back({t, i});
          size_t s = c.draw(kTypes);
          int y = int(c.draw(kSlots));
          if (!used.empty() && c.chance(9, 10)) { auto u = c.pick(used); s = u.first; y = u.second; }
          size_t d = c.pick(k_to[s]);
          int x = int(c.draw(kSlots)), how = int(c.draw(5));
          if (kTables.t[d * kTypes + s](w, x, y, how)) {
            if (d != s && w.cell[d][x].serial >= 0) converted = true;
            what = pbt::strf("transfer %d of WeakPtr<%s>[%d] to WeakPtr<%s>[%d]", how, kNames[s], y, kNames[d], x);
          }
          break;
        }
        default: {
          size_t t = c.draw(kTypes);
          int slot = int(c.draw(kSlots)), how = int(c.draw(3));
          with_type<0>(t, [&](auto i) {
            constexpr size_t I = decltype(i)::value;
            auto& p = std::get<I>(w.banks).p[slot];
            if (how == 0) p = nullptr;
            else if (how == 1) p = rst::WeakPtr<TypeAt<I>>();
            else p = rst::WeakPtr<TypeAt<I>>(nullptr);
            w.cell[I][slot] = Cell();
          });
          what = pbt::strf("reset of WeakPtr<%s>[%d]", kNames[t], slot);
        }
      }
      if (what.empty()) continue;
      c.trace("%s\n", what.c_str());
      check_all(c, w, what.c_str());
    }
    if (died && converted) c.nontrivial();
    if (died) c.label("died");
    // Weak pointers may outlive their objects and the other way round.
    bool objects_first = c.flip();
    auto drop = [&] {
      for (auto& ob : w.obj) {
        if (!ob.alive) continue;
        auto kill = [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; if (ob.arena) p->~T(); else delete p; };
        switch (ob.kind) {
          case kA: kill(static_cast<A*>(ob.at)); break;
          case kB: kill(static_cast<B*>(ob.at)); break;
          case kC: kill(static_cast<C*>(ob.at)); break;
          default: kill(static_cast<VD*>(ob.at)); break;
        }
        ob.alive = false;
      }
    };
    if (objects_first) { drop(); check_all(c, w, "the end"); }
    else {
      with_type<0>(0, [&](auto) {});
      w.banks = BanksOf<Types>::type();
      for (auto& t : w.cell) for (auto& m : t) m = Cell();
      check_all(c, w, "dropping all weak pointers");
      drop();
    }
  }
  PBT_CHECK(c, alloc::now().live == before, "%ld allocations left", long(alloc::now().live - before));
}

SCENARIO(many_pointers, 150, 5000, false,
         "up to 70000 weak pointers to one object, often about 2^8, 2^15 or 2^16, made from the object or copied and partly destroyed; all valid until it dies, "
         "null afterwards, nothing leaks; non-trivial: more than 250") {
  const size_t n = real::gen_amount(c);
  const size_t drop = c.draw(n + 1);
  const bool copies = c.flip(), self = c.flip();
  c.trace("%zu pointers by %s, %zu destroyed before the object\n", n, copies ? "copy" : "request", drop);
  if (n > 250) c.nontrivial();
  const auto live = alloc::now().live;
  {
    auto o = std::make_unique<A>();
    A* const raw = o.get();
    std::vector<rst::WeakPtr<A>> v;
    v.push_back(o->AsWeakPtr());
    for (size_t i = 1; i < n; i++) { if (copies) { auto x = v[self ? 0 : i - 1]; v.push_back(std::move(x)); } else v.push_back(o->AsWeakPtr()); }
    v.erase(v.begin(), v.begin() + long(std::min(drop, n)));
    for (size_t i = 0; i < v.size(); i++) PBT_CHECK(c, v[i].GetNullable() == raw, "pointer %zu of %zu is not valid", i, v.size());
    {
      auto w = o->AsWeakPtr();
      PBT_CHECK(c, w.GetNullable() == raw, "a new pointer after %zu is not valid", n);
    }
    o.reset();
    for (size_t i = 0; i < v.size(); i++) PBT_CHECK(c, v[i].GetNullable() == nullptr, "pointer %zu of %zu is valid after the object died", i, v.size());
  }
  PBT_CHECK(c, alloc::now().live == live, "leak");
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of histories; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_histories(t);
  });
}

SCENARIO(shared, 400, 12000, false,
         "objects from which 2 to 4 threads obtain weak pointers at the same time, also copying, converting and dropping those of others; all valid until the objects "
         "die; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  const size_t rounds = c.size(1, 4);
  for (size_t r = 0; r < rounds; r++) {
    auto obj = std::make_unique<C>();
    const C* const raw = obj.get();
    const bool first = c.flip();
    rst::WeakPtr<A> early;
    if (first) early = obj->AsWeakPtr();
    std::vector<rst::WeakPtr<A>> kept[4];
    std::vector<rst::WeakPtr<const B>> kept_b[4];
    pbt::in_threads_i(c, 10, [&](Ctx& t, int i) {
      rst::WeakPtr<A> p;
      switch (t.draw(first ? 3 : 2)) {
        case 0: p = obj->AsWeakPtr(); break;
        case 1: p = rst::AsWeakPtr(obj.get()); break;
        default: p = early; break;
      }
      rst::WeakPtr<const B> b = rst::AsWeakPtr(raw);
      PBT_CHECK(t, p.GetNullable() == static_cast<const A*>(raw) && b.GetNullable() == static_cast<const B*>(raw), "a weak pointer to a live object is not valid");
      if (t.flip()) kept[i].push_back(p);
      if (t.flip()) kept_b[i].push_back(std::move(b));
      if (t.chance(1, 6) && !kept[i].empty()) kept[i].pop_back();
    });
    for (int i = 0; i < 4; i++) {
      for (auto& p : kept[i]) PBT_CHECK(c, p.GetNullable() == static_cast<const A*>(raw), "a weak pointer obtained by thread %d is not valid while the object lives", i);
      for (auto& p : kept_b[i]) PBT_CHECK(c, p.GetNullable() == static_cast<const B*>(raw), "a converted weak pointer of thread %d is not valid while the object lives", i);
    }
    obj.reset();
    for (int i = 0; i < 4; i++) {
      for (auto& p : kept[i]) PBT_CHECK(c, p.GetNullable() == nullptr, "a weak pointer obtained by thread %d outlives the object", i);
      for (auto& p : kept_b[i]) PBT_CHECK(c, p.GetNullable() == nullptr, "a converted weak pointer of thread %d outlives the object", i);
    }
    PBT_CHECK(c, early.GetNullable() == nullptr, "the first weak pointer outlives the object");
  }
}
