// C18: not-null pointers are never null; nullable ones must be checked.
#include <sys/mman.h>

#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_set>

#include "rst/not_null/not_null.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
#ifdef NDEBUG
constexpr bool kDebug = false;
#else
constexpr bool kDebug = true;
#endif

PBT_THREAD_LOCAL int g_live[512];
struct Pad { virtual ~Pad() = default; int pad = 0; };
struct Base {
  explicit Base(int i) : id(i) { if (i >= 0) g_live[i]++; }
  virtual ~Base() { if (id >= 0) g_live[id]--; }
  int id;
};
struct Derived : Pad, Base { explicit Derived(int i) : Base(i) {} int extra = 0; };
Derived g_pool[16] = {Derived(-100), Derived(-101), Derived(-102), Derived(-103), Derived(-104), Derived(-105), Derived(-106), Derived(-107),
                      Derived(-108), Derived(-109), Derived(-110), Derived(-111), Derived(-112), Derived(-113), Derived(-114), Derived(-115)};

template <class H> struct Tr;
template <class T> struct Tr<T*> {
  static constexpr int family = 0;
  using Ptr = T*;
  static T* make(int obj) { return obj < 0 ? nullptr : &g_pool[obj]; }
  static int obj_of(const T* p) { return p ? -100 - p->id : -1; }
};
template <class T> struct Tr<std::unique_ptr<T>> {
  static constexpr int family = 1;
  using Ptr = T*;
  static std::unique_ptr<T> make(int obj) { return obj < 0 ? std::unique_ptr<T>() : std::unique_ptr<T>(new Derived(obj)); }
  static int obj_of(const T* p) { return p ? p->id : -1; }
};
template <class T> struct Tr<std::shared_ptr<T>> {
  static constexpr int family = 2;
  using Ptr = T*;
  static std::shared_ptr<T> make(int obj) { return obj < 0 ? std::shared_ptr<T>() : std::shared_ptr<T>(new Derived(obj)); }
  static int obj_of(const T* p) { return p ? p->id : -1; }
};

using Types = std::tuple<Derived*, Base*, const Base*, const Derived*, std::unique_ptr<Derived>, std::unique_ptr<Base>, std::unique_ptr<const Base>,
                         std::shared_ptr<Derived>, std::shared_ptr<Base>, std::shared_ptr<const Base>>;
constexpr size_t kTypes = std::tuple_size_v<Types>;
template <size_t I> using TypeAt = std::tuple_element_t<I, Types>;
constexpr int kSlots = 2;
enum { kNo, kYes, kUnknown };

struct Cell { bool present = false, moved = false; int obj = -1; int checked = kNo; };
template <class H> struct Bank { std::optional<rst::NotNull<H>> nn[kSlots]; std::optional<rst::Nullable<H>> nb[kSlots]; };
template <class Tuple> struct BanksOf;
template <class... H> struct BanksOf<std::tuple<H...>> { using type = std::tuple<Bank<H>...>; };

struct World {
  BanksOf<Types>::type banks;
  Cell nn[kTypes][kSlots], nb[kTypes][kSlots];
  int next = 0;
};

const char* const kTypeNames[] = {"Derived*", "Base*", "const Base*", "const Derived*", "unique<Derived>", "unique<Base>", "unique<const Base>", "shared<Derived>", "shared<Base>", "shared<const Base>"};

// Expect a step to be survived or stopped; runs in the process if legal.
template <class F>
void expect_stop(Ctx& c, const char* what, F f) {
  auto d = pbt::run_forked([&] { f(); });
  PBT_CHECK(c, d.aborted(), "%s: %s", what, d.describe().c_str());
}

template <size_t D, size_t S, bool Move>
struct Op {
  using HD = TypeAt<D>;
  using HS = TypeAt<S>;
  static constexpr bool same_family = Tr<HD>::family == Tr<HS>::family;
  static constexpr bool convertible = std::is_convertible_v<HS, HD> && same_family && (Move || std::is_copy_constructible_v<HS>);
  static constexpr bool assignable = std::is_assignable_v<HD&, HS&&> && (Move || std::is_copy_constructible_v<HS>);
  static constexpr bool raw = Tr<HS>::family == 0;
};
template <class X, bool Move> decltype(auto) fwd(X& x) { if constexpr (Move) return std::move(x); else return static_cast<const X&>(x); }

// Returns true if a check was reached that ends the case.
template <size_t D, size_t S, bool Move>
bool transfer(Ctx& c, World& w, bool construct, int src_kind, bool dst_nullable, int d, int s) {
  using O = Op<D, S, Move>;
  using HD = typename O::HD;
  using HS = typename O::HS;
  if constexpr (!O::assignable) { (void)c; (void)w; (void)construct; (void)src_kind; (void)dst_nullable; (void)d; (void)s; return false; }
  else {
    if (construct && !O::convertible) return false;
    auto& db = std::get<D>(w.banks);
    auto& sb = std::get<S>(w.banks);
    Cell& dc = dst_nullable ? w.nb[D][d] : w.nn[D][d];
    Cell fresh;
    fresh.present = true;
    Cell* sc = nullptr;
    HS holder{};
    const bool self = src_kind && D == S && (src_kind == 2) == dst_nullable && d == s;
    if (src_kind == 0) {
      fresh.obj = c.chance(1, 5) ? -1 : Tr<HS>::family == 0 ? int(c.draw(16)) : w.next++;
      if (fresh.obj >= 500) return true;
    } else {
      sc = src_kind == 1 ? &w.nn[S][s] : &w.nb[S][s];
      if (!sc->present) return false;
      fresh.obj = sc->obj;
    }
    if (!construct && !dc.present) return false;
    if (self && (construct || Move)) return false;
    // Legality in debug builds.
    bool legal = true;
    if (src_kind && sc->moved) { if (dst_nullable || src_kind == 2) return false; legal = false; }
    if (src_kind == 2 && !dst_nullable) {
      if (sc->checked != kYes && !sc->moved && c.flip()) { (void)(*sb.nb[s] == nullptr); sc->checked = kYes; }
      if (sc->checked == kUnknown) return false;
      if (sc->checked == kNo) legal = false;
    }
    if (!dst_nullable && fresh.obj < 0) legal = false;
    if (!kDebug && !legal) { if (src_kind == 0 && O::raw == false && fresh.obj >= 0) w.next--; return false; }
    if (!legal && !c.chance(1, 4)) { if (src_kind == 0 && Tr<HS>::family && fresh.obj >= 0) w.next--; return false; }
    if (src_kind == 0) holder = Tr<HS>::make(fresh.obj);
    const bool keeps_flag = construct && src_kind == 2 && dst_nullable && D == S;
    if (keeps_flag) fresh.checked = sc->checked == kNo ? kNo : kUnknown;
    c.trace("%s%s<%s>[%d] %s %s %s<%s>[%d] (object %d)%s\n", construct ? "construct " : "assign ", dst_nullable ? "Nullable" : "NotNull", kTypeNames[D], d, "from", Move ? "moved" : "copied",
            src_kind == 0 ? "raw" : src_kind == 1 ? "NotNull" : "Nullable", kTypeNames[S], s, fresh.obj, legal ? "" : " ILLEGAL");
    auto go = [&](auto& dst, auto&& src) {
      if constexpr (O::convertible) {
        if (construct) { dst.reset(); dst.emplace(std::forward<decltype(src)>(src)); return; }
      }
      *dst = std::forward<decltype(src)>(src);
    };
    auto all = [&] {
      if (dst_nullable) {
        if (src_kind == 0) go(db.nb[d], fwd<HS, Move>(holder));
        else if (src_kind == 1) go(db.nb[d], fwd<rst::NotNull<HS>, Move>(*sb.nn[s]));
        else go(db.nb[d], fwd<rst::Nullable<HS>, Move>(*sb.nb[s]));
      } else {
        if (src_kind == 0) go(db.nn[d], fwd<HS, Move>(holder));
        else if (src_kind == 1) go(db.nn[d], fwd<rst::NotNull<HS>, Move>(*sb.nn[s]));
        else go(db.nn[d], fwd<rst::Nullable<HS>, Move>(*sb.nb[s]));
      }
    };
    if (!legal) {
      c.label("illegal");
      c.nontrivial();
      expect_stop(c, "storing a null or unchecked pointer in a not-null, or using a moved-from owner", all);
      return true;
    }
    all();
    if (Move && sc && !O::raw) { sc->moved = true; }
    dc = fresh;
    if (D != S) { c.label("converted"); c.nontrivial(); }
    return false;
  }
}

template <size_t D>
bool read_nn(Ctx& c, World& w, int d) {
  using H = TypeAt<D>;
  Cell& m = w.nn[D][d];
  if (!m.present) return false;
  auto& p = std::get<D>(w.banks).nn[d];
  if (m.moved) {
    if (!kDebug || !c.chance(1, 4)) return false;
    int how = int(c.draw(5));
    c.nontrivial();
    c.label("moved-from owner");
    c.trace("use %d of moved-from NotNull<%s>[%d]\n", how, kTypeNames[D], d);
    expect_stop(c, "use of a moved-from not-null owner", [&] {
      switch (how) {
        case 0: (void)p->get(); break;
        case 1: pbt::mark(uint64_t((*p)->id)); break;
        case 2: pbt::mark(uint64_t((**p).id)); break;
        case 3: pbt::mark(std::hash<rst::NotNull<H>>()(*p)); break;
        default: pbt::mark(*p == *p); break;
      }
    });
    return true;
  }
  auto* raw = p->get();
  PBT_CHECK(c, raw != nullptr, "a not-null yields null");
  PBT_CHECK(c, Tr<H>::obj_of(raw) == m.obj, "NotNull<%s> yields object %d instead of %d", kTypeNames[D], Tr<H>::obj_of(raw), m.obj);
  PBT_CHECK(c, &**p == raw && &(*p)->id == &raw->id, "* or -> differs from get()");
  PBT_CHECK(c, std::hash<rst::NotNull<H>>()(*p) == std::hash<typename Tr<H>::Ptr>()(raw), "hash");
  PBT_CHECK(c, *p == raw && raw == *p && !(*p != raw) && !(raw != *p), "comparison with its own raw pointer");
  return false;
}

template <size_t D>
bool read_nb(Ctx& c, World& w, int d) {
  using H = TypeAt<D>;
  Cell& m = w.nb[D][d];
  if (!m.present || m.moved) return false;
  auto& p = std::get<D>(w.banks).nb[d];
  auto* raw = p->get();
  PBT_CHECK(c, Tr<H>::obj_of(raw) == m.obj, "Nullable<%s> yields object %d instead of %d", kTypeNames[D], Tr<H>::obj_of(raw), m.obj);
  PBT_CHECK(c, std::hash<rst::Nullable<H>>()(*p) == std::hash<typename Tr<H>::Ptr>()(raw), "hash");
  PBT_CHECK(c, *p == raw && raw == *p && !(*p != raw) && !(raw != *p), "comparison with its own raw pointer");
  switch (c.draw(3)) {
    case 0: {
      bool null = m.obj < 0;
      switch (c.draw(4)) {
        case 0: PBT_CHECK(c, (*p == nullptr) == null, "== nullptr"); break;
        case 1: PBT_CHECK(c, (nullptr == *p) == null, "nullptr =="); break;
        case 2: PBT_CHECK(c, (*p != nullptr) == !null, "!= nullptr"); break;
        default: PBT_CHECK(c, (nullptr != *p) == !null, "nullptr !="); break;
      }
      c.trace("compare Nullable<%s>[%d] with null\n", kTypeNames[D], d);
      m.checked = kYes;
      [[fallthrough]];
    }
    default: {
      if (m.checked == kUnknown) break;
      const bool legal = m.checked == kYes && m.obj >= 0;
      if (legal) {
        PBT_CHECK(c, &**p == raw && &(*p)->id == &raw->id, "* or -> differs from get()");
        c.label("dereferenced");
      } else if (kDebug && c.chance(1, 5)) {
        c.nontrivial();
        c.label(m.obj < 0 ? "null dereference" : "unchecked dereference");
        c.trace("dereference %s Nullable<%s>[%d]\n", m.checked ? "null" : "unchecked", kTypeNames[D], d);
        int how = int(c.draw(2));
        expect_stop(c, "dereference of an unchecked or null nullable", [&] { pbt::mark(uint64_t(how ? reinterpret_cast<uintptr_t>(&(*p)->id) : reinterpret_cast<uintptr_t>(&**p))); });
        return true;
      }
    }
  }
  return false;
}

template <size_t D>
void take(Ctx& c, World& w, bool nullable, int d) {
  using H = TypeAt<D>;
  if constexpr (Tr<H>::family != 0) {
    Cell& m = nullable ? w.nb[D][d] : w.nn[D][d];
    if (!m.present || m.moved) return;
    auto& b = std::get<D>(w.banks);
    H h = nullable ? std::move(*b.nb[d]).Take() : std::move(*b.nn[d]).Take();
    c.trace("take from %s<%s>[%d]\n", nullable ? "Nullable" : "NotNull", kTypeNames[D], d);
    PBT_CHECK(c, Tr<H>::obj_of(h.get()) == m.obj, "Take() yields object %d instead of %d", Tr<H>::obj_of(h.get()), m.obj);
    m.moved = true;
  }
}

template <size_t A, size_t B>
void compare(Ctx& c, World& w, int x, int y) {
  using HA = TypeAt<A>;
  using HB = TypeAt<B>;
  auto& a = std::get<A>(w.banks);
  auto& b = std::get<B>(w.banks);
  Cell &an = w.nn[A][x], &ab = w.nb[A][x], &bn = w.nn[B][y], &bb = w.nb[B][y];
  auto ok = [](const Cell& m) { return m.present && !m.moved; };
  auto eq = [&](const auto& l, const auto& r, const Cell& ml, const Cell& mr, const char* what) {
    // Objects are identified by their family and number.
    bool same = (ml.obj == mr.obj && Tr<HA>::family == Tr<HB>::family) || (ml.obj < 0 && mr.obj < 0);
    if (Tr<HA>::family && Tr<HB>::family) same = ml.obj == mr.obj;
    PBT_CHECK(c, (l == r) == same && (l != r) == !same && (r == l) == same, "%s of %s and %s: objects %d, %d", what, kTypeNames[A], kTypeNames[B], ml.obj, mr.obj);
  };
  if (ok(an) && ok(bn)) {
    eq(*a.nn[x], *b.nn[y], an, bn, "not-null pair");
    PBT_CHECK(c, (*a.nn[x] < *b.nn[y]) == (a.nn[x]->get() < b.nn[y]->get()), "order of not-nulls");
    eq(*a.nn[x], b.nn[y]->get(), an, bn, "not-null and raw");
  }
  if (ok(ab) && ok(bb)) {
    eq(*a.nb[x], *b.nb[y], ab, bb, "nullable pair");
    PBT_CHECK(c, (*a.nb[x] < *b.nb[y]) == (a.nb[x]->get() < b.nb[y]->get()), "order of nullables");
    eq(*a.nb[x], b.nb[y]->get(), ab, bb, "nullable and raw");
  }
  if (ok(an) && ok(bb)) eq(*a.nn[x], *b.nb[y], an, bb, "not-null and nullable");
  (void)b;
}

using TransferFn = bool (*)(Ctx&, World&, bool, int, bool, int, int);
using ReadFn = bool (*)(Ctx&, World&, int);
using TakeFn = void (*)(Ctx&, World&, bool, int);
using CmpFn = void (*)(Ctx&, World&, int, int);
template <size_t... I>
struct Tables {
  static constexpr size_t n = kTypes;
  TransferFn t[2][n * n] = {{&transfer<I / n, I % n, false>...}, {&transfer<I / n, I % n, true>...}};
  CmpFn cmp[n * n] = {&compare<I / n, I % n>...};
};
template <size_t... I> Tables<I...> tables(std::index_sequence<I...>) { return {}; }
const auto kTables = tables(std::make_index_sequence<kTypes * kTypes>());
template <size_t... I> struct Tables1 {
  ReadFn nn[kTypes] = {&read_nn<I>...};
  ReadFn nb[kTypes] = {&read_nb<I>...};
  TakeFn take_fn[kTypes] = {&take<I>...};
};
template <size_t... I> Tables1<I...> tables1(std::index_sequence<I...>) { return {}; }
const auto kTables1 = tables1(std::make_index_sequence<kTypes>());

template <size_t I = 0>
void destroy(World& w, size_t t, bool nullable, int d) {
  if constexpr (I < kTypes) {
    if (I == t) {
      if (nullable) { std::get<I>(w.banks).nb[d].reset(); w.nb[t][d] = Cell(); }
      else { std::get<I>(w.banks).nn[d].reset(); w.nn[t][d] = Cell(); }
    } else destroy<I + 1>(w, t, nullable, d);
  }
}
template <size_t I = 0>
void nullify(World& w, size_t t, int d, bool construct) {
  if constexpr (I < kTypes) {
    if (I == t) {
      auto& p = std::get<I>(w.banks).nb[d];
      if (construct) { p.reset(); p.emplace(nullptr); } else if (p) *p = nullptr; else return;
      w.nb[t][d] = Cell{true, false, -1, kNo};
    } else nullify<I + 1>(w, t, d, construct);
  }
}

void check_alive(Ctx& c, World& w) {
  int owners[512] = {0};
  for (size_t t = 4; t < kTypes; t++)
    for (int d = 0; d < kSlots; d++) {
      if (w.nn[t][d].present && !w.nn[t][d].moved && w.nn[t][d].obj >= 0) owners[w.nn[t][d].obj]++;
      if (w.nb[t][d].present && !w.nb[t][d].moved && w.nb[t][d].obj >= 0) owners[w.nb[t][d].obj]++;
    }
  for (int k = 0; k < w.next; k++)
    PBT_CHECK(c, g_live[k] == (owners[k] > 0), "object %d has %d owners but is %s", k, owners[k], g_live[k] ? "alive" : "gone");
}
}  // namespace

SCENARIO(histories, 80000, 1500000, false,
         "histories of up to 90 operations over cells of not-null and nullable pointers of 10 pointer types (raw, unique, shared; base, derived, const): every legal construction, assignment, move and conversion, reads, comparisons, hashes, Take and destruction, "
         "against a model of object, checked flag and owners; in debug builds illegal ones in a fork, which must stop; non-trivial: a conversion between types or an illegal step") {
  memset(g_live, 0, sizeof g_live);
  World w;
  size_t steps = c.size(1, 90);
  // Concentrate on a few types, so that cells meet.
  static const std::vector<std::vector<size_t>> focus = {{0, 1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {4, 5, 7, 8, 9}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}};
  const auto& f = focus[c.draw(focus.size())];
  for (size_t k = 0; k < steps; k++) {
    size_t d = f[c.draw(f.size())], s = f[c.draw(f.size())];
    int x = int(c.draw(kSlots)), y = int(c.draw(kSlots));
    bool end = false;
    switch (c.weighted({20, 5, 3, 3, 2, 1, 1})) {
      case 0: {
        bool move = c.flip(), construct = c.flip(), nb = c.flip();
        int kind = int(c.weighted({3, 2, 2}));
        end = kTables.t[move][d * kTypes + s](c, w, construct, kind, nb, x, y);
        break;
      }
      case 1: end = kTables1.nb[d](c, w, x); break;
      case 2: end = kTables1.nn[d](c, w, x); break;
      case 3: kTables.cmp[d * kTypes + s](c, w, x, y); break;
      case 4: nullify(w, d, x, c.flip()); break;
      case 5: kTables1.take_fn[d](c, w, c.flip(), x); break;
      default: destroy(w, d, c.flip(), x); break;
    }
    check_alive(c, w);
    if (end) break;
  }
  for (size_t t = 0; t < kTypes; t++)
    for (int d = 0; d < kSlots; d++) { kTables1.nn[t](c, w, d); }
  for (size_t t = 0; t < kTypes; t++)
    for (int d = 0; d < kSlots; d++) { destroy(w, t, true, d); destroy(w, t, false, d); }
  check_alive(c, w);
}

SCENARIO(arrays_and_sets, 6000, 120000, false,
         "indexing through not-null and nullable raw pointers and use as keys of ordered and unordered sets, against raw pointers; non-trivial: two or more distinct pointers") {
  int a[16];
  for (int k = 0; k < 16; k++) a[k] = k * 7;
  size_t n = c.size(1, 12);
  std::set<int*> ref;
  std::set<rst::NotNull<int*>> os;
  std::unordered_set<rst::NotNull<int*>> us;
  std::set<rst::Nullable<int*>> ns;
  std::unordered_set<rst::Nullable<int*>> nus;
  for (size_t k = 0; k < n; k++) {
    size_t i = c.draw(16), j = c.draw(16 - i);
    rst::NotNull<int*> p = a + i;
    PBT_CHECK(c, &p[j] == a + i + j, "index %zu of a pointer to element %zu", j, i);
    rst::Nullable<int*> q = p;
    PBT_CHECK(c, q != nullptr && &q[j] == a + i + j, "index through nullable");
    p[j] = p[j] + 1;
    p[j]--;
    rst::NotNull<const int*> r = q;
    PBT_CHECK(c, r[j] == a[i + j], "const");
    ref.insert(a + i);
    os.insert(p);
    us.insert(p);
    ns.insert(q);
    nus.insert(q);
    if (kDebug && c.chance(1, 60)) {
      rst::Nullable<int*> z = c.flip() ? rst::Nullable<int*>(a) : rst::Nullable<int*>(nullptr);
      if (z.get() == nullptr) (void)(z == nullptr);
      expect_stop(c, "indexing an unchecked or null nullable", [&] { pbt::mark(uint64_t(reinterpret_cast<uintptr_t>(&z[j]))); });
    }
  }
  PBT_CHECK(c, os.size() == ref.size() && us.size() == ref.size() && ns.size() == ref.size() && nus.size() == ref.size(), "sets of different sizes");
  auto it = os.begin();
  auto jt = ns.begin();
  for (int* p : ref) {
    PBT_CHECK(c, it->get() == p && jt->get() == p && us.count(p) == 1 && nus.count(p) == 1, "set contents");
    ++it;
    ++jt;
  }
  if (ref.size() > 1) c.nontrivial();
}

SCENARIO(far_indices, 2000, 40000, false, "indices of up to 2^36, often about powers of two, from pointers into a large reservation of address space; non-trivial: over 2^31") {
  constexpr size_t kSpan = size_t(1) << 37;
  static char* const base = static_cast<char*>(mmap(nullptr, kSpan, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (base == MAP_FAILED) return;
  const size_t start = c.draw(size_t(1) << 36);
  size_t i = c.flip() ? (size_t(1) << c.draw(36)) + c.draw(5) - 2 : c.draw(size_t(1) << 36);
  if (i > (size_t(1) << 36)) i = 0;
  c.trace("start %zu, index %zu\n", start, i);
  if (i > (size_t(1) << 31)) c.nontrivial();
  rst::NotNull<char*> p = base + start;
  rst::Nullable<const char*> q = p;
  PBT_CHECK(c, q != nullptr && &p[i] == base + start + i && &q[i] == base + start + i, "another byte");
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of histories, arrays_and_sets; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_histories(t); break;
      default: scenario_arrays_and_sets(t); break;
    }
  });
}
