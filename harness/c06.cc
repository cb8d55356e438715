// C06: preferences against a model of registered defaults over a nested store.
#include <memory>

#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "amount.h"
#include "value_model.h"
using namespace vm;
using rst::Value;

namespace {
enum Kind { kBool, kInt, kDouble, kString, kArray, kObject, kKinds };
const char* const kNames[] = {"bool", "int", "double", "string", "array", "object"};

T type_of(Kind k) {
  switch (k) {
    case kBool: return T::kBool;
    case kInt: case kDouble: return T::kNumber;
    case kString: return T::kString;
    case kArray: return T::kArray;
    default: return T::kObject;
  }
}

std::vector<std::string> split(const std::string& path) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : path) { if (ch == '.') { r.push_back(cur); cur.clear(); } else cur += ch; }
  r.push_back(cur);
  return r;
}

bool related(const std::string& a, const std::string& b) {
  auto x = split(a), y = split(b);
  for (size_t i = 0; i < x.size() && i < y.size(); i++) if (x[i] != y[i]) return false;
  return true;
}

M* find_path(M& root, const std::string& path) {
  M* cur = &root;
  for (auto& p : split(path)) {
    if (cur->t != T::kObject) return nullptr;
    auto it = cur->o.find(p);
    if (it == cur->o.end()) return nullptr;
    cur = &it->second;
  }
  return cur;
}

void set_path(M& root, const std::string& path, M v) {
  auto parts = split(path);
  M* cur = &root;
  for (size_t i = 0; i + 1 < parts.size(); i++) {
    M& next = cur->o[parts[i]];
    if (next.t != T::kObject) { next = M(); next.t = T::kObject; }
    cur = &next;
  }
  cur->o[parts.back()] = std::move(v);
}

M gen_kind(Ctx& c, Kind k) {
  M m;
  m.t = type_of(k);
  switch (k) {
    case kBool: m.b = c.flip(); break;
    case kInt: m.n = double(int32_t(uint32_t(uint64_t(pbt::gen_int(c))))); break;
    case kDouble: m.n = pbt::gen_finite(c); break;
    case kString: m.s = pbt::gen_bytes(c, 40); break;
    case kArray: { size_t n = c.size(0, 3); for (size_t i = 0; i < n; i++) m.a.push_back(gen(c, 1)); break; }
    default: { size_t n = c.size(0, 3); for (size_t i = 0; i < n; i++) { auto key = gen_key(c); m.o[key] = gen(c, 1); } }
  }
  return m;
}

std::string gen_pref_path(Ctx& c) {
  static const char* const kFixed[] = {"a", "b", "a.b", "a.c", "a.b.c", "b.a", "aa", "a.bb", "ab", "", ".", "a.", ".a", "x.y.z.w", "x.y.z", "x.y.q", "int.preference"};
  if (c.weighted({3, 1}) == 0) return c.pick(kFixed);
  size_t n = c.size(1, 4);
  std::string p;
  for (size_t i = 0; i < n; i++) { if (i) p += '.'; p += gen_key(c); }
  return p;
}

struct Record {
  std::vector<std::string> sets, gets;
};

// A store of its own kind: keeps the values, and what it was asked.
class Store final : public rst::PreferencesStore {
 public:
  Store(Record* r, rst::PreferencesStore* inner) : r_(r), inner_(inner) {}
  rst::Nullable<const Value*> GetValue(std::string_view p) const override { r_->gets.emplace_back(p); return inner_->GetValue(p); }
  void SetValue(std::string_view p, Value&& v) override { r_->sets.emplace_back(p); inner_->SetValue(p, std::move(v)); }
 private:
  Record* r_;
  rst::PreferencesStore* inner_;
};

struct View {
  std::string buf;
  size_t n;
  View(Ctx& c, const std::string& s) : buf(s), n(s.size()) { if (c.flip()) buf += ".tail"; }
  std::string_view operator()() const { return std::string_view(buf.data(), n); }
};

void do_register(rst::Preferences& p, Kind k, std::string path, const M& m) {
  Value v = build(m);
  switch (k) {
    case kBool: p.RegisterBoolPreference(std::move(path), m.b); break;
    case kInt: p.RegisterIntPreference(std::move(path), int(m.n)); break;
    case kDouble: p.RegisterDoublePreference(std::move(path), m.n); break;
    case kString: p.RegisterStringPreference(std::move(path), std::string(m.s)); break;
    case kArray: p.RegisterArrayPreference(std::move(path), std::move(v.GetArray())); break;
    default: p.RegisterObjectPreference(std::move(path), std::move(v.GetObject())); break;
  }
}

void do_set(rst::Preferences& p, Kind k, std::string_view path, const M& m) {
  Value v = build(m);
  switch (k) {
    case kBool: p.SetBool(path, m.b); break;
    case kInt: p.SetInt(path, int(m.n)); break;
    case kDouble: p.SetDouble(path, m.n); break;
    case kString: p.SetString(path, std::string(m.s)); break;
    case kArray: p.SetArray(path, std::move(v.GetArray())); break;
    default: p.SetObject(path, std::move(v.GetObject())); break;
  }
}

std::string do_get(const rst::Preferences& p, Kind k, std::string_view path, const M& want) {
  Value got;
  switch (k) {
    case kBool: got = Value(p.GetBool(path)); break;
    case kInt: got = Value(p.GetInt(path)); break;
    case kDouble: got = Value(p.GetDouble(path)); break;
    case kString: got = Value(std::string(p.GetString(path))); break;
    case kArray: got = Value(Value::Clone(p.GetArray(path))); break;
    default: got = Value(Value::Clone(p.GetObject(path))); break;
  }
  return diff(got, want);
}

struct Pref { std::string path; Kind k; M def; bool set = false; M last; bool tainted = false; };
}  // namespace

SCENARIO(preference_history, 120000, 4000000, false,
         "histories of registrations, reads, sets and foreign store writes over related and unrelated dotted paths against a map model; "
         "non-trivial: at least one read of a set value and one of a default") {
  auto* mem = new rst::MemoryPreferencesStore();
  std::unique_ptr<rst::PreferencesStore> owner(mem);
  Record rec;
  const bool recording = c.flip();
  std::unique_ptr<rst::PreferencesStore> inner;
  std::unique_ptr<rst::Preferences> prefs;
  M model;
  model.t = T::kObject;
  std::vector<Pref> ps;
  auto taint = [&](const std::string& path, const std::string* except) {
    for (auto& p : ps) if (related(p.path, path) && !(except && p.path == *except)) p.tainted = true;
  };
  // Values already in the store.
  size_t pre = c.weighted({3, 2, 1});
  std::vector<std::pair<std::string, std::pair<Kind, M>>> initial;
  for (size_t i = 0; i < pre; i++) {
    auto path = gen_pref_path(c);
    Kind k = Kind(c.draw(kKinds));
    M m = gen_kind(c, k);
    c.trace("store[%s] = %s beforehand\n", pbt::quote(path).c_str(), show(m).c_str());
    mem->SetValue(path, build(m));
    set_path(model, path, m);
    initial.push_back({path, {k, m}});
  }
  if (recording) {
    inner = std::move(owner);
    prefs = std::make_unique<rst::Preferences>(std::unique_ptr<rst::PreferencesStore>(new Store(&rec, mem)));
  } else {
    prefs = std::make_unique<rst::Preferences>(std::move(owner));
  }
  bool read_set = false, read_def = false;
  auto read = [&](Pref& p) {
    M* stored = find_path(model, p.path);
    if (p.tainted) {
      // Overlapping paths: only what the store itself must say.
      return;
    }
    const M& want = stored ? *stored : p.def;
    if (stored && p.k == kInt && !(std::floor(stored->n) == stored->n && std::fabs(stored->n) < 2147483648.0)) return;
    (stored ? read_set : read_def) = true;
    View v(c, p.path);
    auto d = do_get(*prefs, p.k, v(), want);
    PBT_CHECK(c, d.empty(), "reading %s preference %s (%s): %s", kNames[p.k], pbt::quote(p.path).c_str(), stored ? "set" : "default", d.c_str());
    if (p.set) PBT_CHECK(c, stored != nullptr && cmp(*stored, p.last) == 0, "model error");
  };
  size_t ops = c.size(2, 24);
  for (size_t i = 0; i < ops; i++) {
    size_t op = c.weighted({4, 6, 6, 1, 2});
    if (op == 0 || ps.empty()) {
      std::string path = gen_pref_path(c);
      Kind k = Kind(c.draw(kKinds));
      if (!initial.empty() && c.draw(3) == 2) { auto& x = initial[c.draw(initial.size())]; path = x.first; k = x.second.first; }
      bool dup = false;
      for (auto& p : ps) if (p.path == path) dup = true;
      if (dup) continue;
      Pref p{path, k, gen_kind(c, k), false, M(), false};
      // Overlap with what was there, or a stored value of another type.
      for (auto& q : ps) if (related(q.path, path)) { p.tainted = true; q.tainted = true; }
      for (auto& x : initial) if (related(x.first, path) && x.first != path) p.tainted = true;
      M* stored = find_path(model, path);
      if (stored && stored->t != type_of(k)) p.tainted = true;
      c.trace("register %s %s default %s%s\n", kNames[k], pbt::quote(path).c_str(), show(p.def).c_str(), p.tainted ? " (overlapping)" : "");
      do_register(*prefs, k, path, p.def);
      ps.push_back(p);
    } else if (op == 1) {
      Pref& p = ps[c.draw(ps.size())];
      M m = gen_kind(c, p.k);
      c.trace("set %s = %s\n", pbt::quote(p.path).c_str(), show(m).c_str());
      View v(c, p.path);
      size_t before = rec.sets.size();
      do_set(*prefs, p.k, v(), m);
      if (recording) {
        PBT_CHECK(c, rec.sets.size() == before + 1 && rec.sets.back() == p.path, "set of %s reached the store %zu times, as %s", pbt::quote(p.path).c_str(), rec.sets.size() - before,
                  rec.sets.empty() ? "" : pbt::quote(rec.sets.back()).c_str());
      }
      taint(p.path, &p.path);
      set_path(model, p.path, m);
      p.set = true;
      p.last = m;
      auto seen = static_cast<const rst::MemoryPreferencesStore*>(mem)->GetValue(p.path);
      PBT_CHECK(c, seen != nullptr, "the store has nothing under %s after a set", pbt::quote(p.path).c_str());
      auto d = diff(*seen, m);
      PBT_CHECK(c, d.empty(), "the store under %s: %s", pbt::quote(p.path).c_str(), d.c_str());
    } else if (op == 2) {
      c.trace("read one\n");
      read(ps[c.draw(ps.size())]);
    } else if (op == 3) {
      // Another writer of the same store.
      Pref& p = ps[c.draw(ps.size())];
      M m = gen_kind(c, p.k);
      c.trace("store[%s] = %s\n", pbt::quote(p.path).c_str(), show(m).c_str());
      mem->SetValue(p.path, build(m));
      taint(p.path, &p.path);
      set_path(model, p.path, m);
      p.set = true;
      p.last = m;
    } else {
      c.trace("read all\n");
      for (auto& p : ps) read(p);
    }
  }
  for (auto& p : ps) read(p);
  // Every path any reader can ask for.
  for (auto& p : ps) {
    M* stored = find_path(model, p.path);
    auto seen = mem->GetValue(p.path);
    const bool has = seen != nullptr;
    PBT_CHECK(c, has == (stored != nullptr), "store presence of %s: %d, expected %d", pbt::quote(p.path).c_str(), has, stored != nullptr);
    if (has) { auto d = diff(*seen, *stored); PBT_CHECK(c, d.empty(), "store at %s: %s", pbt::quote(p.path).c_str(), d.c_str()); }
  }
  auto extra = gen_pref_path(c);
  auto seen = mem->GetValue(extra);
  const bool has = seen != nullptr;
  PBT_CHECK(c, has == (find_path(model, extra) != nullptr), "store presence of unrelated %s: %d", pbt::quote(extra).c_str(), has);
  for (auto& [k, m] : model.o) {
    if (k.find('.') != std::string::npos) continue;
    auto top = mem->GetValue(k);
    PBT_CHECK(c, top != nullptr, "top level key %s missing", pbt::quote(k).c_str());
    auto d = diff(*top, m);
    PBT_CHECK(c, d.empty(), "top level key %s: %s", pbt::quote(k).c_str(), d.c_str());
  }
  if (read_set && read_def) c.nontrivial();
}

#ifndef NDEBUG
SCENARIO(preference_misuse, 3000, 80000, false,
         "double registration, unregistered paths and every wrong type, in random histories, must stop the process; the legal call must not; non-trivial: illegal call") {
  std::vector<Pref> ps;
  size_t n = c.size(1, 4);
  for (size_t i = 0; i < n; i++) {
    Pref p{gen_pref_path(c), Kind(c.draw(kKinds)), M(), false, M(), false};
    p.def = gen_kind(c, p.k);
    bool bad = false;
    for (auto& q : ps) if (related(q.path, p.path)) bad = true;
    if (!bad) ps.push_back(p);
  }
  size_t which = c.draw(ps.size());
  const bool set_first = c.flip();
  size_t op = c.draw(5);
  Kind other = Kind(c.draw(kKinds));
  std::string unreg = gen_pref_path(c);
  if (c.flip()) unreg = ps[which].path + (c.flip() ? "." : "x");
  if (c.draw(4) == 3 && !ps[which].path.empty()) unreg = ps[which].path.substr(0, ps[which].path.size() - 1);
  bool registered = false;
  for (auto& q : ps) if (q.path == unreg) registered = true;
  M m = gen_kind(c, other);
  const Pref& p = ps[which];
  const bool same_type = type_of(other) == type_of(p.k);
  const bool number_ok = p.k == other || (p.k == kInt && other == kDouble);
  bool legal;
  switch (op) {
    case 0: legal = false; break;                       // Register again.
    case 1: if (registered) return; legal = false; break;  // Read unregistered.
    case 2: if (registered) return; legal = false; break;  // Set unregistered.
    case 3: legal = same_type; if (same_type && !number_ok) return; break;
    default: legal = same_type; break;
  }
  if (!legal) c.nontrivial();
  c.label(legal ? "legal" : "illegal");
  c.trace("op %zu on %s preference %s as %s, other path %s\n", op, kNames[p.k], pbt::quote(p.path).c_str(), kNames[other], pbt::quote(unreg).c_str());
  auto d = pbt::run_forked([&] {
    rst::Preferences prefs(std::make_unique<rst::MemoryPreferencesStore>());
    for (auto& q : ps) do_register(prefs, q.k, q.path, q.def);
    if (set_first) do_set(prefs, p.k, p.path, p.def);
    pbt::mark(1);
    switch (op) {
      case 0: do_register(prefs, other, p.path, m); break;
      case 1: do_get(prefs, other, unreg, m); break;
      case 2: do_set(prefs, other, unreg, m); break;
      case 3: do_get(prefs, other, p.path, m); break;
      default: do_set(prefs, other, p.path, m); break;
    }
  });
  PBT_CHECK(c, d.progress == 1 && (legal ? d.survived() : d.aborted()), "op %zu on %s preference %s as %s (other path %s): %s", op, kNames[p.k], pbt::quote(p.path).c_str(), kNames[other],
            pbt::quote(unreg).c_str(), d.describe().c_str());
}
#endif

SCENARIO(held_references, 20000, 600000, false,
         "strings, arrays and objects obtained by reference from one to three preferences objects and kept over reads and sets of other preferences: they still show what "
         "they showed; non-trivial: two references held over a set") {
  struct Item { std::string path; Kind k; M now; const void* held = nullptr; };
  const size_t np = 1 + c.weighted({3, 1, 1});
  std::vector<std::unique_ptr<rst::Preferences>> prefs;
  std::vector<std::vector<Item>> items(np);
  for (size_t q = 0; q < np; q++) {
    prefs.push_back(std::make_unique<rst::Preferences>(std::make_unique<rst::MemoryPreferencesStore>()));
    const size_t n = 1 + c.size(1, 7);
    for (size_t i = 0; i < n; i++) {
      Item it;
      it.path = (c.flip() ? "p" : "g" + std::to_string(c.draw(3)) + ".p") + std::to_string(i);
      it.k = Kind(c.weighted({1, 1, 1, 4, 3, 3}));
      it.now = gen_kind(c, it.k);
      do_register(*prefs[q], it.k, it.path, it.now);
      items[q].push_back(it);
    }
  }
  auto address = [&](size_t q, const Item& it) -> const void* {
    switch (it.k) {
      case kString: return &prefs[q]->GetString(it.path);
      case kArray: return &prefs[q]->GetArray(it.path);
      default: return &prefs[q]->GetObject(it.path);
    }
  };
  auto check = [&](const Item& it) {
    if (it.held == nullptr) return;
    Value got;
    switch (it.k) {
      case kString: got = Value(std::string(*static_cast<const std::string*>(it.held))); break;
      case kArray: got = Value(Value::Clone(*static_cast<const Value::Array*>(it.held))); break;
      default: got = Value(Value::Clone(*static_cast<const Value::Object*>(it.held))); break;
    }
    auto d = diff(got, it.now);
    PBT_CHECK(c, d.empty(), "the kept %s of %s: %s", kNames[it.k], it.path.c_str(), d.c_str());
  };
  auto check_all = [&] { for (auto& v : items) for (auto& it : v) check(it); };
  size_t held = 0, sets = 0;
  const size_t ops = c.size(2, 20);
  for (size_t i = 0; i < ops; i++) {
    const size_t q = c.draw(np);
    Item& it = items[q][c.draw(items[q].size())];
    if (c.weighted({3, 2}) == 0) {
      c.trace("read %zu:%s\n", q, it.path.c_str());
      if (it.k < kString) { auto d = do_get(*prefs[q], it.k, it.path, it.now); PBT_CHECK(c, d.empty(), "%s: %s", it.path.c_str(), d.c_str()); }
      else {
        const void* a = address(q, it);
        if (it.held == nullptr) held++;
        it.held = a;
      }
    } else {
      // What was held of this one is gone; of its neighbours it is not.
      it.now = gen_kind(c, it.k);
      it.held = nullptr;
      c.trace("set %zu:%s = %s\n", q, it.path.c_str(), show(it.now).c_str());
      do_set(*prefs[q], it.k, it.path, it.now);
      if (held >= 2) sets++;
    }
    check_all();
  }
  for (size_t q = 0; q < np; q++) for (auto& it : items[q]) if (it.k >= kString) it.held = address(q, it);
  check_all();
  if (held >= 2 && sets) c.nontrivial();
}

SCENARIO(many_preferences, 150, 4000, false,
         "up to 5000 registered preferences, often about 2^8, of all types with some set, in several orders; every one read back; non-trivial: more than 250") {
  const size_t n = c.weighted({2, 1}) == 0 ? c.size(1, 300) : 250 + c.size(0, c.chance(1, 8) ? 5000 : 12);
  const uint64_t salt = c.draw(1000);
  const bool flat = c.flip();
  c.trace("%zu preferences, salt %llu, %s\n", n, (unsigned long long)salt, flat ? "flat" : "nested");
  if (n > 250) c.nontrivial();
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  std::vector<std::string> paths;
  std::vector<M> want;
  auto value = [](uint64_t h, Kind k) {
    M m;
    m.t = type_of(k);
    if (k == kBool) m.b = h & 1;
    else if (k == kInt || k == kDouble) m.n = double(int32_t(h >> 9)) ;
    else if (k == kString) m.s = std::to_string(h);
    return m;
  };
  for (size_t i = 0; i < n; i++) {
    const uint64_t h = pbt::hash64(i * 7919 + salt);
    paths.push_back((flat ? std::string("p") : "g" + std::to_string(h % 17) + ".h" + std::to_string(h % 5) + ".p") + std::to_string(i));
    const Kind k = Kind(h % 6);
    want.push_back(value(h, k));
    do_register(p, k, paths[i], want[i]);
  }
  auto kind = [&](size_t i) { return Kind(pbt::hash64(i * 7919 + salt) % 6); };
  for (size_t i = 0; i < n; i++) {
    const uint64_t h = pbt::hash64(i * 104729 + salt);
    if (h % 3 == 0) { want[i] = value(h, kind(i)); do_set(p, kind(i), paths[i], want[i]); }
  }
  for (size_t i = 0; i < n; i++) {
    auto d = do_get(p, kind(i), paths[i], want[i]);
    PBT_CHECK(c, d.empty(), "preference %zu of %zu: %s", i, n, d.c_str());
  }
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of preference_history; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_preference_history(t);
  });
}

SCENARIO(shared, 300, 10000, false,
         "preferences, some of them set, that 2 to 4 threads read at the same time; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  const size_t n = c.size(1, 12);
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  std::vector<std::string> paths;
  std::vector<Kind> kinds;
  std::vector<M> want;
  auto value = [](Ctx& c, Kind k) {
    M m;
    m.t = type_of(k);
    if (k == kBool) m.b = c.flip();
    else if (k == kInt || k == kDouble) m.n = double(int32_t(c.draw(1u << 20)));
    else if (k == kString) m.s = pbt::gen_bytes(c, 40);
    return m;
  };
  for (size_t i = 0; i < n; i++) {
    paths.push_back((c.flip() ? "p" : "g" + std::to_string(c.draw(3)) + ".p") + std::to_string(i));
    kinds.push_back(Kind(c.draw(kKinds)));
    want.push_back(value(c, kinds[i]));
    do_register(p, kinds[i], paths[i], want[i]);
  }
  for (size_t i = 0; i < n; i++)
    if (c.flip()) { want[i] = value(c, kinds[i]); do_set(p, kinds[i], paths[i], want[i]); }
  pbt::in_threads_i(c, 20, [&](Ctx& t, int) {
    const size_t i = t.draw(n);
    auto d = do_get(p, kinds[i], paths[i], want[i]);
    PBT_CHECK(t, d.empty(), "preference %zu of %zu: %s", i, n, d.c_str());
  });
}
