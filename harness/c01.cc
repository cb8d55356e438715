// C01: an object value behaves as a nested map under keys and dotted paths.
#include <climits>

#include "value_model.h"
using namespace vm;
using rst::Value;

namespace {

std::vector<std::string> split(const std::string& path) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : path) { if (ch == '.') { r.push_back(cur); cur.clear(); } else cur += ch; }
  r.push_back(cur);
  return r;
}

// Model lookups.
M* find_path(M& root, const std::string& path) {
  auto parts = split(path);
  M* cur = &root;
  for (size_t i = 0; i < parts.size(); i++) {
    if (cur->t != T::kObject) return nullptr;
    auto it = cur->o.find(parts[i]);
    if (it == cur->o.end()) return nullptr;
    cur = &it->second;
  }
  return cur;
}

void set_path(M& root, const std::string& path, M v) {
  auto parts = split(path);
  M* cur = &root;
  for (size_t i = 0; i + 1 < parts.size(); i++) {
    M& next = cur->o[parts[i]];
    if (next.t != T::kObject) { next = M(); next.t = T::kObject; }
    cur = &next;
  }
  cur->o[parts.back()] = std::move(v);
}

std::string gen_path(Ctx& c) {
  size_t n = 1 + c.weighted({3, 4, 3, 2, 1, 1});
  std::string p;
  for (size_t i = 0; i < n; i++) {
    if (i) p += '.';
    std::string k = gen_key(c);
    // Components are the text between dots; keys with dots add components.
    p += k;
  }
  return p;
}

// A view into a larger buffer, so that reading past the end would show.
struct View {
  std::string buf;
  size_t n;
  View(Ctx& c, const std::string& s) : buf(s), n(s.size()) { if (c.flip()) buf += ".tail"; }
  std::string_view operator()() const { return std::string_view(buf.data(), n); }
};

bool is_int64(double d) { return std::fabs(d) <= 9007199254740991.0 && std::floor(d) == d; }
bool is_int(double d) { return d >= INT_MIN && d <= INT_MAX && std::floor(d) == d; }

template <class P>
const Value* raw(const P& p) { return p == nullptr ? nullptr : p.get(); }

void check_key_lookups(Ctx& c, Value& obj, const M& m, const std::string& key) {
  View kv(c, key);
  auto it = m.o.find(key);
  const M* e = it == m.o.end() ? nullptr : &it->second;
  const Value& cobj = obj;
  const Value* stored = nullptr;
  for (auto& [k, v] : cobj.GetObject()) if (k == key) stored = &v;
  PBT_CHECK(c, (stored != nullptr) == (e != nullptr), "key %s presence", pbt::quote(key).c_str());
  PBT_CHECK(c, raw(cobj.FindKey(kv())) == stored, "const key lookup of %s", pbt::quote(key).c_str());
  PBT_CHECK(c, raw(obj.FindKey(kv())) == stored, "mutable key lookup of %s", pbt::quote(key).c_str());
  for (int t = 0; t < 6; t++) {
    const Value* want = e && e->t == T(t) ? stored : nullptr;
    PBT_CHECK(c, raw(cobj.FindKeyOfType(kv(), T(t))) == want, "typed lookup of %s as %s", pbt::quote(key).c_str(), tname(T(t)));
    PBT_CHECK(c, raw(obj.FindKeyOfType(kv(), T(t))) == want, "mutable typed lookup of %s as %s", pbt::quote(key).c_str(), tname(T(t)));
  }
  auto b = cobj.FindBoolKey(kv());
  PBT_CHECK(c, b.has_value() == (e && e->t == T::kBool) && (!b || *b == e->b), "bool lookup");
  const bool num = e && e->t == T::kNumber;
  auto d = cobj.FindDoubleKey(kv());
  PBT_CHECK(c, d.has_value() == num && (!d || bits(*d) == bits(e->n)), "double lookup");
  auto i64 = cobj.FindInt64Key(kv());
  PBT_CHECK(c, i64.has_value() == (num && is_int64(e->n)) && (!i64 || double(*i64) == e->n), "int64 lookup of %.17g", num ? e->n : 0);
  auto i32 = cobj.FindIntKey(kv());
  PBT_CHECK(c, i32.has_value() == (num && is_int(e->n)) && (!i32 || double(*i32) == e->n), "int lookup of %.17g", num ? e->n : 0);
  auto s = cobj.FindStringKey(kv());
  const bool str = e && e->t == T::kString;
  PBT_CHECK(c, (s != nullptr) == str, "string lookup presence");
  if (str) PBT_CHECK(c, s.get() == &stored->GetString() && *s == e->s, "string lookup content");
  PBT_CHECK(c, raw(cobj.FindArrayKey(kv())) == (e && e->t == T::kArray ? stored : nullptr), "array lookup");
  PBT_CHECK(c, raw(cobj.FindObjectKey(kv())) == (e && e->t == T::kObject ? stored : nullptr), "object lookup");
  if (e) c.label("lookup hit"); else c.label("lookup miss");
}

// The stored value at a path, found by walking the public containers.
const Value* walk(const Value& root, const std::string& path) {
  const Value* cur = &root;
  for (auto& p : split(path)) {
    if (!cur->IsObject()) return nullptr;
    const Value* next = nullptr;
    for (auto& [k, v] : cur->GetObject()) if (k == p) next = &v;
    if (!next) return nullptr;
    cur = next;
  }
  return cur;
}

void check_path_lookup(Ctx& c, Value& obj, M& m, const std::string& path) {
  View pv(c, path);
  M* e = find_path(m, path);
  const Value* w = walk(obj, path);
  const Value& cobj = obj;
  const Value* r = raw(cobj.FindPath(pv()));
  PBT_CHECK(c, (r != nullptr) == (e != nullptr), "path lookup of %s %s", pbt::quote(path).c_str(), e ? "misses an existing entry" : "finds a missing entry");
  PBT_CHECK(c, r == w, "path lookup of %s returned another entry", pbt::quote(path).c_str());
  PBT_CHECK(c, raw(obj.FindPath(pv())) == w, "mutable path lookup of %s", pbt::quote(path).c_str());
  c.label(e ? "path hit" : "path miss");
}

// Collects pointers to all object nodes (model and value in step).
void objects(M& m, Value& v, std::vector<std::pair<M*, Value*>>* out, std::vector<std::pair<M*, Value*>>* all) {
  if (all) all->push_back({&m, &v});
  if (m.t == T::kObject) {
    out->push_back({&m, &v});
    for (auto& [k, x] : m.o) { auto it = v.GetObject().find(k); objects(x, it->second, out, all); }
  } else if (m.t == T::kArray) {
    for (size_t i = 0; i < m.a.size(); i++) objects(m.a[i], v.GetArray()[i], out, all);
  }
}

}  // namespace

SCENARIO(value_ops, 200000, 6000000, false,
         "random sequences of set/remove/lookup by key and path and in-place edits on a random node, compared with a nested std::map after every step; non-trivial: a path of 2+ components was set or a key removed or replaced") {
  M root;
  root.t = T::kObject;
  if (c.flip()) { root = gen(c, 3); if (root.t != T::kObject) { root = M(); root.t = T::kObject; } }
  Value v = root.o.empty() && c.flip() ? Value(T::kObject) : build(root);
  c.trace("start %s\n", show(root).c_str());
  const size_t n = c.size(1, 14);
  std::vector<std::string> used_paths, used_keys;
  for (size_t i = 0; i < n; i++) {
    std::vector<std::pair<M*, Value*>> objs, all;
    objects(root, v, &objs, &all);
    auto [m, ob] = objs[c.draw(objs.size())];
    auto key = [&]() -> std::string {
      if (!m->o.empty() && c.weighted({2, 3}) == 1) {
        auto it = m->o.begin();
        std::advance(it, long(c.draw(m->o.size())));
        return it->first;
      }
      return gen_key(c);
    };
    auto path = [&]() -> std::string {
      if (!used_paths.empty() && c.weighted({2, 3}) == 1) {
        std::string p = used_paths[c.draw(used_paths.size())];
        switch (c.draw(5)) {
          case 1: p += "." + gen_key(c); break;
          case 2: if (auto k = p.rfind('.'); k != std::string::npos) p.resize(k); break;
          case 3: if (auto k = p.find('.'); k != std::string::npos) p = p.substr(k + 1); break;
          case 4: p += "."; break;
          default: break;
        }
        return p;
      }
      return gen_path(c);
    };
    switch (c.weighted({5, 3, 5, 3, 3, 2, 1})) {
      case 0: {
        auto k = key();
        M nv = gen(c, 2);
        c.trace("set key %s = %s\n", pbt::quote(k).c_str(), show(nv).c_str());
        if (m->o.count(k)) { c.label("replace key"); c.nontrivial(); }
        auto p = ob->SetKey(std::string(k), build(nv));
        m->o[k] = nv;
        const Value* stored = nullptr;
        for (auto& [kk, x] : ob->GetObject()) if (kk == k) stored = &x;
        PBT_CHECK(c, p.get() == stored, "set key returned a pointer that is not the stored entry");
        check_key_lookups(c, *ob, *m, k);
        break;
      }
      case 1: {
        auto k = key();
        View kv(c, k);
        c.trace("remove key %s\n", pbt::quote(k).c_str());
        bool r = ob->RemoveKey(kv());
        bool want = m->o.erase(k) == 1;
        if (want) { c.nontrivial(); c.label("remove existing"); } else c.label("remove missing");
        PBT_CHECK(c, r == want, "remove of %s returned %d, expected %d", pbt::quote(k).c_str(), r, want);
        check_key_lookups(c, *ob, *m, k);
        break;
      }
      case 2: {
        auto p = path();
        View pv(c, p);
        used_paths.push_back(p);
        M nv = gen(c, 2);
        c.trace("set path %s = %s\n", pbt::quote(p).c_str(), show(nv).c_str());
        if (p.find('.') != std::string::npos) { c.nontrivial(); c.label("multi-component set"); }
        auto r = ob->SetPath(pv(), build(nv));
        set_path(*m, p, nv);
        PBT_CHECK(c, r.get() == walk(*ob, p), "set path returned a pointer that is not the stored entry");
        check_path_lookup(c, *ob, *m, p);
        break;
      }
      case 3: {
        auto k = key();
        check_key_lookups(c, *ob, *m, k);
        break;
      }
      case 4: {
        auto p = path();
        check_path_lookup(c, *ob, *m, p);
        break;
      }
      case 5: {
        // In-place edit of any node through the accessors.
        auto [mm, vv] = all[c.draw(all.size())];
        if (mm == &root) break;
        if (mm->t == T::kString && c.flip()) {
          std::string add = pbt::gen_bytes(c, 20);
          vv->GetString() += add;
          mm->s += add;
          c.trace("append to string\n");
        } else if (mm->t == T::kArray && c.flip()) {
          M nv = gen(c, 1);
          vv->GetArray().push_back(build(nv));
          mm->a.push_back(nv);
          c.trace("append to array\n");
        } else {
          M nv = gen(c, 2);
          *vv = build(nv);
          c.trace("assign node %s\n", show(nv).c_str());
          *mm = nv;
        }
        c.label("in-place edit");
        break;
      }
      default: {
        // Absent views.
        check_key_lookups(c, *ob, *m, std::string());
        PBT_CHECK(c, (ob->FindKey(std::string_view()) != nullptr) == (m->o.count("") == 1), "lookup with a null view");
        break;
      }
    }
    auto d = diff(v, root);
    PBT_CHECK(c, d.empty(), "after step %zu: %s", i, d.c_str());
  }
}

SCENARIO(value_deep_path, 8000, 200000, false,
         "paths of up to 200 components, with empty components; set, find every prefix, overwrite a middle one; non-trivial: at least 10 components") {
  size_t n = c.size(1, 200);
  uint64_t r = c.draw(0);
  std::string p;
  for (size_t i = 0; i < n; i++) {
    if (i) p += '.';
    uint64_t x = pbt::hash64(r + i);
    if (x % 5) p += std::string(x % 3, char('a' + x % 7));
  }
  if (n >= 10) c.nontrivial();
  M root;
  root.t = T::kObject;
  Value v(T::kObject);
  M leaf = gen_scalar(c);
  v.SetPath(p, build(leaf));
  set_path(root, p, leaf);
  c.trace("path of %zu components %s\n", n, pbt::quote(p).c_str());
  auto d = diff(v, root);
  PBT_CHECK(c, d.empty(), "deep set: %s", d.c_str());
  for (size_t i = 0; i <= p.size(); i++)
    if (i == p.size() || p[i] == '.') check_path_lookup(c, v, root, p.substr(0, i));
  check_path_lookup(c, v, root, p + ".");
  check_path_lookup(c, v, root, "." + p);
  // Overwrite in the middle with a scalar, then set below it again.
  size_t cut = c.draw(p.size() + 1);
  std::string q = p.substr(0, cut);
  M sc = gen_scalar(c);
  v.SetPath(q, build(sc));
  set_path(root, q, sc);
  d = diff(v, root);
  PBT_CHECK(c, d.empty(), "overwrite at %s: %s", pbt::quote(q).c_str(), d.c_str());
  v.SetPath(p, build(leaf));
  set_path(root, p, leaf);
  d = diff(v, root);
  PBT_CHECK(c, d.empty(), "set below overwritten: %s", d.c_str());
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of value_ops, value_deep_path; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_value_ops(t); break;
      default: scenario_value_deep_path(t); break;
    }
  });
}

SCENARIO(shared, 400, 12000, false,
         "one value that 2 to 4 threads look into at the same time (typed and path lookups, getters, enumeration), each with sequences of its own; data races found "
         "by TSan; non-trivial: always") {
  c.nontrivial();
  const M root = gen(c, 3);
  const Value v = build(root);
  c.trace("value %s\n", show(root).c_str());
  std::vector<std::string> paths;
  std::function<void(const M&, const std::string&)> walk = [&](const M& m, const std::string& at) {
    if (!at.empty()) paths.push_back(at);
    for (auto& [k, x] : m.o) if (k.find('.') == std::string::npos && !k.empty()) walk(x, at.empty() ? k : at + "." + k);
  };
  walk(root, "");
  auto find_model = [&](const std::string& p) -> const M* {
    const M* m = &root;
    size_t at = 0;
    for (;;) {
      const size_t e = p.find('.', at);
      if (m->t != Value::Type::kObject) return nullptr;
      auto it = m->o.find(p.substr(at, e == std::string::npos ? e : e - at));
      if (it == m->o.end()) return nullptr;
      m = &it->second;
      if (e == std::string::npos) return m;
      at = e + 1;
    }
  };
  pbt::in_threads_i(c, 12, [&](Ctx& t, int) {
    std::string p = !paths.empty() && t.chance(3, 4) ? paths[t.draw(paths.size())] : gen_key(t) + "." + gen_key(t);
    if (t.chance(1, 5)) p += ".x";
    if (root.t == Value::Type::kObject && p.find("..") == std::string::npos && p.front() != '.' && p.back() != '.') {
      auto g = v.FindPath(p);
      const M* want = find_model(p);
      PBT_CHECK(t, (g != nullptr) == (want != nullptr), "FindPath(%s) of a shared value %s", pbt::quote(p).c_str(), g != nullptr ? "found" : "did not find");
      if (g != nullptr) {
        const Value& w = *g;
        auto d = diff(w, *want);
        PBT_CHECK(t, d.empty(), "FindPath(%s): %s", pbt::quote(p).c_str(), d.c_str());
      }
    }
    auto d = diff(v, root);
    PBT_CHECK(t, d.empty(), "shared value: %s", d.c_str());
  });
}
