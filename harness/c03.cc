// C03: moves and assignments transfer contents exactly, for any pair of types
// and from nested sources.
#include "value_model.h"
using namespace vm;
using rst::Value;

namespace {

// Model with "moved-from: unspecified but valid" nodes.
struct N {
  M m;            // scalar part
  bool moved = false;
  std::vector<N> a;
  std::map<std::string, N> o;
};

N lift(const M& m) {
  N n;
  n.m = m;
  n.m.a.clear();
  n.m.o.clear();
  for (auto& x : m.a) n.a.push_back(lift(x));
  for (auto& [k, x] : m.o) n.o.emplace(k, lift(x));
  return n;
}

Value build_n(const N& n) {
  if (n.moved) return Value();
  if (n.m.t == T::kArray) {
    Value::Array a;
    for (auto& x : n.a) a.push_back(build_n(x));
    return Value(std::move(a));
  }
  if (n.m.t == T::kObject) {
    Value::Object o;
    for (auto& [k, x] : n.o) o.emplace(k, build_n(x));
    return Value(std::move(o));
  }
  return build(n.m);
}

std::string diff_n(const Value& v, const N& n, const std::string& at = "$") {
  if (n.moved) return "";
  if (v.type() != n.m.t) return at + ": type " + tname(v.type()) + ", expected " + tname(n.m.t);
  if (n.m.t == T::kArray) {
    if (v.GetArray().size() != n.a.size()) return at + pbt::strf(": array size %zu, expected %zu", v.GetArray().size(), n.a.size());
    for (size_t i = 0; i < n.a.size(); i++) { auto d = diff_n(v.GetArray()[i], n.a[i], at + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
    return "";
  }
  if (n.m.t == T::kObject) {
    auto it = n.o.begin();
    if (v.GetObject().size() != n.o.size()) return at + pbt::strf(": object size %zu, expected %zu", v.GetObject().size(), n.o.size());
    for (auto& [k, x] : v.GetObject()) {
      if (it->first != k) return at + ": key " + pbt::quote(k);
      auto d = diff_n(x, it->second, at + "." + pbt::quote(k, 20));
      if (!d.empty()) return d;
      ++it;
    }
    return "";
  }
  return diff(v, n.m, at);
}

std::string show_n(const N& n) {
  if (n.moved) return "<moved>";
  if (n.m.t == T::kArray) { std::string r = "["; for (auto& x : n.a) { if (r.size() > 1) r += ","; if (r.size() > 300) break; r += show_n(x); } return r + "]"; }
  if (n.m.t == T::kObject) { std::string r = "{"; for (auto& [k, x] : n.o) { if (r.size() > 1) r += ","; if (r.size() > 300) break; r += pbt::quote(k, 20) + ":" + show_n(x); } return r + "}"; }
  return show(n.m);
}

struct Node { N* n; Value* v; size_t parent; size_t root; };

void collect(N& n, Value& v, size_t parent, size_t root, std::vector<Node>* out) {
  size_t me = out->size();
  out->push_back({&n, &v, parent, root});
  if (n.moved) return;
  if (n.m.t == T::kArray) {
    for (size_t i = 0; i < n.a.size(); i++) collect(n.a[i], v.GetArray()[i], me, root, out);
  } else if (n.m.t == T::kObject) {
    for (auto& [k, x] : n.o) { auto it = v.GetObject().find(k); if (it == v.GetObject().end()) abort(); collect(x, it->second, me, root, out); }
  }
}

bool is_ancestor(const std::vector<Node>& ns, size_t a, size_t d) {
  for (size_t i = d; i != SIZE_MAX; i = ns[i].parent) if (i == a) return true;
  return false;
}

N take(N& src) {
  N r = std::move(src);
  src = N();
  src.moved = true;
  return r;
}

}  // namespace

SCENARIO(moves, 120000, 4000000, false,
         "random histories of move-construct, move-assign, swap, container insert/erase and key set between random nodes of several trees, including sources nested in the target; contents compared with a model after each step, allocation balance at the end; non-trivial: at least one assignment changed the target's type or came from a descendant") {
  const int64_t live0 = alloc::now().live;
  {
    std::vector<N> ns;
    std::vector<std::unique_ptr<Value>> vs;
    size_t roots = c.size(1, 3);
    for (size_t i = 0; i < roots; i++) {
      ns.push_back(lift(gen(c, 3)));
      vs.push_back(std::make_unique<Value>(build_n(ns.back())));
      c.trace("v%zu = %s\n", i, show_n(ns.back()).c_str());
    }
    size_t steps = c.size(1, 12);
    for (size_t step = 0; step < steps; step++) {
      std::vector<Node> all;
      for (size_t i = 0; i < ns.size(); i++) collect(ns[i], *vs[i], SIZE_MAX, i, &all);
      size_t di = c.draw(all.size()), si = c.draw(all.size());
      // Bias to descendants of the target.
      if (c.weighted({3, 2}) == 1) {
        std::vector<size_t> desc;
        for (size_t k = 0; k < all.size(); k++) if (k != di && is_ancestor(all, di, k)) desc.push_back(k);
        if (!desc.empty()) si = desc[c.draw(desc.size())];
      }
      Node d = all[di], s = all[si];
      const bool from_desc = di != si && is_ancestor(all, di, si);
      const bool cyclic = is_ancestor(all, si, di);  // includes self
      auto note = [&](const char* what) {
        c.trace("%s: %s <- %s%s\n", what, show_n(*d.n).c_str(), show_n(*s.n).c_str(), from_desc ? " (from descendant)" : "");
        c.label(what);
        if (from_desc) { c.label("from descendant"); c.nontrivial(); }
        if (!d.n->moved && !s.n->moved && d.n->m.t != s.n->m.t) { c.label("type change"); c.nontrivial(); }
      };
      switch (c.weighted({6, 2, 2, 2, 2, 1, 2, 2})) {
        case 0: {  // dst = std::move(src)
          if (cyclic || s.n->moved) break;
          note("assign");
          N t = take(*s.n);
          *d.v = std::move(*s.v);
          *d.n = std::move(t);
          break;
        }
        case 1: {  // move-construct a new root
          if (s.n->moved) break;
          c.trace("construct from %s\n", show_n(*s.n).c_str());
          c.label("construct");
          N t = take(*s.n);
          auto nv = std::make_unique<Value>(std::move(*s.v));
          ns.push_back(std::move(t));
          vs.push_back(std::move(nv));
          break;
        }
        case 2: {  // swap unrelated nodes
          if (cyclic || from_desc || s.n->moved || d.n->moved) break;
          note("swap");
          std::swap(*d.v, *s.v);
          std::swap(*d.n, *s.n);
          break;
        }
        case 3: {  // fresh value
          M m = gen(c, 2);
          c.trace("fresh %s <- %s\n", show_n(*d.n).c_str(), show(m).c_str());
          if (d.n->moved) c.label("reassign moved-from");
          *d.v = build(m);
          *d.n = lift(m);
          break;
        }
        case 4: {  // insert into array (reallocations move elements)
          if (d.n->moved || d.n->m.t != T::kArray) break;
          size_t pos = c.draw(d.n->a.size() + 1);
          if (!s.n->moved && !cyclic && !from_desc && c.flip()) {
            note("insert moved");
            Value tmp(std::move(*s.v));
            N t = take(*s.n);
            d.v->GetArray().insert(d.v->GetArray().begin() + long(pos), std::move(tmp));
            d.n->a.insert(d.n->a.begin() + long(pos), std::move(t));
          } else {
            M m = gen(c, 1);
            c.trace("insert at %zu: %s\n", pos, show(m).c_str());
            c.label("insert fresh");
            d.v->GetArray().insert(d.v->GetArray().begin() + long(pos), build(m));
            d.n->a.insert(d.n->a.begin() + long(pos), lift(m));
          }
          break;
        }
        case 5: {  // erase from array
          if (d.n->moved || d.n->m.t != T::kArray || d.n->a.empty()) break;
          size_t pos = c.draw(d.n->a.size());
          c.trace("erase %zu of %s\n", pos, show_n(*d.n).c_str());
          c.label("erase");
          d.v->GetArray().erase(d.v->GetArray().begin() + long(pos));
          d.n->a.erase(d.n->a.begin() + long(pos));
          break;
        }
        case 6: {  // SetKey with a moved value, maybe nested in the entry it replaces
          if (d.n->moved || d.n->m.t != T::kObject || s.n->moved || cyclic) break;
          std::string k = !d.n->o.empty() && c.flip() ? std::next(d.n->o.begin(), long(c.draw(d.n->o.size())))->first : gen_key(c);
          note("set key moved");
          c.trace("  key %s\n", pbt::quote(k).c_str());
          auto it = d.n->o.find(k);
          const bool same = it != d.n->o.end() && &it->second == s.n;
          if (same) break;  // Moving an entry onto itself.
          N t = take(*s.n);
          d.v->SetKey(std::string(k), std::move(*s.v));
          d.n->o[k] = std::move(t);
          break;
        }
        default: {  // destroy a root
          if (ns.size() < 2) break;
          size_t r = c.draw(ns.size());
          c.trace("destroy root %zu\n", r);
          c.label("destroy");
          ns.erase(ns.begin() + long(r));
          vs.erase(vs.begin() + long(r));
          break;
        }
      }
      for (size_t i = 0; i < ns.size(); i++) {
        auto df = diff_n(*vs[i], ns[i]);
        PBT_CHECK(c, df.empty(), "after step %zu root %zu: %s", step, i, df.c_str());
      }
    }
  }
  const int64_t live1 = alloc::now().live;
  PBT_CHECK(c, live0 == live1, "allocation balance %lld", static_cast<long long>(live1 - live0));
}

SCENARIO(type_pairs, 40000, 800000, false,
         "every (previous type, new type) pair for construct/assign, chained; non-trivial: always (distinct contents)") {
  const int64_t live0 = alloc::now().live;
  {
    M a = gen(c, 2), b = gen(c, 2);
    c.trace("%s -> %s\n", show(a).c_str(), show(b).c_str());
    c.nontrivial();
    c.label(pbt::strf("%s<-%s", tname(a.t), tname(b.t)).c_str());
    Value va = build(a), vb = build(b);
    va = std::move(vb);
    auto d = diff(va, b);
    PBT_CHECK(c, d.empty(), "assign: %s", d.c_str());
    vb = build(a);
    d = diff(vb, a);
    PBT_CHECK(c, d.empty(), "reassign moved-from: %s", d.c_str());
    Value vc(std::move(vb));
    d = diff(vc, a);
    PBT_CHECK(c, d.empty(), "construct: %s", d.c_str());
    vb = std::move(va);
    d = diff(vb, b);
    PBT_CHECK(c, d.empty(), "second hop: %s", d.c_str());
    auto f = [](Value x) { return x; };
    Value vd = f(std::move(vb));
    d = diff(vd, b);
    PBT_CHECK(c, d.empty(), "by value: %s", d.c_str());
    std::vector<Value> vec;
    for (size_t i = 0, n = c.size(1, 6); i < n; i++) vec.push_back(build(i % 2 ? a : b));
    for (size_t i = 0; i < vec.size(); i++) { d = diff(vec[i], i % 2 ? a : b); PBT_CHECK(c, d.empty(), "vector element %zu: %s", i, d.c_str()); }
    Value def(a.t);
    PBT_CHECK(c, def.type() == a.t, "default of type");
    M md;
    md.t = a.t;
    d = diff(def, md);
    PBT_CHECK(c, d.empty(), "default of type %s: %s", tname(a.t), d.c_str());
    def = std::move(vd);
    d = diff(def, b);
    PBT_CHECK(c, d.empty(), "assign over default: %s", d.c_str());
  }
  PBT_CHECK(c, live0 == alloc::now().live, "allocation balance");
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of moves, type_pairs; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_moves(t); break;
      default: scenario_type_pairs(t); break;
    }
  });
}
