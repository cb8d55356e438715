// C02: cloning is deep, exact and independent; memory released exactly once.
#include "rst/clone/clone.h"
#include "value_model.h"
using namespace vm;
using rst::Value;

namespace {

void nodes_of(M& m, Value& v, std::vector<std::pair<M*, Value*>>* out) {
  out->push_back({&m, &v});
  if (m.t == T::kObject) {
    for (auto& [k, x] : m.o) { auto it = v.GetObject().find(k); if (it == v.GetObject().end()) abort(); nodes_of(x, it->second, out); }
  } else if (m.t == T::kArray) {
    for (size_t i = 0; i < m.a.size(); i++) nodes_of(m.a[i], v.GetArray()[i], out);
  }
}

// A random in-place mutation of one node.
void mutate(Ctx& c, M& root, Value& v) {
  std::vector<std::pair<M*, Value*>> all;
  nodes_of(root, v, &all);
  auto [m, x] = all[c.draw(all.size())];
  switch (m->t) {
    case T::kString:
      if (c.flip()) { x->GetString() += "!"; m->s += "!"; c.label("append string"); return; }
      if (!m->s.empty()) { x->GetString()[0] ^= 1; m->s[0] ^= 1; c.label("edit string byte"); return; }
      break;
    case T::kArray:
      if (c.flip()) { M nv = gen(c, 1); x->GetArray().push_back(build(nv)); m->a.push_back(nv); c.label("push array"); return; }
      if (!m->a.empty()) {
        size_t i = c.draw(m->a.size());
        x->GetArray().erase(x->GetArray().begin() + long(i));
        m->a.erase(m->a.begin() + long(i));
        c.label("erase array");
        return;
      }
      break;
    case T::kObject:
      if (c.flip()) { M nv = gen(c, 1); auto k = gen_key(c); x->SetKey(std::string(k), build(nv)); m->o[k] = nv; c.label("set key"); return; }
      if (!m->o.empty()) {
        auto it = m->o.begin();
        std::advance(it, long(c.draw(m->o.size())));
        PBT_CHECK(c, x->RemoveKey(it->first), "remove");
        m->o.erase(it);
        c.label("remove key");
        return;
      }
      break;
    default: break;
  }
  M nv = gen(c, 1);
  *x = build(nv);
  *m = nv;
  c.label("assign");
}

}  // namespace

SCENARIO(clone_tree, 120000, 3000000, false,
         "random trees cloned (value, array and object forms), then both sides edited and destroyed in random order against separate models, with allocation balance; non-trivial: depth of at least 2") {
  const int64_t live0 = alloc::now().live;
  {
    M m = gen(c, 4);
    c.trace("tree %s\n", show(m).c_str());
    if (depth(m) >= 2) c.nontrivial();
    c.label(tname(m.t));
    auto src = std::make_unique<Value>(build(m));
    std::unique_ptr<Value> cl;
    const Value& csrc = *src;
    switch (m.t) {
      case T::kArray:
        if (c.flip()) { cl = std::make_unique<Value>(Value::Clone(csrc.GetArray())); break; }
        cl = std::make_unique<Value>(csrc.Clone());
        break;
      case T::kObject:
        if (c.flip()) { cl = std::make_unique<Value>(Value::Clone(csrc.GetObject())); break; }
        cl = std::make_unique<Value>(csrc.Clone());
        break;
      case T::kString:
        if (c.flip()) { cl = std::make_unique<Value>(rst::Clone(csrc.GetString())); break; }
        cl = std::make_unique<Value>(csrc.Clone());
        break;
      default: cl = std::make_unique<Value>(csrc.Clone()); break;
    }
    auto d = diff(*cl, m);
    PBT_CHECK(c, d.empty(), "clone differs: %s", d.c_str());
    d = diff(*src, m);
    PBT_CHECK(c, d.empty(), "source changed by cloning: %s", d.c_str());
    M ms = m, mc = m;
    // No shared storage: strings and containers live at different addresses.
    size_t n = c.size(0, 6);
    for (size_t i = 0; i < n; i++) {
      if (c.flip()) { mutate(c, ms, *src); c.trace("edit source\n"); } else { mutate(c, mc, *cl); c.trace("edit clone\n"); }
      d = diff(*src, ms);
      PBT_CHECK(c, d.empty(), "source after edit: %s", d.c_str());
      d = diff(*cl, mc);
      PBT_CHECK(c, d.empty(), "clone after edit: %s", d.c_str());
    }
    if (c.flip()) {
      src.reset();
      d = diff(*cl, mc);
      PBT_CHECK(c, d.empty(), "clone after source destroyed: %s", d.c_str());
      Value again = cl->Clone();
      cl.reset();
      d = diff(again, mc);
      PBT_CHECK(c, d.empty(), "clone of clone: %s", d.c_str());
    } else {
      cl.reset();
      d = diff(*src, ms);
      PBT_CHECK(c, d.empty(), "source after clone destroyed: %s", d.c_str());
    }
  }
  const int64_t live1 = alloc::now().live;
  PBT_CHECK(c, live0 == live1, "allocation balance %lld after destroying source and clone", static_cast<long long>(live1 - live0));
}

SCENARIO(clone_wide, 1500, 30000, false,
         "containers of up to 2000 elements and depth up to 60; non-trivial: more than 50 nodes") {
  const int64_t live0 = alloc::now().live;
  {
    M m;
    size_t n = c.size(0, 2000);
    uint64_t r = c.draw(0);
    m.t = c.flip() ? T::kArray : T::kObject;
    for (size_t i = 0; i < n; i++) {
      M x;
      uint64_t h = pbt::hash64(r + i);
      switch (h % 4) {
        case 0: x.t = T::kNumber; x.n = double(h >> 11); break;
        case 1: x.t = T::kString; x.s = std::string(h % 40, char(h >> 8)); break;
        case 2: x.t = T::kBool; x.b = h & 16; break;
        default: x.t = T::kArray; x.a.resize(h % 3); break;
      }
      if (m.t == T::kArray) m.a.push_back(x); else m.o[std::to_string(h % 5000)] = x;
    }
    size_t dep = c.size(0, 60);
    for (size_t i = 0; i < dep; i++) {
      M w;
      if (pbt::hash64(r ^ i) & 1) { w.t = T::kArray; w.a.push_back(std::move(m)); } else { w.t = T::kObject; w.o["k"] = std::move(m); }
      m = std::move(w);
    }
    c.trace("%zu nodes, depth %d\n", nodes(m), depth(m));
    if (nodes(m) > 50) c.nontrivial();
    auto v = std::make_unique<Value>(build(m));
    Value cl = v->Clone();
    auto d = diff(*v, m);
    PBT_CHECK(c, d.empty(), "source: %s", d.c_str());
    v.reset();
    d = diff(cl, m);
    PBT_CHECK(c, d.empty(), "clone: %s", d.c_str());
  }
  PBT_CHECK(c, live0 == alloc::now().live, "allocation balance");
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of clone_tree; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_clone_tree(t);
  });
}

SCENARIO(shared, 400, 12000, false,
         "one value that 2 to 4 threads clone at the same time, changing and dropping their clones; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  const M m = gen(c, 3);
  const Value v = build(m);
  c.trace("value %s\n", show(m).c_str());
  pbt::in_threads_i(c, 10, [&](Ctx& t, int) {
    Value cl = v.Clone();
    auto d = diff(cl, m);
    PBT_CHECK(t, d.empty(), "clone: %s", d.c_str());
    PBT_CHECK(t, cl == v, "the clone is not equal to the original");
    switch (t.draw(3)) {
      case 0: cl = Value(int32_t(t.draw(100))); break;
      case 1: if (cl.IsObject()) { for (auto& [k, x] : cl.GetObject()) x = Value("changed"); cl.SetKey("more", Value(true)); } break;
      default: { Value other = std::move(cl); cl = other.Clone(); break; }
    }
    d = diff(v, m);
    PBT_CHECK(t, d.empty(), "original: %s", d.c_str());
  });
}
