// C04: comparison is one consistent total order, equality is exact.
#include "value_model.h"
using namespace vm;
using rst::Value;

namespace {

// A value close to |m|: one leaf changed a little, or an exact copy.
M near(Ctx& c, M m) {
  switch (m.t) {
    case T::kNull: return c.flip() ? m : gen_scalar(c);
    case T::kBool: if (c.flip()) m.b = !m.b; return m;
    case T::kNumber: {
      double d = m.n;
      switch (c.draw(10)) {
        case 0: return m;
        case 1: d = std::nextafter(d, INFINITY); break;
        case 2: d = std::nextafter(d, -INFINITY); break;
        case 3: d += 1e-17; break;
        case 4: d -= 1.5e-16; break;
        case 5: d = -d; break;
        case 6: d *= 1 + 2.3e-16; break;
        case 7: d += 1; break;
        case 8: d += 2.220446049250313e-16; break;
        default: d = gen_finite(c); break;
      }
      if (std::isfinite(d)) m.n = d;
      return m;
    }
    case T::kString:
      switch (c.draw(5)) {
        case 0: return m;
        case 1: m.s += '\0'; return m;
        case 2: if (!m.s.empty()) m.s.pop_back(); return m;
        case 3: if (!m.s.empty()) m.s[c.draw(m.s.size())] = char(c.draw(256)); return m;
        default: m.s += "a"; return m;
      }
    case T::kArray:
      switch (c.draw(4)) {
        case 0: return m;
        case 1: m.a.push_back(gen_scalar(c)); return m;
        case 2: if (!m.a.empty()) m.a.pop_back(); return m;
        default: if (!m.a.empty()) { size_t i = c.draw(m.a.size()); m.a[i] = near(c, m.a[i]); } return m;
      }
    case T::kObject:
      switch (c.draw(5)) {
        case 0: return m;
        case 1: m.o[gen_key(c)] = gen_scalar(c); return m;
        case 2: if (!m.o.empty()) m.o.erase(std::next(m.o.begin(), long(c.draw(m.o.size())))); return m;
        case 3:
          if (!m.o.empty()) {
            auto it = std::next(m.o.begin(), long(c.draw(m.o.size())));
            M x = it->second;
            m.o.erase(it);
            m.o[gen_key(c)] = x;
          }
          return m;
        default: if (!m.o.empty()) { auto it = std::next(m.o.begin(), long(c.draw(m.o.size()))); it->second = near(c, it->second); } return m;
      }
  }
  return m;
}

}  // namespace

SCENARIO(order_laws, 250000, 8000000, false,
         "triples of related values (copies, one-leaf perturbations down to one ulp, unrelated); all six operators against a reference order, plus the order laws on the library's own answers; non-trivial: not all three of different types") {
  M m[3];
  m[0] = gen(c, 3);
  for (int i = 1; i < 3; i++) m[i] = c.weighted({3, 1}) == 0 ? near(c, m[c.draw(uint64_t(i))]) : gen(c, 2);
  Value v[3] = {build(m[0]), build(m[1]), build(m[2])};
  for (int i = 0; i < 3; i++) c.trace("v%d = %s\n", i, show(m[i]).c_str());
  if (m[0].t == m[1].t || m[1].t == m[2].t || m[0].t == m[2].t) c.nontrivial();
  bool lt[3][3], eq[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      lt[i][j] = v[i] < v[j];
      eq[i][j] = v[i] == v[j];
    }
  for (int i = 0; i < 3; i++) {
    PBT_CHECK(c, eq[i][i], "v%d not equal to itself", i);
    PBT_CHECK(c, !lt[i][i], "v%d less than itself", i);
    for (int j = 0; j < 3; j++) {
      PBT_CHECK(c, int(lt[i][j]) + int(eq[i][j]) + int(lt[j][i]) == 1, "v%d, v%d: less %d, equal %d, greater %d", i, j, lt[i][j], eq[i][j], lt[j][i]);
      PBT_CHECK(c, eq[i][j] == eq[j][i], "equality of v%d, v%d not symmetric", i, j);
      PBT_CHECK(c, (v[i] != v[j]) == !eq[i][j], "!= of v%d, v%d", i, j);
      PBT_CHECK(c, (v[i] > v[j]) == lt[j][i], "> of v%d, v%d", i, j);
      PBT_CHECK(c, (v[i] <= v[j]) == !lt[j][i], "<= of v%d, v%d", i, j);
      PBT_CHECK(c, (v[i] >= v[j]) == !lt[i][j], ">= of v%d, v%d", i, j);
      int r = cmp(m[i], m[j]);
      PBT_CHECK(c, eq[i][j] == (r == 0), "v%d == v%d is %d, contents say %d", i, j, eq[i][j], r);
      PBT_CHECK(c, lt[i][j] == (r < 0), "v%d < v%d is %d, contents say %d", i, j, lt[i][j], r);
      if (i < j) c.label(r == 0 ? "equal pair" : m[i].t == m[j].t ? "different contents" : "different types");
      for (int k = 0; k < 3; k++) {
        PBT_CHECK(c, !(lt[i][j] && lt[j][k]) || lt[i][k], "order not transitive on v%d v%d v%d", i, j, k);
        PBT_CHECK(c, !(eq[i][j] && eq[j][k]) || eq[i][k], "equality not transitive on v%d v%d v%d", i, j, k);
      }
    }
  }
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of order_laws; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_order_laws(t);
  });
}

SCENARIO(shared, 400, 12000, false,
         "three values that 2 to 4 threads compare at the same time; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  M m[3];
  m[0] = gen(c, 3);
  for (int i = 1; i < 3; i++) m[i] = c.weighted({3, 1}) == 0 ? near(c, m[c.draw(uint64_t(i))]) : gen(c, 2);
  const Value v[3] = {build(m[0]), build(m[1]), build(m[2])};
  for (int i = 0; i < 3; i++) c.trace("v%d = %s\n", i, show(m[i]).c_str());
  pbt::in_threads_i(c, 20, [&](Ctx& t, int) {
    const size_t i = t.draw(3), j = t.draw(3);
    const int r = cmp(m[i], m[j]);
    PBT_CHECK(t, (v[i] == v[j]) == (r == 0), "== of v%zu, v%zu", i, j);
    PBT_CHECK(t, (v[i] < v[j]) == (r < 0), "< of v%zu, v%zu", i, j);
    PBT_CHECK(t, (v[i] >= v[j]) == (r >= 0), ">= of v%zu, v%zu", i, j);
    PBT_CHECK(t, (v[i] > v[j]) == (r > 0), "> of v%zu, v%zu", i, j);
  });
}
