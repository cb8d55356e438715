// C05: construction, classification and reading of scalar values.
#include <climits>

#include "value_model.h"
using namespace vm;
using rst::Value;

namespace {
constexpr int64_t kMax = (int64_t{1} << 53) - 1;

void check_number(Ctx& c, const Value& v, double want) {
  PBT_CHECK(c, v.type() == T::kNumber && v.IsNumber(), "not a number");
  PBT_CHECK(c, !v.IsNull() && !v.IsBool() && !v.IsString() && !v.IsArray() && !v.IsObject(), "other predicate true");
  PBT_CHECK(c, bits(v.GetDouble()) == bits(want), "GetDouble %.17g, stored %.17g", v.GetDouble(), want);
  const bool integral = std::floor(want) == want;
  const bool i64 = integral && want >= -double(kMax) && want <= double(kMax);
  const bool i32 = integral && want >= double(INT_MIN) && want <= double(INT_MAX);
  PBT_CHECK(c, v.IsInt64() == i64, "IsInt64(%.17g) is %d", want, v.IsInt64());
  PBT_CHECK(c, v.IsInt() == i32, "IsInt(%.17g) is %d", want, v.IsInt());
  if (i64) PBT_CHECK(c, double(v.GetInt64()) == want, "GetInt64 %lld of %.17g", static_cast<long long>(v.GetInt64()), want);
  if (i32) PBT_CHECK(c, double(v.GetInt()) == want, "GetInt %d of %.17g", v.GetInt(), want);
  c.label(i32 ? "int" : i64 ? "int64" : "fractional or large");
}

// Calls accessor |k| on |v|; the result is irrelevant.
void access(Value& v, int k) {
  const Value& cv = v;
  switch (k) {
    case 0: (void)cv.GetBool(); break;
    case 1: (void)cv.GetInt64(); break;
    case 2: (void)cv.GetInt(); break;
    case 3: (void)cv.GetDouble(); break;
    case 4: (void)cv.GetString(); break;
    case 5: (void)v.GetString(); break;
    case 6: (void)cv.GetArray(); break;
    case 7: (void)v.GetArray(); break;
    case 8: (void)cv.GetObject(); break;
    case 9: (void)v.GetObject(); break;
    case 10: (void)cv.FindKey("a").get(); break;
    case 11: (void)v.FindPath("a.b").get(); break;
    case 12: (void)cv.FindIntKey("a"); break;
    case 13: v.SetKey("a", Value(1)); break;
    case 14: (void)v.RemoveKey("a"); break;
    case 15: v.SetPath("a.b", Value(1)); break;
    case 16: (void)cv.FindKeyOfType("a", T::kBool).get(); break;
  }
}
constexpr int kAccessors = 17;

bool allowed(const M& m, int k) {
  switch (k) {
    case 0: return m.t == T::kBool;
    case 1: return m.t == T::kNumber && std::floor(m.n) == m.n && std::fabs(m.n) <= double(kMax);
    case 2: return m.t == T::kNumber && std::floor(m.n) == m.n && m.n >= INT_MIN && m.n <= INT_MAX;
    case 3: return m.t == T::kNumber;
    case 4: case 5: return m.t == T::kString;
    case 6: case 7: return m.t == T::kArray;
    default: return m.t == T::kObject;
  }
}
}  // namespace

SCENARIO(doubles, 400000, 20000000, false,
         "finite doubles over all bit patterns with edge bias: round trip bit for bit and integer classification; non-trivial: always") {
  double d = pbt::gen_finite(c);
  c.trace("%.17g\n", d);
  c.nontrivial();
  Value v(d);
  check_number(c, v, d);
  Value w = v.Clone();
  check_number(c, w, d);
}

SCENARIO(integers, 400000, 20000000, false,
         "legal 32 and 64-bit integers with edge bias: round trip exactly; non-trivial: always") {
  c.nontrivial();
  int64_t i = pbt::gen_int(c);
  if (i > kMax || i < -kMax) i = c.flip() ? (i > 0 ? kMax - (i & 7) : -kMax + (i & 7)) : i % kMax;
  c.trace("%lld\n", static_cast<long long>(i));
  Value v(i);
  check_number(c, v, double(i));
  PBT_CHECK(c, v.IsInt64() && v.GetInt64() == i, "int64 %lld came back as %lld", static_cast<long long>(i), static_cast<long long>(v.GetInt64()));
  int32_t k = int32_t(uint32_t(uint64_t(i)));
  if (c.draw(8) == 7) k = c.flip() ? INT_MAX : INT_MIN;
  Value u(k);
  check_number(c, u, double(k));
  PBT_CHECK(c, u.IsInt() && u.GetInt() == k, "int32 %d", k);
  PBT_CHECK(c, u.GetInt64() == k, "int32 %d as int64", k);
}

SCENARIO(others, 60000, 2000000, false,
         "booleans, strings (pointer and owned) and containers: type and contents; non-trivial: non-empty") {
  bool b = c.flip();
  Value vb(b);
  PBT_CHECK(c, vb.IsBool() && vb.type() == T::kBool && vb.GetBool() == b && !vb.IsNumber() && !vb.IsInt() && !vb.IsInt64() && !vb.IsNull(), "bool");
  std::string s = pbt::gen_bytes(c, 200);
  c.trace("%d %s\n", b, pbt::quote(s).c_str());
  if (!s.empty()) c.nontrivial();
  Value vs((std::string(s)));
  PBT_CHECK(c, vs.IsString() && vs.GetString() == s && !vs.IsBool() && !vs.IsInt() && !vs.IsInt64() && !vs.IsObject() && !vs.IsArray(), "string");
  Value vp(s.c_str());
  PBT_CHECK(c, vp.IsString() && vp.GetString() == s.c_str(), "string from pointer");
  Value n;
  PBT_CHECK(c, n.IsNull() && n.type() == T::kNull && !n.IsBool() && !n.IsNumber() && !n.IsInt() && !n.IsInt64() && !n.IsString(), "null");
  M m = gen(c, 2);
  Value v = build(m);
  PBT_CHECK(c, v.IsArray() == (m.t == T::kArray) && v.IsObject() == (m.t == T::kObject) && v.IsString() == (m.t == T::kString) && v.IsNull() == (m.t == T::kNull), "predicates");
}

#if !defined(NDEBUG)
SCENARIO(illegal_numbers, 4000, 120000, false,
         "64-bit integers beyond 2^53-1, NaN and infinities must stop the process in debug builds, the nearest legal ones must not; non-trivial: always") {
  c.nontrivial();
  if (c.weighted({3, 1}) == 0) {
    int64_t i = pbt::gen_int(c);
    switch (c.draw(5)) {
      case 0: break;
      case 1: i = kMax + 1 + int64_t(c.draw(3)); break;
      case 2: i = -kMax - 1 - int64_t(c.draw(3)); break;
      case 3: i = INT64_MIN + int64_t(c.draw(3)); break;
      default: i = INT64_MAX - int64_t(c.draw(3)); break;
    }
    const bool legal = i <= kMax && i >= -kMax;
    c.trace("int64 %lld\n", static_cast<long long>(i));
    c.label(legal ? "legal" : "illegal");
    auto d = pbt::run_forked([&] { Value v(i); });
    PBT_CHECK(c, legal ? d.survived() : d.aborted(), "Value(int64 %lld): %s", static_cast<long long>(i), d.describe().c_str());
  } else {
    double x = pbt::gen_double(c);
    if (c.flip()) { static const double sp[] = {NAN, -NAN, INFINITY, -INFINITY, 1.7976931348623157e308, -1.7976931348623157e308}; x = c.pick(sp); }
    c.trace("double %g\n", x);
    const bool legal = std::isfinite(x);
    c.label(legal ? "legal" : "illegal");
    auto d = pbt::run_forked([&] { Value v(x); });
    PBT_CHECK(c, legal ? d.survived() : d.aborted(), "Value(double %g): %s", x, d.describe().c_str());
  }
}

SCENARIO(wrong_type_access, 4000, 120000, false,
         "every accessor on values of every type: stops the process in debug builds exactly when the type does not match; non-trivial: type mismatch") {
  M m = gen(c, 1);
  int k = int(c.draw(kAccessors));
  const bool ok = allowed(m, k);
  if (!ok) c.nontrivial();
  c.label(ok ? "allowed" : "mismatch");
  c.trace("accessor %d on %s\n", k, show(m).c_str());
  auto d = pbt::run_forked([&] { Value v = build(m); access(v, k); });
  PBT_CHECK(c, ok ? d.survived() : d.aborted(), "accessor %d on %s: %s", k, show(m).c_str(), d.describe().c_str());
}
#endif

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of doubles, integers, others; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 40, [](Ctx& t) {
    switch (t.draw(3)) {
      case 0: scenario_doubles(t); break;
      case 1: scenario_integers(t); break;
      default: scenario_others(t); break;
    }
  });
}
