// Reference model of rst::Value: a plain nested tree.
#ifndef VERIF_LIB_VALUE_MODEL_H_
#define VERIF_LIB_VALUE_MODEL_H_

#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "pbt.h"
#include "rst/value/value.h"

namespace vm {

using pbt::Ctx;
using T = rst::Value::Type;

struct M {
  T t = T::kNull;
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<M> a;
  std::map<std::string, M> o;
};

inline uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

inline const char* tname(T t) {
  switch (t) {
    case T::kNull: return "null";
    case T::kBool: return "bool";
    case T::kNumber: return "number";
    case T::kString: return "string";
    case T::kArray: return "array";
    case T::kObject: return "object";
  }
  return "?";
}

inline std::string show(const M& m, int depth = 0) {
  switch (m.t) {
    case T::kNull: return "null";
    case T::kBool: return m.b ? "true" : "false";
    case T::kNumber: return pbt::strf("%.17g", m.n);
    case T::kString: return pbt::quote(m.s, 30);
    case T::kArray: {
      std::string r = "[";
      for (auto& x : m.a) { if (r.size() > 1) r += ","; if (r.size() > 400) { r += "..."; break; } r += show(x, depth + 1); }
      return r + "]";
    }
    case T::kObject: {
      std::string r = "{";
      for (auto& [k, x] : m.o) { if (r.size() > 1) r += ","; if (r.size() > 400) { r += "..."; break; } r += pbt::quote(k, 20) + ":" + show(x, depth + 1); }
      return r + "}";
    }
  }
  return "?";
}

// Around the ranges of 8-bit and, rarely, 16-bit numbers.
inline size_t gen_length(Ctx& c) {
  switch (c.weighted({8, 4, 1})) {
    case 0: return 250 + c.size(0, 12);
    case 1: return c.size(61, 5000);
    default: return 65530 + c.size(0, 12);
  }
}

inline std::string gen_key(Ctx& c) {
  static const char* const kPool[] = {"a", "b", "c", "aa", "ab", "", "key", "z", "A", "0"};
  switch (c.weighted({120, 20, 20, 10, 1})) {
    case 0: return c.pick(kPool);
    case 1: {
      static const std::string sp[] = {".", "a.b", "..", std::string("\0", 1), std::string("a\0b", 3), "\xc3\xa9", "\xff", " ", "a.", ".a"};
      return c.pick(sp);
    }
    case 2: return pbt::gen_bytes(c, 8);
    case 3: return std::string(c.size(15, 60), 'k');
    default: return std::string(gen_length(c), 'l');
  }
}

inline T gen_type(Ctx& c) { return static_cast<T>(c.draw(6)); }

inline M gen_scalar(Ctx& c) {
  M m;
  m.t = static_cast<T>(c.draw(4));
  switch (m.t) {
    case T::kBool: m.b = c.flip(); break;
    case T::kNumber: m.n = pbt::gen_finite(c); break;
    case T::kString: m.s = c.chance(1, 300) ? pbt::gen_bytes(c, 20) + std::string(gen_length(c), char('s' + c.draw(4))) : pbt::gen_bytes(c, 60); break;
    default: break;
  }
  return m;
}

// Hundreds of members, or, rarely, tens of thousands.
inline M gen_wide(Ctx& c) {
  M m;
  const size_t n = c.chance(1, 25) ? 65530 + c.size(0, 12) : c.size(20, 300);
  const uint64_t salt = c.draw(1000);
  const bool obj = c.flip();
  m.t = obj ? T::kObject : T::kArray;
  for (size_t i = 0; i < n; i++) {
    M x;
    const uint64_t h = pbt::hash64(salt * 100003 + i);
    switch (h % 4) {
      case 0: x.t = T::kNumber; x.n = double(i); break;
      case 1: x.t = T::kString; x.s = std::to_string(i); break;
      case 2: x.t = T::kBool; x.b = h & 64; break;
      default: break;
    }
    if (obj) m.o["w" + std::to_string(i)] = std::move(x);
    else m.a.push_back(std::move(x));
  }
  return m;
}

inline M gen(Ctx& c, int depth) {
  if (depth <= 0 || c.weighted({3, 2}) == 0) return gen_scalar(c);
  if (c.chance(1, 400)) return gen_wide(c);
  M m;
  if (c.flip()) {
    m.t = T::kObject;
    size_t n = c.size(0, 4);
    for (size_t i = 0; i < n; i++) { auto k = gen_key(c); m.o[k] = gen(c, depth - 1); }
  } else {
    m.t = T::kArray;
    size_t n = c.size(0, 4);
    for (size_t i = 0; i < n; i++) m.a.push_back(gen(c, depth - 1));
  }
  return m;
}

inline rst::Value build(const M& m) {
  switch (m.t) {
    case T::kNull: return rst::Value();
    case T::kBool: return rst::Value(m.b);
    case T::kNumber: return rst::Value(m.n);
    case T::kString: return rst::Value(std::string(m.s));
    case T::kArray: {
      rst::Value::Array a;
      for (auto& x : m.a) a.push_back(build(x));
      return rst::Value(std::move(a));
    }
    case T::kObject: {
      rst::Value::Object o;
      for (auto& [k, x] : m.o) o.emplace(k, build(x));
      return rst::Value(std::move(o));
    }
  }
  abort();
}

// Empty string if |v| is exactly |m|, else where they differ.
inline std::string diff(const rst::Value& v, const M& m, const std::string& at = "$") {
  if (v.type() != m.t) return at + ": type " + tname(v.type()) + ", expected " + tname(m.t);
  switch (m.t) {
    case T::kNull: return "";
    case T::kBool: return v.GetBool() == m.b ? "" : at + ": wrong bool";
    case T::kNumber:
      return bits(v.GetDouble()) == bits(m.n) ? "" : at + pbt::strf(": number %.17g, expected %.17g", v.GetDouble(), m.n);
    case T::kString: return v.GetString() == m.s ? "" : at + ": string " + pbt::quote(v.GetString()) + ", expected " + pbt::quote(m.s);
    case T::kArray: {
      const auto& a = v.GetArray();
      if (a.size() != m.a.size()) return at + pbt::strf(": array size %zu, expected %zu", a.size(), m.a.size());
      for (size_t i = 0; i < a.size(); i++) { auto d = diff(a[i], m.a[i], at + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
      return "";
    }
    case T::kObject: {
      const auto& o = v.GetObject();
      auto it = m.o.begin();
      for (auto& [k, x] : o) {
        if (it == m.o.end()) return at + ": unexpected key " + pbt::quote(k);
        if (it->first != k) return at + ": key " + pbt::quote(k) + ", expected " + pbt::quote(it->first);
        auto d = diff(x, it->second, at + "." + pbt::quote(k, 20));
        if (!d.empty()) return d;
        ++it;
      }
      if (it != m.o.end()) return at + ": missing key " + pbt::quote(it->first);
      return "";
    }
  }
  return at + ": invalid type";
}

inline size_t nodes(const M& m) {
  size_t n = 1;
  for (auto& x : m.a) n += nodes(x);
  for (auto& [k, x] : m.o) n += nodes(x);
  return n;
}

inline int depth(const M& m) {
  int d = 0;
  for (auto& x : m.a) d = std::max(d, depth(x));
  for (auto& [k, x] : m.o) d = std::max(d, depth(x));
  return d + 1;
}

// Reference total order / equality.
inline int cmp(const M& x, const M& y) {
  if (x.t != y.t) return x.t < y.t ? -1 : 1;
  switch (x.t) {
    case T::kNull: return 0;
    case T::kBool: return int(x.b) - int(y.b);
    case T::kNumber: return x.n < y.n ? -1 : (x.n > y.n ? 1 : 0);
    case T::kString: { int r = x.s.compare(y.s); return r < 0 ? -1 : r > 0; }
    case T::kArray: {
      for (size_t i = 0; i < x.a.size() && i < y.a.size(); i++) { int r = cmp(x.a[i], y.a[i]); if (r) return r; }
      return x.a.size() < y.a.size() ? -1 : x.a.size() > y.a.size();
    }
    case T::kObject: {
      auto i = x.o.begin(), j = y.o.begin();
      for (; i != x.o.end() && j != y.o.end(); ++i, ++j) {
        int r = i->first.compare(j->first);
        if (r) return r < 0 ? -1 : 1;
        r = cmp(i->second, j->second);
        if (r) return r;
      }
      return i == x.o.end() ? (j == y.o.end() ? 0 : -1) : 1;
    }
  }
  return 0;
}

}  // namespace vm
#endif
