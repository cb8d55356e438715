// Generated arguments for rst::StrCat and rst::Format with their expected text.
#ifndef VERIF_LIB_ARGS_GEN_H_
#define VERIF_LIB_ARGS_GEN_H_

#include <climits>
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>

#include "pbt.h"
#include "rst/not_null/not_null.h"
#include "rst/strings/str_cat.h"

namespace ag {

using pbt::Ctx;

// The library's argument type, by deduction.
template <class A>
A arg_of(std::string (*)(std::initializer_list<A>));
using Arg = decltype(arg_of(&rst::StrCat));

enum E1 : int { kE1 = 0 };
enum class E2 : uint8_t { kA };
enum class E3 : int64_t { kA };
enum class E4 : uint64_t { kA };
enum class E5 : int16_t { kA };
enum class E6 : int8_t { kA };
enum class E7 : unsigned { kA };

struct Slot {
  int kind = 0;
  int64_t i = 0;
  long double f = 0;
  std::string s;    // storage of text arguments
  std::string buf;  // larger buffer the views point into
  std::string want;
};

constexpr int kKinds = 30;

// Exact decimal without library help.
inline std::string decimal(unsigned __int128 mag, bool neg) {
  char b[48];
  int n = 48;
  do { b[--n] = char('0' + int(mag % 10)); mag /= 10; } while (mag);
  std::string r(b + n, size_t(48 - n));
  return neg ? "-" + r : r;
}
template <class Int>
std::string dec(Int v) {
  if (v < 0) return decimal(static_cast<unsigned __int128>(-static_cast<__int128>(v)), true);
  return decimal(static_cast<unsigned __int128>(v), false);
}
template <class Int>
Int narrow(int64_t i) { return static_cast<Int>(static_cast<uint64_t>(i)); }

inline std::string printf_g(const char* fmt, long double v, bool l) {
  char b[128];
  int n = l ? snprintf(b, sizeof b, fmt, v) : snprintf(b, sizeof b, fmt, double(v));
  return std::string(b, size_t(n));
}

inline std::string text(Ctx& c) {
  switch (c.weighted({4, 2, 2, 1})) {
    case 0: return pbt::gen_bytes(c, 40);
    case 1: { static const std::string sp[] = {"", "{}", "{", "}", "{{", "}}", "{}{}", std::string("\0", 1), std::string("a\0b{}", 5), "%s%d%n", " "}; return c.pick(sp); }
    case 2: { std::string r; size_t n = c.size(0, 12); for (size_t i = 0; i < n; i++) r += "{} }\0a"[c.draw(6)]; return r; }
    default: return pbt::gen_bytes(c, 3000);
  }
}

// Text of 256 bytes to 16 MiB, about a power of two.
inline std::string long_text(Ctx& c) {
  const size_t k = size_t(1) << (8 + c.draw(c.chance(1, 4) ? 17 : 14));
  size_t n = c.flip() ? k + c.size(0, 4) - 2 : k + c.draw(k / 2);
  std::string s(n, '.');
  const uint64_t salt = c.draw(1u << 20);
  const size_t step = 1 + salt % 61;
  for (size_t i = salt % 7; i < n; i += step) s[i] = char(pbt::hash64(i + salt));
  if (n) s[n - 1] = '$';
  return s;
}

inline long double gen_ld(Ctx& c) {
  long double v = pbt::gen_double(c);
  switch (c.draw(6)) {
    case 0: return v;
    case 1: return v * 1e4000L;
    case 2: return v * 1e-4000L;
    case 3: { static const long double sp[] = {std::numeric_limits<long double>::max(), -std::numeric_limits<long double>::max(), std::numeric_limits<long double>::denorm_min(),
                                               -std::numeric_limits<long double>::denorm_min(), std::numeric_limits<long double>::min(), -1.23456e-4950L, INFINITY, -INFINITY, NAN, -NAN, -0.0L};
              return c.pick(sp); }
    case 4: return (long double)(pbt::gen_int(c)) / (long double)(1 + c.draw(1000000));
    default: { long double r = (long double)(pbt::gen_int(c)); int e = int(c.draw(40)) - 20; while (e > 0) { r *= 10; e--; } while (e < 0) { r /= 10; e++; } return r; }
  }
}

inline Slot gen_slot(Ctx& c) {
  Slot s;
  s.kind = int(c.draw(kKinds));
  switch (s.kind) {
    case 13: case 14: case 15: s.f = gen_ld(c); break;
    case 0: case 1: case 2: case 16: case 17: case 18: case 29: {
      s.s = text(c);
      s.buf = s.s;
      if (s.kind == 1 || s.kind == 29) s.buf += "trailing";
      break;
    }
    default: s.i = pbt::gen_int(c); break;
  }
  switch (s.kind) {
    case 0: case 1: case 2: case 29: s.want = s.s; break;           // string, views, const std::string&
    case 16: case 17: case 18: s.want = s.s.c_str(); break;         // C strings up to their NUL
    case 3: s.want = (s.i & 1) ? "true" : "false"; break;
    case 4: s.want = std::string(1, char(s.i)); break;
    case 5: s.want = dec(narrow<short>(s.i)); break;
    case 6: s.want = dec(narrow<unsigned short>(s.i)); break;
    case 7: s.want = dec(narrow<int>(s.i)); break;
    case 8: s.want = dec(narrow<unsigned>(s.i)); break;
    case 9: s.want = dec(narrow<long>(s.i)); break;
    case 10: s.want = dec(narrow<unsigned long>(s.i)); break;
    case 11: s.want = dec(narrow<long long>(s.i)); break;
    case 12: s.want = dec(narrow<unsigned long long>(s.i)); break;
    case 13: s.want = printf_g("%g", (long double)(double)(float)s.f, false); break;
    case 14: s.want = printf_g("%g", s.f, false); break;
    case 15: s.want = printf_g("%Lg", s.f, true); break;
    case 19: s.want = dec(narrow<int>(s.i)); break;
    case 20: s.want = dec(narrow<uint8_t>(s.i)); break;
    case 21: s.want = dec(narrow<int64_t>(s.i)); break;
    case 22: s.want = dec(narrow<uint64_t>(s.i)); break;
    case 23: s.want = dec(narrow<int16_t>(s.i)); break;
    case 24: s.want = dec(narrow<int8_t>(s.i)); break;
    case 25: s.want = dec(narrow<unsigned>(s.i)); break;
    case 26: s.want = dec(narrow<int>(s.i)); break;       // lvalue int
    case 27: s.want = dec(narrow<uint64_t>(s.i)); break;  // size_t
    case 28: s.want = std::string(1, char(s.i)); break;   // const char lvalue
  }
  return s;
}

inline Arg make(const Slot& s) {
  switch (s.kind) {
    case 0: return Arg(s.s);
    case 1: return Arg(std::string_view(s.buf.data(), s.s.size()));
    case 2: { const std::string& r = s.s; return Arg(r); }
    case 3: return Arg(bool(s.i & 1));
    case 4: return Arg(char(s.i));
    case 5: return Arg(narrow<short>(s.i));
    case 6: return Arg(narrow<unsigned short>(s.i));
    case 7: return Arg(narrow<int>(s.i));
    case 8: return Arg(narrow<unsigned>(s.i));
    case 9: return Arg(narrow<long>(s.i));
    case 10: return Arg(narrow<unsigned long>(s.i));
    case 11: return Arg(narrow<long long>(s.i));
    case 12: return Arg(narrow<unsigned long long>(s.i));
    case 13: return Arg(float(s.f));
    case 14: return Arg(double(s.f));
    case 15: return Arg(s.f);
    case 16: return Arg(s.s.c_str());
    case 17: return Arg(rst::NotNull<const char*>(s.s.c_str()));
    case 18: return Arg(const_cast<const char*>(s.buf.c_str()));
    case 19: return Arg(static_cast<E1>(narrow<int>(s.i)));
    case 20: return Arg(static_cast<E2>(narrow<uint8_t>(s.i)));
    case 21: return Arg(static_cast<E3>(narrow<int64_t>(s.i)));
    case 22: return Arg(static_cast<E4>(narrow<uint64_t>(s.i)));
    case 23: return Arg(static_cast<E5>(narrow<int16_t>(s.i)));
    case 24: return Arg(static_cast<E6>(narrow<int8_t>(s.i)));
    case 25: return Arg(static_cast<E7>(narrow<unsigned>(s.i)));
    case 26: { int v = narrow<int>(s.i); return Arg(v); }
    case 27: return Arg(narrow<size_t>(s.i));
    case 28: { const char ch = char(s.i); return Arg(ch); }
    default: return Arg(std::string_view(s.buf).substr(0, s.s.size()));
  }
}

// Calls f with an initializer list of the slots' arguments.  A long list is
// made at run time, with the layout the compiler gives to braced lists.
template <class F>
std::string with_args(const std::vector<Slot>& v, F&& f) {
#define A(i) make(v[i])
  switch (v.size()) {
    case 0: return f(std::initializer_list<Arg>{});
    case 1: return f(std::initializer_list<Arg>{A(0)});
    case 2: return f(std::initializer_list<Arg>{A(0), A(1)});
    case 3: return f(std::initializer_list<Arg>{A(0), A(1), A(2)});
    case 4: return f(std::initializer_list<Arg>{A(0), A(1), A(2), A(3)});
    case 5: return f(std::initializer_list<Arg>{A(0), A(1), A(2), A(3), A(4)});
    case 6: return f(std::initializer_list<Arg>{A(0), A(1), A(2), A(3), A(4), A(5)});
    case 7: return f(std::initializer_list<Arg>{A(0), A(1), A(2), A(3), A(4), A(5), A(6)});
    case 8: return f(std::initializer_list<Arg>{A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7)});
    case 12: return f(std::initializer_list<Arg>{A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11)});
    default: return pbt::with_list<Arg>(v.size(), [&](void* at, size_t i) { new (at) Arg(make(v[i])); }, f);
  }
#undef A
}
inline size_t gen_arity(Ctx& c) {
  size_t n = c.draw(12);
  if (n < 10) return n == 9 ? 12 : n;
  if (n == 10) return 9 + c.draw(32);
  return c.draw(16) ? c.draw(9) : c.draw(10) ? 13 + c.draw(288) : 60000 + c.draw(10000);
}

}  // namespace ag
#endif
