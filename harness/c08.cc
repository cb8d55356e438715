// C08: string concatenation of generated arguments.
#include "args_gen.h"
#include "rst/strings/str_cat.h"
using namespace ag;

SCENARIO(concat, 250000, 8000000, false,
         "0 to 12, rarely up to 70000 arguments of every supported type (all integer widths, enums, floats, text with any bytes): the result is the concatenation of "
         "independently rendered texts; non-trivial: at least two non-empty arguments of different kinds") {
  size_t n = gen_arity(c);
  std::vector<Slot> v;
  std::string want;
  int kinds = 0;
  for (size_t i = 0; i < n; i++) {
    v.push_back(gen_slot(c));
    want += v.back().want;
    if (!v.back().want.empty()) { bool seen = false; for (size_t j = 0; j < i && j < 40; j++) seen |= v[j].kind == v[i].kind; kinds += !seen; }
    c.trace("kind %d: %s\n", v.back().kind, pbt::quote(v.back().want).c_str());
  }
  if (kinds >= 2) c.nontrivial();
  c.label(n == 0 ? "none" : n < 4 ? "few" : "many");
  auto got = with_args(v, [](std::initializer_list<Arg> l) { return rst::StrCat(l); });
  PBT_CHECK(c, got.size() == want.size(), "size %zu, expected %zu: %s instead of %s", got.size(), want.size(), pbt::quote(got).c_str(), pbt::quote(want).c_str());
  PBT_CHECK(c, got == want, "%s instead of %s", pbt::quote(got).c_str(), pbt::quote(want).c_str());
  PBT_CHECK(c, got.c_str()[got.size()] == '\0', "result not terminated");
}

SCENARIO(literal_calls, 60000, 1500000, false,
         "braced lists written as a user would, with implicit conversions of every type; non-trivial: always") {
  c.nontrivial();
  int64_t i = pbt::gen_int(c);
  std::string s = text(c);
  double d = pbt::gen_double(c);
  c.trace("%lld %g %s\n", static_cast<long long>(i), d, pbt::quote(s).c_str());
  auto eq = [&](const std::string& got, const std::string& want) { PBT_CHECK(c, got == want, "%s instead of %s", pbt::quote(got).c_str(), pbt::quote(want).c_str()); };
  const bool b = i & 1;
  const char ch = char(i);
  eq(rst::StrCat({b, ch, static_cast<short>(i), static_cast<unsigned short>(i), static_cast<int>(i), static_cast<unsigned>(i)}),
     std::string(b ? "true" : "false") + ch + dec(short(i)) + dec((unsigned short)(i)) + dec(int(i)) + dec(unsigned(i)));
  eq(rst::StrCat({"Bob", s, " ", std::string_view(s), s.c_str(), long(i), static_cast<unsigned long>(i)}),
     "Bob" + s + " " + s + s.c_str() + dec(long(i)) + dec((unsigned long)(i)));
  eq(rst::StrCat({static_cast<long long>(i), "|", static_cast<unsigned long long>(i), "|", float(d), "|", d, "|", (long double)(d)}),
     dec((long long)(i)) + "|" + dec((unsigned long long)(i)) + "|" + printf_g("%g", (long double)(double)float(d), false) + "|" + printf_g("%g", d, false) + "|" + printf_g("%Lg", d, true));
  eq(rst::StrCat({static_cast<E3>(i), "", static_cast<E1>(int(i)), std::string(), static_cast<E2>(uint8_t(i))}), dec(i) + dec(int(i)) + dec(uint8_t(i)));
  eq(rst::StrCat({}), "");
  eq(rst::StrCat({s}), s);
  eq(rst::StrCat({""}), "");
}

SCENARIO(large, 400, 8000, false, "concatenations of up to megabytes of random text; non-trivial: over 100 kB") {
  std::string a(c.size(0, 400000), 'x'), b(c.size(0, 400000), 'y'), d(c.size(0, 30), 'z');
  for (size_t i = 0; i < a.size(); i += 97) a[i] = char(i);
  int64_t i = pbt::gen_int(c);
  c.trace("%zu %zu %zu %lld\n", a.size(), b.size(), d.size(), static_cast<long long>(i));
  if (a.size() + b.size() > 100000) c.nontrivial();
  auto got = rst::StrCat({a, i, b, std::string_view(), d, a});
  PBT_CHECK(c, got == a + dec(i) + b + d + a, "wrong large concatenation");
}

SCENARIO(long_arguments, 400, 8000, false, "1 to 4 arguments, each of 256 bytes to 16 MiB and often about a power of two, as strings, views and C strings between others; non-trivial: over 64 kB") {
  const size_t n = 1 + c.draw(4);
  std::vector<std::string> t;
  std::string want;
  for (size_t i = 0; i < n; i++) {
    t.push_back(long_text(c));
    if (c.draw(3) == 0) { for (auto& ch : t[i]) if (ch == 0) ch = '0'; }
    want += t[i];
    c.trace("%zu bytes\n", t[i].size());
  }
  if (want.size() > 65536) c.nontrivial();
  const int64_t v = pbt::gen_int(c);
  std::string got;
  switch (n) {
    case 1: got = rst::StrCat({t[0], v}); want += dec(v); break;
    case 2: got = rst::StrCat({std::string_view(t[0]), t[1]}); break;
    case 3: for (auto& ch : t[1]) if (ch == 0) ch = '0';
      want = t[0] + t[1] + t[2] + dec(v);
      got = rst::StrCat({t[0], t[1].c_str(), t[2], v});
      break;
    default: got = rst::StrCat({t[0], t[1], std::string_view(t[2]), "", t[3]}); break;
  }
  PBT_CHECK(c, got.size() == want.size(), "%zu bytes instead of %zu", got.size(), want.size());
  PBT_CHECK(c, got == want, "wrong bytes in a result of %zu", got.size());
}

#if defined(NDEBUG) && !defined(__SANITIZE_ADDRESS__)
SCENARIO(gigabytes, 2, 4, false, "results just over 2^31 and 2^32 bytes, made of one string given many times; non-trivial: always") {
  c.nontrivial();
  const bool four = c.flip();
  const size_t len = (size_t(1) << 26) + c.draw(1000);
  c.trace("%zu bytes %d times\n", len, four ? 64 : 32);
  std::string s(len, 'q');
  for (size_t i = 0; i < len; i += 1021) s[i] = char(i / 1021);
  const std::string_view v = s;
  size_t times = 32;
  std::string got;
#define EIGHT v, v, v, v, v, v, v, v
  if (four) { times = 64; got = rst::StrCat({EIGHT, EIGHT, EIGHT, EIGHT, EIGHT, EIGHT, EIGHT, EIGHT, "end"}); }
  else got = rst::StrCat({EIGHT, EIGHT, EIGHT, EIGHT, "end"});
#undef EIGHT
  PBT_CHECK(c, got.size() == len * times + 3, "%zu bytes instead of %zu", got.size(), len * times + 3);
  for (size_t i = 0; i < times; i++) PBT_CHECK(c, memcmp(got.data() + i * len, s.data(), len) == 0, "part %zu differs", i);
  PBT_CHECK(c, memcmp(got.data() + times * len, "end", 4) == 0, "the end differs");
}
#endif

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of concat, literal_calls; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 20, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_concat(t); break;
      default: scenario_literal_calls(t); break;
    }
  });
}
