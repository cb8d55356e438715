// C07: formatting against a reference substitution.
#include <array>

#include "args_gen.h"
#include "rst/strings/format.h"
using namespace ag;

namespace {
constexpr size_t kMaxFormat = 200;
// Longer formats are padded to one of these lengths.
constexpr size_t kLong[] = {255, 256, 1000, 4096, 32768, 65536, 150000};

template <size_t N>
std::string call(const std::string& f, const std::initializer_list<Arg>* l) {
  // The array ends exactly after the terminator, so that reading on is seen.
  std::unique_ptr<char[]> p(new char[N]);
  memcpy(p.get(), f.c_str(), N);
  const auto& arr = *reinterpret_cast<const char(*)[N]>(p.get());
  return l ? rst::Format(arr, *l) : rst::Format(arr);
}
using Fn = std::string (*)(const std::string&, const std::initializer_list<Arg>*);
template <size_t... I>
constexpr std::array<Fn, sizeof...(I)> table(std::index_sequence<I...>) { return {{&call<I + 1>...}}; }
template <size_t... I>
constexpr std::array<Fn, sizeof...(I)> long_table(std::index_sequence<I...>) { return {{&call<kLong[I] + 1>...}}; }
const auto kLongTable = long_table(std::make_index_sequence<std::size(kLong)>());
const auto kTable = table(std::make_index_sequence<kMaxFormat + 1>());

std::string format(const std::string& f, const std::vector<Slot>& v, bool plain) {
  Fn fn = nullptr;
  if (f.size() <= kMaxFormat) fn = kTable[f.size()];
  else for (size_t i = 0; i < std::size(kLong); i++) if (kLong[i] == f.size()) fn = kLongTable[i];
  if (plain) return fn(f, nullptr);
  return with_args(v, [&](std::initializer_list<Arg> l) { return fn(f, &l); });
}

char gen_plain(Ctx& c) {
  for (;;) {
    char ch = c.weighted({3, 1}) == 0 ? " aZ09%.\n"[c.draw(8)] : char(1 + c.draw(255));
    if (ch != '{' && ch != '}') return ch;
    return 'x';
  }
}
}  // namespace

SCENARIO(valid_formats, 250000, 8000000, false,
         "format strings built from placeholders, escaped braces and other bytes in any order, with 0 to 12, rarely up to 70000 arguments of any type and content; "
         "expected output built alongside; non-trivial: a placeholder and an escaped brace") {
  size_t n = gen_arity(c);
  std::vector<Slot> v;
  for (size_t i = 0; i < n; i++) v.push_back(gen_slot(c));
  std::string f, want;
  bool esc = false;
  const bool lng = 2 * n + 40 > kMaxFormat || c.chance(1, 300);
  size_t li = 0;
  while (lng && kLong[li] < 2 * n + 40) li++;
  if (lng && kLong[li] < 5000) li += c.draw(3);
  const size_t max = lng ? kLong[li] : kMaxFormat;
  if (lng) c.label("long");
  size_t left = n;
  auto filler = [&] {
    size_t k = c.weighted({3, 3, 2, 1, 1});
    for (size_t j = 0; j < k; j++) {
      if (f.size() + 2 * (left + 2) >= max) return;
      switch (c.weighted({4, 2, 2, 1})) {
        case 0: { char ch = gen_plain(c); f += ch; want += ch; break; }
        case 1: f += "{{"; want += '{'; esc = true; break;
        case 2: f += "}}"; want += '}'; esc = true; break;
        default: { std::string t(c.size(1, 12), gen_plain(c)); if (f.size() + t.size() + 2 * (left + 2) < max) { f += t; want += t; } }
      }
    }
  };
  filler();
  for (size_t i = 0; i < n; i++) {
    f += "{}";
    want += v[i].want;
    left--;
    if (n <= 300 || f.size() % 8 < 2) filler();
  }
  if (lng) while (f.size() < max) {
    if (max - f.size() >= 2 && c.draw(2)) { f += "}}"; want += '}'; }
    else { size_t k = std::min<size_t>(max - f.size(), c.size(1, 300)); f.append(k, '.'); want.append(k, '.'); }
  }
  if (n && esc) c.nontrivial();
  c.label(n == 0 ? "no placeholder" : n < 4 ? "few" : "many");
  c.trace("format %s -> %s\n", pbt::quote(f).c_str(), pbt::quote(want).c_str());
  auto got = format(f, v, n == 0 && c.flip());
  PBT_CHECK(c, got == want, "Format(%s) gave %s (%zu bytes) instead of %s (%zu bytes)", pbt::quote(f).c_str(), pbt::quote(got).c_str(), got.size(), pbt::quote(want).c_str(), want.size());
  PBT_CHECK(c, got.c_str()[got.size()] == '\0', "result not terminated");
}

SCENARIO(literal_calls, 40000, 1000000, false, "calls written as a user would; non-trivial: always") {
  c.nontrivial();
  int i = int(pbt::gen_int(c));
  std::string s = text(c);
  auto eq = [&](const std::string& got, const std::string& want) { PBT_CHECK(c, got == want, "%s instead of %s", pbt::quote(got).c_str(), pbt::quote(want).c_str()); };
  eq(rst::Format("{} purchased {} {}", {"Bob", i, s}), "Bob purchased " + dec(i) + " " + s);
  eq(rst::Format(""), "");
  eq(rst::Format("{}", {s}), s);
  eq(rst::Format("{{{}}}", {s}), "{" + s + "}");
  eq(rst::Format("{{}}"), "{}");
  eq(rst::Format("{}{}", {s, i}), s + dec(i));
  eq(rst::Format("plain"), "plain");
}

SCENARIO(long_arguments, 400, 8000, false, "1 to 3 arguments, each of 256 bytes to 16 MiB and often about a power of two, as strings, views and C strings between others; non-trivial: over 64 kB") {
  const size_t n = 1 + c.draw(3);
  std::vector<std::string> t;
  size_t all = 0;
  for (size_t i = 0; i < n; i++) {
    t.push_back(long_text(c));
    for (auto& ch : t[i]) if (ch == 0) ch = '0';
    all += t[i].size();
    c.trace("%zu bytes\n", t[i].size());
  }
  if (all > 65536) c.nontrivial();
  const int64_t v = pbt::gen_int(c);
  std::string got, want;
  switch (n) {
    case 1: got = rst::Format("{}", {t[0]}); want = t[0]; break;
    case 2: got = rst::Format("{{{}}} {}{}", {std::string_view(t[0]), v, t[1].c_str()}); want = "{" + t[0] + "} " + dec(v) + t[1]; break;
    default: got = rst::Format("{}{}|{}{{", {t[0], t[1].c_str(), std::string_view(t[2])}); want = t[0] + t[1] + "|" + t[2] + "{"; break;
  }
  PBT_CHECK(c, got.size() == want.size(), "%zu bytes instead of %zu", got.size(), want.size());
  PBT_CHECK(c, got == want, "wrong bytes in a result of %zu", got.size());
}

#if defined(NDEBUG) && !defined(__SANITIZE_ADDRESS__)
SCENARIO(gigabytes, 2, 4, false, "results just over 2^31 and 2^32 bytes, made of one string given many times; non-trivial: always") {
  c.nontrivial();
  const bool four = c.flip();
  const size_t len = (size_t(1) << 28) + c.draw(1000);
  const size_t times = four ? 16 : 8;
  c.trace("%zu bytes %zu times\n", len, times);
  std::string s(len, 'q');
  for (size_t i = 0; i < len; i += 4093) s[i] = char(1 + (i / 4093) % 255);
  const std::string_view v = s;
  std::string got = four ? rst::Format("{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}}}", {v, v, v, v, v, v, v, v, v, v, v, v, v, v, v, v})
                         : rst::Format("{}{}{}{}{}{}{}{}}}", {v, v, v, v, v, v, v, v});
  PBT_CHECK(c, got.size() == len * times + 1, "%zu bytes instead of %zu", got.size(), len * times + 1);
  for (size_t i = 0; i < times; i++) PBT_CHECK(c, memcmp(got.data() + i * len, s.data(), len) == 0, "part %zu differs", i);
  PBT_CHECK(c, got.back() == '}', "the end differs");
}
#endif

#ifndef NDEBUG
SCENARIO(invalid_formats, 6000, 150000, false,
         "random strings over braces and other bytes with 0 to 4 arguments: the process stops exactly when a reference parser rejects them; non-trivial: rejected") {
  size_t len = c.size(0, 14);
  std::string f;
  for (size_t i = 0; i < len; i++) f += "{}{}{}ab "[c.draw(9)];
  // Reference parse.
  bool ok = true;
  size_t need = 0;
  std::string want;
  for (size_t i = 0; ok && i < f.size(); i++) {
    if (f[i] == '{') {
      if (i + 1 < f.size() && f[i + 1] == '}') { need++; i++; want += "#"; }
      else if (i + 1 < f.size() && f[i + 1] == '{') { i++; want += '{'; }
      else ok = false;
    } else if (f[i] == '}') {
      if (i + 1 < f.size() && f[i + 1] == '}') { i++; want += '}'; }
      else ok = false;
    } else {
      want += f[i];
    }
  }
  size_t n = c.weighted({2, 1}) == 0 ? need : c.draw(5);
  if (n > 8) n = 8;
  if (ok && n != need) ok = false;
  std::vector<Slot> v;
  for (size_t i = 0; i < n; i++) { Slot s; s.kind = 0; s.s = c.flip() ? "#" : "###"; v.push_back(s); }
  if (ok) for (auto& s : v) s.s = "#";
  if (!ok) c.nontrivial();
  c.label(ok ? "valid" : "invalid");
  c.trace("format %s with %zu arguments\n", pbt::quote(f).c_str(), n);
  auto d = pbt::run_forked([&] { pbt::say(format(f, v, n == 0)); });
  if (ok) PBT_CHECK(c, d.survived() && d.out == want, "valid format %s: %s, output %s", pbt::quote(f).c_str(), d.describe().c_str(), pbt::quote(d.out).c_str());
  else PBT_CHECK(c, d.aborted(), "invalid format %s with %zu arguments: %s", pbt::quote(f).c_str(), n, d.describe().c_str());
}
#endif

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of valid_formats, literal_calls; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 20, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_valid_formats(t); break;
      default: scenario_literal_calls(t); break;
    }
  });
}
