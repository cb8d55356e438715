// C12: GUID form, independence of bits, uniqueness, and the two validators.
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <cctype>
#include <cmath>
#include <memory>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <unordered_set>

#include "pbt.h"
#include "rst/guid/guid.h"
using pbt::Ctx;

namespace {
bool ref_hex(char ch, bool lower_only) {
  if (ch >= '0' && ch <= '9') return true;
  if (ch >= 'a' && ch <= 'f') return true;
  return !lower_only && ch >= 'A' && ch <= 'F';
}
bool ref_valid(std::string_view s, bool lower_only) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; i++) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? s[i] != '-' : !ref_hex(s[i], lower_only)) return false;
  }
  return true;
}
// Empty if |s| is a well formed version 4 GUID.
std::string malformed(std::string_view s) {
  if (!ref_valid(s, true)) return "not of the output form";
  if (s[14] != '4') return "version digit is not 4";
  if (s[19] != '8' && s[19] != '9' && s[19] != 'a' && s[19] != 'b') return "variant digit is not 8, 9, a or b";
  return "";
}
void to_bits(std::string_view s, std::array<bool, 128>& b) {
  size_t k = 0;
  for (char ch : s) {
    if (ch == '-') continue;
    int d = ch <= '9' ? ch - '0' : ch - 'a' + 10;
    for (int j = 3; j >= 0; j--) b[k++] = (d >> j) & 1;
  }
}
const char kDigits[] = "0123456789abcdef";
std::string gen_valid(Ctx& c) {
  std::string s;
  for (size_t i = 0; i < 36; i++) s += (i == 8 || i == 13 || i == 18 || i == 23) ? '-' : kDigits[c.draw(16)];
  return s;
}
}  // namespace

SCENARIO(validators, 300000, 10000000, false,
         "well-formed strings and mutations of them (case, any byte at any position, moved or extra dashes, other lengths, views into larger buffers) against a "
         "reference predicate; non-trivial: exactly one small mutation, or accepted") {
  std::string s = gen_valid(c);
  size_t muts = c.weighted({3, 5, 2, 1});
  for (size_t m = 0; m < muts && !s.empty(); m++) {
    size_t i = c.draw(s.size());
    switch (c.draw(9)) {
      case 0: s[i] = char(toupper(s[i])); break;
      case 1: s[i] = char(c.draw(256)); break;
      case 2: { static const char near[] = {'/', ':', '`', 'g', '@', 'G', '-', 'F', 'f', '9', '0', 'A', 'a', ' ', '\0'}; s[i] = c.pick(near); break; }
      case 3: s.erase(i, 1); break;
      case 4: s.insert(i, 1, "0-fF"[c.draw(4)]); break;
      case 5: { size_t j = c.draw(s.size()); std::swap(s[i], s[j]); break; }
      case 6: for (auto& ch : s) ch = char(toupper(ch)); break;
      case 7: s += pbt::gen_bytes(c, 5); break;
      default: { static const size_t d[] = {8, 13, 18, 23}; size_t p = c.pick(d); if (p < s.size()) s[p] = "0afA_ -"[c.draw(7)]; break; }
    }
  }
  if (c.draw(20) == 19) s = pbt::gen_bytes(c, 50);
  if (c.draw(40) == 39) s = "{" + s + "}";
  const bool want = ref_valid(s, false), want_out = ref_valid(s, true);
  if (muts == 1 || want) c.nontrivial();
  c.label(want_out ? "output form" : want ? "upper case" : "rejected");
  c.trace("%s\n", pbt::quote(s).c_str());
  // Exactly sized heap buffer, or in the middle of a longer valid text.
  std::unique_ptr<char[]> exact(new char[s.size()]);
  memcpy(exact.get(), s.data(), s.size());
  std::string_view v(exact.get(), s.size());
  PBT_CHECK(c, rst::Guid::IsValid(v) == want, "IsValid(%s) is %d", pbt::quote(s).c_str(), !want);
  PBT_CHECK(c, rst::Guid::IsValidOutputString(v) == want_out, "IsValidOutputString(%s) is %d", pbt::quote(s).c_str(), !want_out);
  std::string longer = s + "0123";
  std::string_view w(longer.data(), s.size());
  PBT_CHECK(c, rst::Guid::IsValid(w) == want && rst::Guid::IsValidOutputString(w) == want_out, "differs for a view into a longer string: %s", pbt::quote(s).c_str());
}

SCENARIO(every_position, 1, 1, false, "every byte value at each of the 36 positions of valid strings, enumerated; non-trivial: always") {
  c.nontrivial();
  for (int r = 0; r < 4; r++) {
    std::string base = gen_valid(c);
    if (r == 3) for (auto& ch : base) ch = char(toupper(ch));
    for (size_t i = 0; i < 36; i++)
      for (int b = 0; b < 256; b++) {
        std::string s = base;
        s[i] = char(b);
        PBT_CHECK(c, rst::Guid::IsValid(s) == ref_valid(s, false), "IsValid wrong for %s", pbt::quote(s).c_str());
        PBT_CHECK(c, rst::Guid::IsValidOutputString(s) == ref_valid(s, true), "IsValidOutputString wrong for %s", pbt::quote(s).c_str());
      }
  }
}

SCENARIO(generated_form, 20, 400, false,
         "batches of 8000 generated GUIDs: form, stability of rendering, balance and pairwise independence of all 122 free bits; non-trivial: always") {
  c.nontrivial();
  c.draw(1u << 30);
  constexpr size_t kN = 8000;
  std::vector<std::array<bool, 128>> bits(kN);
  std::unordered_set<std::string> seen;
  rst::Guid prev;
  std::string prev_s = prev.AsString();
  seen.insert(prev_s);
  for (size_t i = 0; i < kN; i++) {
    const rst::Guid g;
    std::string s = g.AsString();
    auto bad = malformed(s);
    PBT_CHECK(c, bad.empty(), "%s: %s", pbt::quote(s).c_str(), bad.c_str());
    PBT_CHECK(c, g.AsString() == s && g.AsStringView().value() == s, "rendering differs: %s, then %s", s.c_str(), g.AsString().c_str());
    PBT_CHECK(c, prev.AsString() == prev_s, "an earlier GUID changed from %s to %s", prev_s.c_str(), prev.AsString().c_str());
    rst::Guid copy = g;
    PBT_CHECK(c, copy.AsString() == s, "copy renders differently");
    PBT_CHECK(c, rst::Guid::IsValid(s) && rst::Guid::IsValidOutputString(s), "own output %s is not valid", s.c_str());
    PBT_CHECK(c, seen.insert(s).second, "%s generated twice", s.c_str());
    to_bits(s, bits[i]);
    if (i % 64 == 0) { prev = g; prev_s = s; }
    if (i < 3) c.trace("%s\n", s.c_str());
  }
  // 8 standard deviations: about 1e-15 per statistic.
  const double sigma = std::sqrt(double(kN)) / 2;
  std::vector<int> free_bits;
  for (int b = 0; b < 128; b++) if (!(b >= 48 && b < 52) && b != 64 && b != 65) free_bits.push_back(b);
  for (int b : free_bits) {
    size_t ones = 0;
    for (auto& x : bits) ones += x[size_t(b)];
    PBT_CHECK(c, std::fabs(double(ones) - kN / 2.0) < 8 * sigma, "bit %d is set in %zu of %zu", b, ones, kN);
    // Against the same bit of the next one.
    size_t same = 0;
    for (size_t i = 0; i + 1 < kN; i++) same += bits[i][size_t(b)] == bits[i + 1][size_t(b)];
    PBT_CHECK(c, std::fabs(double(same) - kN / 2.0) < 8 * sigma + 1, "bit %d repeats in %zu of %zu consecutive", b, same, kN);
  }
  // Pairs of bits, packed.
  std::vector<std::vector<uint64_t>> packed(128, std::vector<uint64_t>((kN + 63) / 64));
  for (size_t i = 0; i < kN; i++) for (size_t b = 0; b < 128; b++) if (bits[i][b]) packed[b][i / 64] |= uint64_t{1} << (i % 64);
  for (size_t x = 0; x < free_bits.size(); x++)
    for (size_t y = x + 1; y < free_bits.size(); y++) {
      size_t differ = 0;
      auto &p = packed[size_t(free_bits[x])], &q = packed[size_t(free_bits[y])];
      for (size_t i = 0; i < p.size(); i++) differ += size_t(__builtin_popcountll(p[i] ^ q[i]));
      PBT_CHECK(c, std::fabs(double(differ) - kN / 2.0) < 8 * sigma, "bits %d and %d differ in %zu of %zu", free_bits[x], free_bits[y], differ, kN);
    }
}

SCENARIO(unique, 6, 60, true,
         "GUIDs generated by 1 to 8 threads and 0 to 6 forked processes, forked before or after first use (also threads started in children): all distinct; "
         "non-trivial: several threads or processes") {
  size_t threads = c.size(1, 8), forks = c.draw(7);
  const bool warm = c.flip();
  const size_t per = 6000 + c.draw(20000);
  const bool late = c.flip();
  if (threads > 1 || forks) c.nontrivial();
  c.trace("%zu threads, %zu forks, %s, %zu each\n", threads, forks, warm ? "forked after first use" : "forked before first use", per);
  std::vector<std::string> all;
  if (warm) for (int i = 0; i < 3; i++) all.push_back(rst::Guid().AsString());
  auto batch = [&](std::vector<std::string>& out, size_t t, size_t n) {
    std::vector<std::vector<std::string>> parts(t);
    std::vector<std::thread> ts;
    for (size_t k = 0; k < t; k++) ts.emplace_back([&, k] { for (size_t i = 0; i < n; i++) parts[k].push_back(rst::Guid().AsString()); });
    for (auto& x : ts) x.join();
    for (auto& p : parts) out.insert(out.end(), p.begin(), p.end());
  };
  std::vector<std::pair<pid_t, int>> kids;
  for (size_t k = 0; k < forks; k++) {
    int p[2];
    if (pipe(p)) abort();
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      std::vector<std::string> mine;
      for (size_t i = 0; i < per; i++) mine.push_back(rst::Guid().AsString());
      if (late) batch(mine, 2, 200);
      std::string buf;
      for (auto& s : mine) buf += s + "\n";
      size_t off = 0;
      while (off < buf.size()) { ssize_t w = write(p[1], buf.data() + off, buf.size() - off); if (w <= 0) break; off += size_t(w); }
      _exit(0);
    }
    close(p[1]);
    kids.push_back({pid, p[0]});
    if (warm) all.push_back(rst::Guid().AsString());
  }
  for (size_t i = 0; i < 50; i++) all.push_back(rst::Guid().AsString());
  batch(all, threads, per);
  for (auto& [pid, fd] : kids) {
    std::string buf;
    char b[65536];
    ssize_t r;
    while ((r = read(fd, b, sizeof b)) > 0) buf.append(b, size_t(r));
    close(fd);
    waitpid(pid, nullptr, 0);
    PBT_CHECK(c, buf.size() == (per + (late ? 400 : 0)) * 37, "child output has %zu bytes", buf.size());
    for (size_t i = 0; i < buf.size(); i += 37) all.push_back(buf.substr(i, 36));
  }
  std::unordered_set<std::string> seen;
  for (auto& s : all) {
    auto bad = malformed(s);
    PBT_CHECK(c, bad.empty(), "%s: %s", pbt::quote(s).c_str(), bad.c_str());
    PBT_CHECK(c, seen.insert(s).second, "%s was generated twice among %zu", s.c_str(), all.size());
  }
}

SCENARIO(threads, 200, 6000, false,
         "2 to 4 threads generating, copying, rendering and validating GUIDs at the same time, and rendering one shared GUID; all distinct and well formed; data races "
         "found by TSan; non-trivial: always") {
  c.nontrivial();
  const rst::Guid shared;
  const std::string shared_s = rst::Guid(shared).AsString();
  std::mutex mu;
  std::unordered_set<std::string> seen{shared_s};
  pbt::in_threads_i(c, 20, [&](Ctx& t, int) {
    const rst::Guid g;
    const rst::Guid copy = g;
    std::string s = t.flip() ? g.AsString() : std::string(g.AsStringView().value());
    auto bad = malformed(s);
    PBT_CHECK(t, bad.empty(), "%s: %s", pbt::quote(s).c_str(), bad.c_str());
    std::string x = gen_valid(t);
    if (t.flip()) x[t.draw(36)] = "gA-z/:@G`f9"[t.draw(11)];
    PBT_CHECK(t, rst::Guid::IsValid(x) == ref_valid(x, false), "IsValid wrong for %s", pbt::quote(x).c_str());
    PBT_CHECK(t, rst::Guid::IsValidOutputString(x) == ref_valid(x, true), "IsValidOutputString wrong for %s", pbt::quote(x).c_str());
    PBT_CHECK(t, shared.AsString() == shared_s, "a shared GUID renders as %s, before as %s", shared.AsString().c_str(), shared_s.c_str());
    PBT_CHECK(t, copy.AsString() == s && g.AsString() == s, "%s renders differently: %s, copy %s", s.c_str(), g.AsString().c_str(), copy.AsString().c_str());
    std::lock_guard<std::mutex> l(mu);
    PBT_CHECK(t, seen.insert(s).second, "%s generated twice", s.c_str());
  });
}

SCENARIO(many_threads, 1, 12, false,
         "the first GUIDs of several hundred thousand short-lived threads (a few thousand under a sanitizer) are all distinct, which a generator seeded per thread "
         "with 32 bits would not give; non-trivial: at least 100000 threads") {
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
  constexpr size_t kEach = 500;
#else
  constexpr size_t kEach = 40000;
#endif
#else
  constexpr size_t kEach = 40000;
#endif
  constexpr size_t kSpawners = 8;
  const size_t each = kEach + c.draw(kEach / 10);
  c.trace("%zu threads\n", each * kSpawners);
  if (each * kSpawners >= 100000) c.nontrivial();
  std::vector<std::vector<std::string>> parts(kSpawners);
  std::vector<std::thread> ts;
  for (auto& part : parts) {
    ts.emplace_back([&part, each] {
      part.resize(each);
      for (auto& s : part) std::thread([&s] { s = rst::Guid().AsString(); }).join();
    });
  }
  for (auto& t : ts) t.join();
  std::unordered_set<std::string> seen;
  for (auto& part : parts)
    for (auto& s : part) PBT_CHECK(c, seen.insert(s).second, "%s was generated twice, in two of %zu threads", s.c_str(), each * kSpawners);
}
