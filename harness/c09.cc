// C09: file contents round-trip byte for byte.
#include <atomic>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>

#include <fstream>
#include <thread>

#include "rst/files/file_utils.h"
#include "sysfault.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
std::string slurp(const std::string& p) {
  std::string s;
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return "<cannot open>";
  char buf[65536];
  for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) s.append(buf, size_t(n));
  close(fd);
  return s;
}
void put(const std::string& p, const std::string& s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (size_t k = 0; k < s.size();) {
    ssize_t n = write(fd, s.data() + k, s.size() - k);
    if (n <= 0) abort();
    k += size_t(n);
  }
  close(fd);
}
size_t gen_size(Ctx& c) {
  static const size_t edge[] = {0, 1, 2, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131070, 131071, 131072, 131073, 131074, 262142, 262143, 262144, 262145};
  switch (c.weighted({4, 4, 3, 1})) {
    case 0: return c.size(0, 64);
    case 1: return c.pick(edge);
    case 2: return c.size(0, 20000);
    default: return c.size(0, 1 << 20);
  }
}
std::string gen_content(Ctx& c) {
  size_t n = gen_size(c);
  uint64_t k = c.draw(1000);
  std::string s(n, '\0');
  switch (c.weighted({5, 1, 1, 1})) {
    case 0: for (size_t i = 0; i < n; i += 8) { uint64_t h = pbt::hash64(k * 1000003 + i); memcpy(&s[i], &h, n - i < 8 ? n - i : 8); } break;
    case 1: s.assign(n, "\0\xff\r\n\x1a"[k % 5]); break;
    case 2: for (size_t i = 0; i < n; i++) s[i] = "\r\n\x1a\0"[(i * 7 + k) % 4]; break;
    default: for (size_t i = 0; i < n; i++) s[i] = char('a' + (i + k) % 26); break;
  }
  return s;
}
// What a program may write next: something else, or the old contents with a
// small change.
std::string gen_next(Ctx& c, const std::string& old) {
  std::string s = old;
  switch (c.weighted({4, 4, 1, 1, 1})) {
    case 0: return gen_content(c);
    case 1:
      if (s.empty()) return "x";
      for (size_t n = c.size(1, 2); n--;) s[c.chance(1, 3) ? s.size() - 1 : c.draw(s.size())] ^= char(1 << c.draw(8));
      return s;
    case 2: return s.substr(0, c.draw(s.size() + 1));
    case 3: return s + gen_content(c);
    default: return s;
  }
}
std::string where(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return pbt::strf("sizes %zu and %zu, first difference at %zu", a.size(), b.size(), i);
}
std::atomic<int> g_n{0};
std::string fresh_dir(bool far) {
  std::string d = (far && !pbt::far_scratch().empty() ? pbt::far_scratch() : pbt::scratch()) + "/d" + std::to_string(getpid()) + "_" + std::to_string(g_n++);
  mkdir(d.c_str(), 0755);
  return d;
}
struct Dir {
  explicit Dir(bool far = false) : path(fresh_dir(far)) {}
  std::string path;
  ~Dir() { std::error_code ec; std::filesystem::remove_all(path, ec); }
};
struct St { off_t size; ino_t ino; mode_t mode; long mt, mtn; nlink_t nl; };
St stat_of(const std::string& p) {
  struct stat s{};
  stat(p.c_str(), &s);
  return {s.st_size, s.st_ino, s.st_mode, s.st_mtim.tv_sec, s.st_mtim.tv_nsec, s.st_nlink};
}
const char* const kNames[] = {"f", "a b", "x.tmp", "\xd1\x84", "new\nline", "%s%n", ".hidden", "looooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong"};
}  // namespace

SCENARIO(write_read, 5000, 60000, false,
         "histories of writes (plain, important and by others) of random contents, or small changes of the old ones, to a few files of a directory, read back by the library and independently after each; "
         "non-trivial: a write over a file with other contents, and more than one byte") {
  const bool far = c.chance(1, 6);
  Dir d(far);
  if (far && !pbt::far_scratch().empty()) c.label("another file system");
  std::vector<std::string> names;
  size_t files = c.size(1, 3);
  for (size_t k = 0; k < files; k++) names.push_back(d.path + "/" + std::to_string(k) + c.pick(kNames));
  std::vector<std::string> now(files);
  std::vector<bool> there(files);
  if (c.chance(1, 4)) {  // The destination is a symbolic link to a file.
    std::string target = d.path + "/target";
    put(target, "old target");
    if (symlink(target.c_str(), names[0].c_str()) != 0) c.fail("symlink");
    now[0] = "old target";
    there[0] = true;
    c.label("symlink");
  }
  bool rel = c.chance(1, 6) && c.mode_ != Ctx::kChild;
  if (rel) { if (chdir(d.path.c_str()) != 0) c.fail("chdir"); }
  auto name_of = [&](size_t k) { return rel ? names[k].substr(d.path.size() + 1) : names[k]; };
  for (size_t op = 0, ops = c.size(1, 5); op < ops; op++) {
    size_t k = c.draw(files);
    std::string s = there[k] ? gen_next(c, now[k]) : gen_content(c);
    bool important = c.flip();
    if (there[k] && s.size() == now[k].size() && s != now[k]) c.label("small change");
    if (there[k] && c.chance(1, 5)) {  // Somebody else writes the file.
      c.trace("outside write of %zu bytes to %zu (was %zu)\n", s.size(), k, now[k].size());
      put(names[k], s);
      now[k] = s;
      pbt::stale_errno(c);
      auto r = rst::ReadFile(name_of(k));
      PBT_CHECK(c, !r.err(), "read failed: %s", r.status().GetError()->AsString().c_str());
      PBT_CHECK(c, *r == s, "file %zu changed by others reads differently: %s", k, where(*r, s).c_str());
      s = gen_next(c, s);
    }
    c.trace("%s %zu bytes to %zu (was %s%zu)\n", important ? "important write of" : "write of", s.size(), k, there[k] ? "" : "absent, ", now[k].size());
    if (s.size() > 1 && there[k] && now[k] != s) c.nontrivial();
    c.label(!there[k] ? "absent" : now[k].size() > s.size() ? "was longer" : now[k].size() < s.size() ? "was shorter" : "was as long");
    pbt::stale_errno(c);
    rst::Status st = important ? rst::WriteImportantFile(name_of(k), s) : rst::WriteFile(name_of(k).c_str(), s);
    PBT_CHECK(c, !st.err(), "write failed: %s", st.GetError()->AsString().c_str());
    now[k] = s;
    there[k] = true;
    for (size_t f = 0; f < files; f++) {
      if (!there[f]) {
        PBT_CHECK(c, access(names[f].c_str(), F_OK) != 0, "file %zu appeared", f);
        continue;
      }
      std::string raw = slurp(names[f]);
      PBT_CHECK(c, raw == now[f], "file %zu differs from what was written: %s", f, where(raw, now[f]).c_str());
      St a = stat_of(names[f]);
      pbt::stale_errno(c);
      auto r = rst::ReadFile(name_of(f));
      PBT_CHECK(c, !r.err(), "read failed: %s", r.status().GetError()->AsString().c_str());
      PBT_CHECK(c, *r == now[f], "file %zu read back differs: %s", f, where(*r, now[f]).c_str());
      St b = stat_of(names[f]);
      PBT_CHECK(c, a.size == b.size && a.ino == b.ino && a.mode == b.mode && a.mt == b.mt && a.mtn == b.mtn && a.nl == b.nl, "reading changed the file");
    }
  }
  size_t n = 0, want = 0;
  for (auto& e : std::filesystem::directory_iterator(d.path)) { (void)e; n++; }
  for (size_t f = 0; f < files; f++) want += there[f];
  if (access((d.path + "/target").c_str(), F_OK) == 0) want++;
  PBT_CHECK(c, n == want, "%zu directory entries instead of %zu", n, want);
  if (rel && chdir("/") != 0) c.fail("chdir");
}

SCENARIO(read_fifo, 1500, 20000, false,
         "contents streamed through a FIFO (reported size 0) in random chunks; non-trivial: two or more chunks") {
  Dir d;
  std::string p = d.path + "/fifo";
  if (mkfifo(p.c_str(), 0644) != 0) c.fail("mkfifo");
  std::string s;
  std::vector<size_t> chunks;
  for (size_t n = c.size(0, 6); n--;) { std::string t = gen_content(c); chunks.push_back(t.size()); s += t; }
  std::string pauses;
  for (size_t k = 0; k < chunks.size(); k++) pauses += char(c.chance(1, 3));
  c.trace("%zu bytes in %zu chunks\n", s.size(), chunks.size());
  if (chunks.size() >= 2) c.nontrivial();
  std::thread w([&] {
    int fd = open(p.c_str(), O_WRONLY);
    size_t at = 0;
    for (size_t k = 0; k < chunks.size(); k++) {
      if (pauses[k]) usleep(300);
      for (size_t end = at + chunks[k]; at < end;) {
        ssize_t n = write(fd, s.data() + at, end - at);
        if (n <= 0) abort();
        at += size_t(n);
      }
    }
    close(fd);
  });
  auto r = rst::ReadFile(p);
  w.join();
  PBT_CHECK(c, !r.err(), "read failed: %s", r.status().GetError()->AsString().c_str());
  PBT_CHECK(c, *r == s, "content of the FIFO differs: %s", where(*r, s).c_str());
}

SCENARIO(read_special, 200, 2000, false, "files of /proc, /sys, /dev and the system directories, which misreport their size, against an independent reader; non-trivial: reported and real size differ") {
  static const char* const files[] = {"/proc/version", "/proc/filesystems", "/proc/self/cmdline", "/proc/self/environ", "/proc/self/limits", "/proc/sys/kernel/ostype", "/dev/null",
                                      "/proc/self/comm", "/sys/kernel/mm/transparent_hugepage/enabled", "/etc/passwd", "/proc/self/exe", "/proc/devices", "/proc/kallsyms", "/proc/crypto", "/proc/self/mountinfo", "/etc/hostname", "/proc/config.gz"};
  const char* f = c.pick(files);
  c.trace("%s\n", f);
  std::string a = slurp(f);
  if (a == "<cannot open>") return;
  struct stat st{};
  stat(f, &st);
  if (size_t(st.st_size) != a.size()) c.nontrivial();
  // The kernel may change them meanwhile: only a difference that stays counts.
  for (int tries = 0;; tries++) {
    auto r = rst::ReadFile(f);
    PBT_CHECK(c, !r.err(), "read of %s failed: %s", f, r.status().GetError()->AsString().c_str());
    if (*r == a) break;
    const std::string b = slurp(f);
    if (a == b && tries >= 10) PBT_CHECK(c, *r == a, "%s: %s", f, where(*r, a).c_str());
    if (tries >= 40) break;
    a = b;
  }
}

SCENARIO(read_misreported, 2500, 40000, false,
         "regular files read while every stat-like call reports a random wrong size (or fails) and reads are cut short at random; non-trivial: wrong size or short reads and more than one byte") {
  Dir d;
  std::string p = d.path + "/f";
  std::string s = gen_content(c);
  put(p, s);
  static const int64_t sizes[] = {0, 1, 2, 100, 4095, 4096, 4097, 131070, 131071, 131072, 1 << 20};
  int how = int(c.draw(3));
  int64_t size = c.flip() ? c.pick(sizes) : std::max<int64_t>(0, int64_t(s.size()) + c.range(-3, 3));
  bool cut = c.chance(1, 3);
  uint64_t salt = c.draw(1u << 20);
  c.trace("%zu bytes, stat %s %ld, %s reads\n", s.size(), how == 0 ? "honest" : how == 1 ? "reports" : "fails", long(size), cut ? "short" : "full");
  if ((how || cut) && s.size() > 1) c.nontrivial();
  sysfault::Options o;
  int reads = 0, stats = 0;
  o.on_stop = [&](const sysfault::Stop& st) {
    sysfault::Act a;
    if (!st.entry || st.path != p) return a;
    if (st.kind == sysfault::kStat && how) { stats++; a.what = how == 1 ? sysfault::Act::kSize : sysfault::Act::kFail; a.value = how == 1 ? size : ENOENT; }
    if (st.kind == sysfault::kRead && cut) { a.what = sysfault::Act::kShorten; uint64_t h = pbt::hash64(salt + uint64_t(reads++)); a.value = h % 3 == 0 ? 1 + int64_t(h / 3 % 7) : 1 + int64_t(h / 3 % 50000); }
    return a;
  };
  // fstat() goes by descriptor: its own kind of path.
  auto* shared = static_cast<char*>(nullptr);
  (void)shared;
  std::string out = d.path + "/verdict";
  auto res = sysfault::run({[&] {
    auto r = rst::ReadFile(p);
    std::string v = r.err() ? "error: " + r.status().GetError()->AsString() : *r == s ? "ok" : where(*r, s);
    put(out, v);
  }}, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean, "reader died: %s", res.text.c_str());
  std::string v = slurp(out);
  if (stats) c.label("size asked");
  if (v.rfind("error", 0) == 0) { PBT_CHECK(c, how == 2 && stats, "read failed: %s", v.c_str()); c.label("error"); return; }
  PBT_CHECK(c, v == "ok", "read differs: %s", v.c_str());
}

#if defined(NDEBUG) && !defined(__SANITIZE_ADDRESS__)
std::vector<size_t> far_marks(pbt::Ctx& c, size_t n) { return {0, 4095, 131071, (size_t(1) << 31) - 5, n - 1 - c.draw(50)}; }

SCENARIO(gigabytes_read, 1, 4, false, "a file of 2^32 bytes and some more, mostly a hole, read; non-trivial: always") {
  c.nontrivial();
  Dir d(true);
  const std::string p = d.path + "/f";
  const size_t n = (size_t(1) << 32) + c.draw(100000);
  const auto at = far_marks(c, n);
  if (!pbt::memory_for(3 * n)) return;
  c.trace("%zu bytes\n", n);
  put(p, "");
  int fd = open(p.c_str(), O_WRONLY);
  bool ok = ftruncate(fd, off_t(n)) == 0;
  for (size_t k : at) ok = ok && pwrite(fd, "mark", std::min<size_t>(4, n - k), off_t(k)) > 0;
  close(fd);
  if (!ok) return;
  auto r = rst::ReadFile(p);
  PBT_CHECK(c, !r.err(), "read failed: %s", r.status().GetError()->AsString().c_str());
  PBT_CHECK(c, r->size() == n, "%zu bytes read instead of %zu", r->size(), n);
  for (size_t k : at) PBT_CHECK(c, memcmp(r->data() + k, "mark", std::min<size_t>(4, n - k)) == 0, "the bytes at %zu differ", k);
  PBT_CHECK(c, (*r)[n / 2] == 0, "the byte at %zu differs", n / 2);
}

SCENARIO(gigabytes_written, 1, 4, false, "contents of 2^31 bytes and some more written in both ways; non-trivial: always") {
  c.nontrivial();
  for (bool important : {false, true}) {
    Dir d(true);
    const std::string p = d.path + "/f";
    const size_t n = (size_t(1) << 31) + c.draw(100000);
    const auto at = far_marks(c, n);
    c.trace("%zu bytes%s\n", n, important ? ", important" : "");
    struct statvfs vfs{};
    if (!pbt::memory_for(3 * n) || statvfs(d.path.c_str(), &vfs) != 0 || uint64_t(vfs.f_bavail) * vfs.f_bsize < 2 * n) return;
    std::string s(n, '\0');
    for (size_t k : at) memcpy(&s[k], "mark", std::min<size_t>(4, n - k));
    auto st = important ? rst::WriteImportantFile(p, s) : rst::WriteFile(p.c_str(), s);
    PBT_CHECK(c, !st.err(), "write failed: %s", st.GetError()->AsString().c_str());
    PBT_CHECK(c, size_t(stat_of(p).size) == n, "%zu bytes written instead of %zu", size_t(stat_of(p).size), n);
    int fd = open(p.c_str(), O_RDONLY);
    for (size_t k : at) {
      char b[4] = {};
      const size_t m = std::min<size_t>(4, n - k);
      const bool same = pread(fd, b, m, off_t(k)) == ssize_t(m) && memcmp(b, "mark", m) == 0;
      if (!same) { close(fd); c.fail("the bytes at %zu differ", k); }
    }
    close(fd);
  }
}
#endif

SCENARIO(threads, 100, 2000, false,
         "2 to 4 threads at the same time, each with cases of its own of write_read; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 4, [](Ctx& t) {
    scenario_write_read(t);
  });
}
