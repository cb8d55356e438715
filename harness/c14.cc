// C14: log sinks.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "detsched.h"
#include "file_util.h"
#include "amount.h"
#include "pbt.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"

using pbt::Ctx;

namespace {

std::string gen_message(Ctx& c) {
  switch (c.weighted({5, 3, 2, 2, 2, 1})) {
    case 0: {
      static const char* const kWords[] = {"error", "100%", "%s%n%d", "a\nb", "", " ", "\t", "%", "%%", "\r\n", "\xff\xfe"};
      std::string s;
      for (size_t i = c.size(0, 4); i > 0; i--) s += kWords[c.draw(std::size(kWords))];
      return s;
    }
    case 1: return pbt::gen_bytes(c, 60);
    case 2: {  // With NUL bytes.
      std::string s = pbt::gen_bytes(c, 20);
      s.insert(c.draw(s.size() + 1), 1 + c.draw(3), '\0');
      return s + (c.flip() ? "tail" : "");
    }
    case 3: return std::string(c.pick({size_t(1), size_t(127), size_t(1023), size_t(4095), size_t(4096), size_t(4097), size_t(8192)}), 'x');
    case 4: return "";
    default: return std::string(c.size(5000, 140000), char('a' + c.draw(26)));
  }
}

// An in-memory stdio stream that counts and can refuse.
struct Stream {
  std::string data;
  int closes = 0;
  size_t accept = SIZE_MAX;  // bytes accepted before writes fail
  int writes = 0;
  bool close_fails = false;
  static ssize_t write(void* p, const char* b, size_t n) {
    Stream* s = static_cast<Stream*>(p);
    s->writes++;
    if (s->data.size() + n > s->accept) {
      const size_t k = s->accept - std::min(s->accept, s->data.size());
      if (k == 0) { errno = ENOSPC; return 0; }
      n = k;
    }
    s->data.append(b, n);
    return ssize_t(n);
  }
  static int close(void* p) {
    Stream* s = static_cast<Stream*>(p);
    s->closes++;
    if (s->close_fails) { errno = EIO; return -1; }
    return 0;
  }
  FILE* open() {
    cookie_io_functions_t f{};
    f.write = write;
    f.close = close;
    return fopencookie(this, "w", f);
  }
};

bool has_nul(const std::string& s) { return s.find('\0') != std::string::npos; }

}  // namespace

SCENARIO(file_name, 12000, 400000, false,
         "a sink opened by a generated name over a missing, empty or filled file, with generated messages (any bytes, up to "
         "140 kB); the file is compared after every call, descriptors after destruction; names that cannot be opened "
         "must give a LogError; non-trivial: an existing file was truncated and 2 messages with special bytes logged") {
  fu::Dir dir;
  const int before = fu::open_fds();
  const std::string name = pbt::strf("%s/log%llu", dir.path.c_str(), (unsigned long long)c.draw(10));
  std::string old;
  const bool existed = c.flip();
  if (existed) { old = pbt::gen_bytes(c, 3000); fu::put(name, old); }
  if (c.chance(1, 6)) {
    std::string bad;
    switch (c.draw(4)) {
      case 0: bad = dir.path + "/missing/log"; break;
      case 1: bad = dir.path; break;
      case 2: bad = ""; break;
      default: bad = dir.path + "/" + std::string(300, 'n');
    }
    c.trace("open %s\n", pbt::quote(bad).c_str());
    pbt::stale_errno(c);
    auto r = rst::FileNameSink::Create(bad.c_str());
    PBT_CHECK(c, r.err(), "opening %s succeeded", pbt::quote(bad).c_str());
    PBT_CHECK(c, rst::dyn_cast<rst::LogError>(r.status().GetError()) != nullptr, "not a LogError");
    PBT_CHECK(c, fu::open_fds() == before, "descriptor leaked by a failed open");
    c.label("cannot open");
    return;
  }
  size_t special = 0;
  std::string want;
  {
    pbt::stale_errno(c);
    auto r = rst::FileNameSink::Create(name.c_str());
    PBT_CHECK(c, !r.err(), "cannot open %s", name.c_str());
    auto& sink = *r;
    PBT_CHECK(c, fu::slurp(name).empty(), "the file was not truncated");
    const size_t n = c.size(0, 8);
    for (size_t i = 0; i < n; i++) {
      const std::string m = gen_message(c);
      c.trace("log %s (%zu bytes)\n", pbt::quote(m).c_str(), m.size());
      special += has_nul(m) || m.find('%') != std::string::npos || m.find('\n') != std::string::npos;
      want += m + "\n";
      // The message need not be terminated.
      auto heap = std::make_unique<char[]>(m.size());
      memcpy(heap.get(), m.data(), m.size());
      pbt::stale_errno(c);
      sink->Log(std::string_view(heap.get(), m.size()));
      const std::string got = fu::slurp(name);
      PBT_CHECK(c, got == want, "after message %zu the file holds %zu bytes, expected %zu (%s)", i, got.size(), want.size(),
                fu::where(got, want).c_str());
      if (has_nul(m)) c.label("NUL byte");
      if (m.size() > 4096) c.label("long");
    }
  }
  PBT_CHECK(c, fu::slurp(name) == want, "file changed by destruction");
  PBT_CHECK(c, fu::open_fds() == before, "%d descriptors open, %d before", fu::open_fds(), before);
  if (existed && !old.empty() && special >= 2) c.nontrivial();
}

SCENARIO(file_ptr, 30000, 1500000, false,
         "a sink over a stdio stream that counts writes and closes (any buffering mode), owned or not, mixed "
         "with output of the stream's owner; bytes after every call, number of closes; non-trivial: 2 messages and "
         "buffering not the default") {
  Stream st;
  FILE* f = st.open();
  const int mode = int(c.draw(4));
  char* buf = nullptr;
  if (mode == 1) setvbuf(f, nullptr, _IONBF, 0);
  if (mode == 2) setvbuf(f, nullptr, _IOLBF, 200);
  if (mode == 3) { const size_t bs = c.size(1, 64); buf = static_cast<char*>(malloc(bs)); setvbuf(f, buf, _IOFBF, bs); }
  const bool dflt = c.chance(1, 3);
  const bool owned = dflt || c.flip();
  st.close_fails = c.chance(1, 10);
  std::string want;
  size_t n;
  {
    auto make = [&]() -> std::unique_ptr<rst::FilePtrSink> {
      if (dflt) return std::make_unique<rst::FilePtrSink>(rst::NotNull<FILE*>(f));
      return std::make_unique<rst::FilePtrSink>(rst::NotNull<FILE*>(f), rst::FilePtrSink::ShouldClose(owned));
    };
    auto sink = make();
    n = c.size(0, 8);
    for (size_t i = 0; i < n; i++) {
      if (!owned && c.chance(1, 6)) { fputs("direct", f); want += "direct"; }
      const std::string m = gen_message(c);
      want += m + "\n";
      c.trace("log %s (%zu bytes)\n", pbt::quote(m).c_str(), m.size());
      auto heap = std::make_unique<char[]>(m.size());
      memcpy(heap.get(), m.data(), m.size());
      pbt::stale_errno(c);
      sink->Log(std::string_view(heap.get(), m.size()));
      PBT_CHECK(c, st.data == want, "after message %zu: %s", i, fu::where(st.data, want).c_str());
      PBT_CHECK(c, st.closes == 0, "closed by logging");
    }
  }
  PBT_CHECK(c, st.closes == (owned ? 1 : 0), "an %s stream was closed %d times", owned ? "owned" : "unowned", st.closes);
  if (!owned) {
    fputs("after", f);
    fclose(f);
    want += "after";
  }
  PBT_CHECK(c, st.data == want, "stream changed by destruction");
  PBT_CHECK(c, st.closes == 1, "closed %d times in the end", st.closes);
  free(buf);
  c.label(owned ? "owned" : "not owned");
  if (n >= 2 && mode != 0) c.nontrivial();
}

SCENARIO(failing, 4000, 100000, false,
         "a stream or file (size limit, /dev/full) that stops accepting at a generated byte: Log() must return for every "
         "message that was written and stop the process at the first that was not; non-trivial: some message was "
         "written before the failing one, or the failing one in part") {
  const int kind = int(c.weighted({5, 3, 1}));
  std::vector<std::string> msgs(c.size(1, 6));
  for (auto& m : msgs) {
    m = gen_message(c);
    if (m.size() > 9000) m.resize(9000);
  }
  size_t total = 0;
  for (auto& m : msgs) total += m.size() + 1;
  // Often right at the end of a message.
  size_t limit = kind == 2 ? 0 : c.draw(total);
  if (kind != 2 && c.chance(1, 3)) {
    size_t upto = 0;
    for (size_t i = c.draw(msgs.size()) + 1; i > 0; i--) upto += msgs[i - 1].size() + 1;
    limit = upto - 1;
  }
  // Messages written in full.
  size_t ok = 0, sum = 0;
  while (ok < msgs.size() && sum + msgs[ok].size() + 1 <= limit) sum += msgs[ok++].size() + 1;
  std::string want;
  for (auto& m : msgs) want += m + "\n";
  // Not line buffered: there a C library may report success for a failed write
  // (glibc's fwrite() does and drops the data), so which streams can tell isn't
  // a matter of the sink.
  static const int kModes[] = {0, 1, 3};
  const int mode = kModes[c.draw(3)];
  fu::Dir dir;
  const std::string name = dir.path + "/log";
  c.trace("kind %d, %zu messages, limit %zu of %zu, %zu fit, buffering %d\n", kind, msgs.size(), limit, total, ok, mode);
  auto d = pbt::run_forked([&] {
    Stream st;
    std::unique_ptr<rst::Sink> sink;
    if (kind == 0) {
      st.accept = limit;
      FILE* f = st.open();
      if (mode == 1) setvbuf(f, nullptr, _IONBF, 0);
      if (mode == 3) setvbuf(f, nullptr, _IOFBF, 16);
      sink = std::make_unique<rst::FilePtrSink>(rst::NotNull<FILE*>(f));
    } else if (kind == 1) {
      signal(SIGXFSZ, SIG_IGN);
      rlimit rl{limit, limit};
      setrlimit(RLIMIT_FSIZE, &rl);
      auto r = rst::FileNameSink::Create(name.c_str());
      if (r.err()) { pbt::say("cannot open"); return; }
      for (size_t i = 0; i < msgs.size(); i++) {
        (*r)->Log(msgs[i]);
        pbt::mark(i + 1);
      }
      return;
    } else {
      auto r = rst::FileNameSink::Create("/dev/full");
      if (r.err()) { pbt::say("cannot open"); return; }
      (*r)->Log(msgs[0]);
      pbt::mark(1);
      return;
    }
    for (size_t i = 0; i < msgs.size(); i++) {
      sink->Log(msgs[i]);
      if (st.data.size() > want.size() || want.compare(0, st.data.size(), st.data) != 0) pbt::say("wrong bytes");
      pbt::mark(i + 1);
    }
  });
  PBT_CHECK(c, d.out.empty(), "%s", d.out.c_str());
  PBT_CHECK(c, !d.survived(), "the process went on after message %zu could not be written (%s)", ok, d.describe().c_str());
  PBT_CHECK(c, d.aborted(), "not a deliberate stop: %s", d.describe().c_str());
  PBT_CHECK(c, d.progress == ok, "stopped after %llu messages, %zu were written", (unsigned long long)d.progress, ok);
  if (kind == 1) {
    const std::string got = fu::slurp(name);
    PBT_CHECK(c, got.size() >= sum && want.compare(0, got.size(), got) == 0, "file content: %s", fu::where(got, want).c_str());
  }
  if (ok > 0 || limit > 0) c.nontrivial();
}

SCENARIO(concurrent, 12000, 600000, false,
         "1..4 threads log generated messages through one sink (by name, or over an owned or unowned file) in a generated "
         "schedule; after every call the file must hold the message, and in the end exactly every message once on "
         "its own line with each thread's in order; races by TSan; non-trivial: at least 2 threads, 4 messages, and "
         "the schedule switched threads at least 8 times") {
  fu::Dir dir;
  const std::string name = dir.path + "/log";
  const size_t nt = c.weighted({1, 4, 3, 2}) + 1;
  std::vector<std::vector<std::string>> msgs(nt);
  size_t total = 0;
  for (size_t t = 0; t < nt; t++) {
    msgs[t].resize(c.size(1, 4));
    for (size_t i = 0; i < msgs[t].size(); i++) {
      std::string m = pbt::strf("<%zu:%zu:", t, i);
      m += std::string(c.weighted({5, 1}) == 0 ? c.size(0, 12) : c.size(4000, 9000), char('a' + t));
      if (c.chance(1, 5)) m += std::string("\0z", 2);
      msgs[t][i] = m + ">";
      total++;
    }
  }
  const int kind = int(c.draw(4));
  std::vector<std::string> order;
  det::run(c, [&] {
    std::unique_ptr<rst::Sink> owner;
    rst::Sink* sink = nullptr;
    FILE* f = nullptr;
    auto r = rst::FileNameSink::Create(kind == 0 ? name.c_str() : "/dev/null");
    if (r.err()) c.fail("cannot open");
    if (kind == 0) {
      sink = r->get();
    } else {
      f = fopen(name.c_str(), "w");
      if (kind == 1) setvbuf(f, nullptr, _IONBF, 0);
      owner = std::make_unique<rst::FilePtrSink>(rst::NotNull<FILE*>(f), rst::FilePtrSink::ShouldClose(kind != 3));
      sink = owner.get();
    }
    auto work = [&](size_t t) {
      for (auto& m : msgs[t]) {
        sink->Log(m);
        det::Hidden h;
        c.trace("[%d] logged %s\n", det::self(), pbt::quote(m, 30).c_str());
        const std::string got = fu::slurp(name);
        const size_t at = got.find(m + "\n");
        PBT_CHECK(c, at != std::string::npos, "a message is not in the file when Log() returned");
        PBT_CHECK(c, at == 0 || got[at - 1] == '\n', "a message does not start its own line");
      }
    };
    std::vector<std::thread> th;
    for (size_t t = 1; t < nt; t++) th.emplace_back(work, t);
    work(0);
    for (auto& t : th) t.join();
    owner.reset();
    if (kind == 3) fclose(f);
  });
  const std::string got = fu::slurp(name);
  std::vector<size_t> next(nt, 0);
  size_t pos = 0, lines = 0;
  while (pos < got.size()) {
    const size_t e = got.find('\n', pos);
    PBT_CHECK(c, e != std::string::npos, "unfinished line at %zu", pos);
    const std::string line = got.substr(pos, e - pos);
    pos = e + 1;
    lines++;
    bool found = false;
    for (size_t t = 0; t < nt && !found; t++)
      if (next[t] < msgs[t].size() && msgs[t][next[t]] == line) { next[t]++; found = true; }
    PBT_CHECK(c, found, "line %zu %s is not the next message of any thread", lines, pbt::quote(line, 60).c_str());
  }
  PBT_CHECK(c, lines == total, "%zu lines, %zu messages", lines, total);
  if (nt >= 2 && total >= 4 && det::stats().switches >= 8) c.nontrivial();
}

SCENARIO(many_lines, 60, 2000, false,
         "up to 70000 messages, often about 2^8, 2^15 or 2^16, through one sink by name or by stream; the complete file compared; non-trivial: more than 250") {
  fu::Dir dir;
  const size_t n = real::gen_amount(c);
  const bool by_name = c.flip();
  const size_t extra = c.draw(20);
  c.trace("%zu messages, %s\n", n, by_name ? "by name" : "by stream");
  if (n > 250) c.nontrivial();
  const std::string name = dir.path + "/log";
  std::string want;
  auto fill = [&](rst::Sink& s) {
    for (size_t i = 0; i < n; i++) {
      std::string m = std::to_string(i) + std::string(i % (extra + 1), '.');
      s.Log(m);
      want += m + "\n";
    }
  };
  if (by_name) {
    auto r = rst::FileNameSink::Create(name.c_str());
    PBT_CHECK(c, !r.err(), "cannot open");
    fill(**r);
  } else {
    FILE* f = fopen(name.c_str(), "w");
    { rst::FilePtrSink s(f); fill(s); }
  }
  PBT_CHECK(c, fu::slurp(name) == want, "the file differs after %zu messages", n);
}
