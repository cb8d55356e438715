// C13: the logger against a model of loggers, levels and delivered lines.
#include <memory>
#include <mutex>

#include "amount.h"
#include "pbt.h"
#include "rst/logger/logger.h"
using pbt::Ctx;
using L = rst::Logger::Level;

namespace {
struct Seen { int sink; std::string line; };

class Recorder final : public rst::Sink {
 public:
  Recorder(int id, std::vector<Seen>* out) : id_(id), out_(out) {}
  void Log(std::string_view m) override { out_->push_back({id_, std::string(m)}); }
 private:
  int id_;
  std::vector<Seen>* out_;
};

// Reports through the shared memory of the forked child.
class Teller final : public rst::Sink {
 public:
  explicit Teller(int id) : id_(id) {}
  void Log(std::string_view m) override {
    pbt::say(pbt::strf("%d|%zu|", id_, m.size()) + std::string(m));
  }
 private:
  int id_;
};

const char* name(int l) {
  static const char* const n[] = {"ALL", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "OFF"};
  return n[l];
}
std::string line_of(int l, const std::string& file, int line, const std::string& msg) {
  return std::string("[") + name(l) + ":" + file + "(" + std::to_string(line) + ")] " + msg;
}
std::string gen_file(Ctx& c) {
  static const char* const f[] = {"file.cc", "", "/a/b/c.cc", "{}", "%s", "C:\\x.cc", "]:(3)", "\xc3\xa9.cc"};
  if (c.weighted({3, 1}) == 0) return c.pick(f);
  return pbt::gen_bytes(c, 60).c_str();
}
int gen_line(Ctx& c) {
  switch (c.draw(4)) {
    case 0: return 1 + int(c.draw(2000));
    case 1: return INT32_MAX - int(c.draw(3));
    case 2: return 1;
    default: return 1 + int(c.draw(INT32_MAX - 1));
  }
}
std::string gen_msg(Ctx& c) {
  static const std::string sp[] = {"", "message", "{}", "{", "}}", "%n%s", std::string("\0", 1), std::string("a\0b", 3), "two\nlines", "\n", "\xff\xfe"};
  switch (c.weighted({3, 3, 1})) {
    case 0: return c.pick(sp);
    case 1: return pbt::gen_bytes(c, 60);
    default: return c.chance(1, 60) ? std::string(c.pick({size_t(65534), size_t(65535), size_t(65536), size_t(65537), size_t(8191), size_t(300000)}), char('a' + c.draw(26))) : pbt::gen_bytes(c, 5000);
  }
}

// Logs through the macro of level |l|; returns its line.
template <class M>
int by_macro(int l, const M& msg) {
  switch (l) {
    case 1: RST_LOG_DEBUG(msg); return __LINE__;
    case 2: RST_LOG_INFO(msg); return __LINE__;
    case 3: RST_LOG_WARNING(msg); return __LINE__;
    case 4: RST_LOG_ERROR(msg); return __LINE__;
    default: RST_LOG_FATAL(msg); return __LINE__;
  }
}
template <class M>
int by_dmacro(int l, const M& msg) {
  (void)msg;
  switch (l) {
    case 1: RST_DLOG_DEBUG(msg); return __LINE__;
    case 2: RST_DLOG_INFO(msg); return __LINE__;
    case 3: RST_DLOG_WARNING(msg); return __LINE__;
    case 4: RST_DLOG_ERROR(msg); return __LINE__;
    default: RST_DLOG_FATAL(msg); return __LINE__;
  }
}
int calls;
std::string_view counted(const std::string& s) { calls++; return s; }
}  // namespace

SCENARIO(log_history, 150000, 5000000, false,
         "histories of messages at every level by function and macro over several loggers, with level and global logger changes; exact delivered lines compared; "
         "non-trivial: both delivered and filtered messages") {
  std::vector<Seen> seen, want;
  const int n = int(c.size(1, 3));
  std::vector<std::unique_ptr<rst::Logger>> logs;
  std::vector<int> level(size_t(n), 0);
  for (int i = 0; i < n; i++) logs.push_back(std::make_unique<rst::Logger>(std::make_unique<Recorder>(i, &seen)));
  int global = 0;
  rst::Logger::SetGlobalLogger(logs[0].get());
  bool delivered = false, filtered = false;
  size_t ops = c.size(1, 20);
  for (size_t k = 0; k < ops; k++) {
    switch (c.weighted({8, 2, 3, 2})) {
      case 0: case 3: {
        int l = 1 + int(c.draw(5));
        // A fatal message that is delivered stops the process: other scenario.
        if (l == 5 && level[size_t(global)] <= 5) { if (level[size_t(global)] == 5) continue; l = 4; }
        std::string msg = gen_msg(c), file = gen_file(c);
        int line = gen_line(c);
        const bool pass = l >= level[size_t(global)];
        (pass ? delivered : filtered) = true;
        size_t how = c.draw(4);
        c.trace("log %s %s on logger %d (level %s), way %zu\n", name(l), pbt::quote(msg).c_str(), global, name(level[size_t(global)]), how);
        bool dlog = false;
        if (how == 0) { line = by_macro(l, std::string_view(msg)); file = __FILE__; }
        else if (how == 1) { line = by_dmacro(l, std::string_view(msg)); file = __FILE__; dlog = true; }
        else if (how == 2) { calls = 0; if (l == 2) { RST_LOG_INFO(counted(msg)); line = __LINE__; file = __FILE__; PBT_CHECK(c, calls == 1, "message evaluated %d times", calls); }
                             else rst::Logger::Log(L(l), file.c_str(), line, msg); }
        else {
          std::string longer = msg + "tail";
          rst::Logger::Log(L(l), file.c_str(), line, std::string_view(longer.data(), msg.size()));
        }
#ifdef NDEBUG
        if (dlog) break;
#endif
        (void)dlog;
        if (pass) want.push_back({global, line_of(l, file, line, msg)});
        break;
      }
      case 1:
        global = int(c.draw(uint64_t(n)));
        c.trace("global logger %d\n", global);
        rst::Logger::SetGlobalLogger(logs[size_t(global)].get());
        break;
      case 2: {
        size_t w = c.draw(uint64_t(n));
        level[w] = int(c.draw(7));
        c.trace("logger %zu level %s\n", w, name(level[w]));
        logs[w]->set_level(L(level[w]));
        break;
      }
    }
    for (size_t i = 0; i < seen.size() && i < want.size(); i++) {
      if (i + 3 < seen.size()) continue;
      PBT_CHECK(c, seen[i].sink == want[i].sink && seen[i].line == want[i].line, "delivery %zu: logger %d got %s, expected logger %d to get %s", i, seen[i].sink,
                pbt::quote(seen[i].line).c_str(), want[i].sink, pbt::quote(want[i].line).c_str());
    }
    PBT_CHECK(c, seen.size() == want.size(), "%zu messages delivered, expected %zu", seen.size(), want.size());
  }
  if (delivered && filtered) c.nontrivial();
}

SCENARIO(fatal, 3000, 100000, false,
         "a history ending in a message of any level at any logger level, in a child: stops exactly if it is fatal and delivered, after delivery; non-trivial: fatal") {
  struct Op { int lv; int l; std::string file; int line; std::string msg; bool macro; };
  std::vector<Op> ops;
  size_t n = c.size(1, 6);
  for (size_t i = 0; i < n; i++) {
    Op o{c.weighted({1, 2}) == 0 ? int(c.draw(7)) : -1, 1 + int(c.draw(5)), gen_file(c), gen_line(c), gen_msg(c), c.flip()};
    if (c.draw(3) == 2) o.l = 5;
    if (o.msg.size() > 200) o.msg.resize(200);
    if (o.file.size() > 60) o.file.resize(60);
    ops.push_back(o);
  }
  std::string want;
  bool stop = false;
  uint64_t last = 0;
  int lv = 0;
  for (size_t i = 0; i < n && !stop; i++) {
    if (ops[i].lv >= 0) lv = ops[i].lv;
    last = i + 1;
    if (ops[i].l < lv) continue;
    int line = ops[i].line;
    std::string file = ops[i].file;
    if (ops[i].macro) { line = -1; }
    std::string text = line < 0 ? "?" : line_of(ops[i].l, file, line, ops[i].msg);
    want += line < 0 ? std::string("macro ") + name(ops[i].l) + ops[i].msg + ";" : text + ";";
    if (ops[i].l == 5) stop = true;
  }
  if (stop) c.nontrivial();
  c.label(stop ? "stops" : "continues");
  for (auto& o : ops) c.trace("level %d; log %s %s\n", o.lv, name(o.l), pbt::quote(o.msg).c_str());
  auto d = pbt::run_forked([&] {
    rst::Logger log(std::make_unique<Teller>(0));
    rst::Logger::SetGlobalLogger(&log);
    for (size_t i = 0; i < n; i++) {
      pbt::mark(i + 1);
      auto& o = ops[i];
      if (o.lv >= 0) log.set_level(L(o.lv));
      if (o.macro) by_macro(o.l, std::string_view(o.msg));
      else rst::Logger::Log(L(o.l), o.file.c_str(), o.line, o.msg);
    }
    pbt::mark(n + 1);
  });
  PBT_CHECK(c, stop ? d.aborted() : d.survived(), "expected the process to %s: %s", stop ? "stop" : "continue", d.describe().c_str());
  PBT_CHECK(c, d.progress == (stop ? last : n + 1), "stopped at message %llu of %zu, expected %llu", (unsigned long long)d.progress, n, (unsigned long long)last);
  // Compare what was delivered.
  std::string got;
  size_t p = 0;
  const std::string& out = d.out;
  while (p < out.size()) {
    size_t a = out.find('|', p);
    size_t b = a == std::string::npos ? a : out.find('|', a + 1);
    PBT_CHECK(c, b != std::string::npos, "bad record");
    size_t len = size_t(atoll(out.c_str() + a + 1));
    std::string text = out.substr(b + 1, len);
    p = b + 1 + len;
    std::string mac = std::string(":") + __FILE__ + "(";
    size_t at = text.find(mac);
    if (at != std::string::npos && at < 10) {
      size_t e = text.find(")] ", at);
      PBT_CHECK(c, e != std::string::npos, "bad line %s", pbt::quote(text).c_str());
      got += "macro " + text.substr(1, at - 1) + text.substr(e + 3) + ";";
    } else {
      got += text + ";";
    }
  }
  PBT_CHECK(c, got == want, "delivered %s, expected %s", pbt::quote(got, 400).c_str(), pbt::quote(want, 400).c_str());
}

namespace {
class Locked final : public rst::Sink {
 public:
  explicit Locked(std::vector<std::string>* out) : out_(out) {}
  void Log(std::string_view m) override {
    std::string s(m);
    std::lock_guard<std::mutex> l(mu_);
    out_->push_back(std::move(s));
  }
 private:
  std::mutex mu_;
  std::vector<std::string>* out_;
};
}  // namespace

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads logging through the global logger at the same time, its sink serializing; exactly the expected lines, those of one thread in its order; data "
         "races found by TSan; non-trivial: always") {
  c.nontrivial();
  std::vector<std::string> seen;
  rst::Logger log(std::make_unique<Locked>(&seen));
  const int level = int(c.draw(6));
  log.set_level(L(level));
  rst::Logger::SetGlobalLogger(&log);
  std::vector<std::string> want[4];
  pbt::in_threads_i(c, 12, [&](Ctx& t, int i) {
    auto& w = want[size_t(i)];
    const int l = 1 + int(t.draw(4));
    const std::string id = pbt::strf("%d.%zu ", i, w.size());
    std::string msg = id + gen_msg(t), file = gen_file(t);
    int line = gen_line(t);
    if (t.chance(1, 3)) { line = by_macro(l, std::string_view(msg)); file = __FILE__; }
    else rst::Logger::Log(L(l), file.c_str(), line, msg);
    if (l >= level) w.push_back(line_of(l, file, line, msg));
  });
  size_t total = 0;
  for (auto& w : want) {
    total += w.size();
    size_t at = 0;
    for (auto& x : w) {
      while (at < seen.size() && seen[at] != x) at++;
      PBT_CHECK(c, at < seen.size(), "line %s was not delivered in the order of its thread", pbt::quote(x).c_str());
      at++;
    }
  }
  PBT_CHECK(c, seen.size() == total, "%zu lines delivered, expected %zu", seen.size(), total);
}
