// C10: important-file writes are atomic.
#include <atomic>
#include <cerrno>
#include <cstring>
#include "rst/files/file_utils.h"
#include "file_util.h"
#include "sysfault.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
size_t gen_size(Ctx& c) {
  static const size_t edge[] = {0, 1, 4095, 4096, 4097, 8192, 12289, 65536};
  switch (c.weighted({3, 3, 3, 1})) {
    case 0: return c.size(0, 40);
    case 1: return c.pick(edge);
    case 2: return c.size(0, 20000);
    default: return c.size(0, 300000);
  }
}
struct Fixture {
  fu::Dir d;
  // |called| is how the writer names the destination, from the directory |from|.
  std::string called, from;
  std::string dest, old, other_path, other, linked_path;
  bool had = false, linked = false;
  explicit Fixture(Ctx& c) : d(c.chance(1, 6)) {
    if (d.path.compare(0, 8, "/dev/shm") == 0) c.label("another file system");
    dest = d.path + "/" + (c.flip() ? "settings.json" : "x");
    called = dest;
    if (c.chance(1, 3)) {
      const std::string base = dest.substr(d.path.size() + 1);
      from = d.path;
      switch (c.draw(4)) {
        case 0: called = "./" + base; break;
        case 1: called = "../" + d.path.substr(d.path.rfind('/') + 1) + "/" + base; break;
        default: called = base;
      }
      c.label("relative name");
    }
    had = c.chance(3, 4);
    if (had) {
      old = fu::noise(gen_size(c), 7);
      fu::put(dest, old);
      linked = c.flip();
      if (linked) { linked_path = d.path + "/hard"; if (link(dest.c_str(), linked_path.c_str()) != 0) abort(); }
    } else old = fu::kAbsent;
    // A neighbour with a name that a temporary file might take.
    static const char* const near[] = {".tmp", "~", ".bak", ".new", "tmp", ".1"};
    other_path = dest + c.pick(near);
    other = "neighbour";
    fu::put(other_path, other);
  }
  bool write(const std::string& s) const {
    if (!from.empty() && chdir(from.c_str()) != 0) abort();
    return !rst::WriteImportantFile(called, s).err();
  }
  // New contents: unrelated ones, or |was| with a change of one byte.
  std::string fresh(Ctx& c, const std::string& was, uint64_t key) const {
    if (was == fu::kAbsent || was.empty() || c.chance(2, 3)) return fu::noise(gen_size(c), key);
    std::string s = was;
    s[c.chance(1, 3) ? s.size() - 1 : c.draw(s.size())] ^= char(1 << c.draw(8));
    c.label("small change");
    return s;
  }
  std::string others() const {
    if (fu::slurp(other_path) != other) return "the neighbour file changed";
    if (linked && fu::slurp(linked_path) != old) return "the old file, which has another name, was written to";
    return "";
  }
  size_t entries() const { return 1 + (linked ? 1 : 0); }
};
struct Verdicts { int64_t start[64], end[64]; int ok[64]; std::atomic<int64_t> clock; };
}  // namespace

SCENARIO(watch_one, 2500, 40000, false,
         "one important write stepped from system call to system call; the destination is read in between every two, as are its neighbours; non-trivial: the destination existed with other contents") {
  Fixture f(c);
  std::string s = f.fresh(c, f.old, 9);
  c.trace("old %zu bytes%s, new %zu bytes\n", f.old.size(), f.had ? "" : " (absent)", s.size());
  if (f.had && f.old != s && s.size()) c.nontrivial();
  int news = 0, olds = 0;
  std::string bad;
  sysfault::Options o;
  bool cut = c.chance(1, 3);
  uint64_t salt = c.draw(1000);
  int writes = 0;
  o.on_stop = [&](const sysfault::Stop& st) {
    sysfault::Act a;
    if (bad.empty() && (st.kind != sysfault::kOther || st.index % 4 == 0)) {
      std::string now = fu::slurp(f.dest);
      if (now == s && (now != f.old || news)) news++;
      else if (now == f.old && !news) olds++;
      else bad = pbt::strf("%s system call %d (%s): destination neither the complete old nor the complete new content (%zu bytes)", st.entry ? "before" : "after", st.index, sysfault::kind_name(st.kind), now.size());
      if (bad.empty()) bad = f.others();
    }
    if (cut && st.entry && st.kind == sysfault::kWrite && st.path.rfind(f.d.path, 0) == 0) { a.what = sysfault::Act::kShorten; a.value = 1 + int64_t(pbt::hash64(salt + uint64_t(writes++)) % 9000); }
    return a;
  };
  fu::Shared<int> ok;
  auto res = sysfault::run({[&] { *ok.p = f.write(s) ? 1 : 2; }}, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean, "writer died: %s", res.text.c_str());
  PBT_CHECK(c, bad.empty(), "%s", bad.c_str());
  PBT_CHECK(c, *ok.p == 1, "write failed");
  PBT_CHECK(c, fu::slurp(f.dest) == s, "destination is not the new content at the end");
  PBT_CHECK(c, f.others().empty(), "%s", f.others().c_str());
  PBT_CHECK(c, fu::ls(f.d.path).size() == 2 + f.linked, "files left behind: %zu", fu::ls(f.d.path).size());
}

SCENARIO(crash, 4000, 60000, false,
         "the process is killed before or after a random system call of an important write, with random short writes; the survivor reads the destination, then writes again; non-trivial: killed at a call on a file of the directory, destination existed") {
  Fixture f(c);
  std::string s = f.fresh(c, f.old, 9);
  int at = int(c.draw(20));
  bool entry = c.flip();
  bool cut = c.chance(1, 3);
  uint64_t salt = c.draw(1000);
  int seen = -1;
  bool relevant = false;
  int writes = 0;
  sysfault::Options o;
  o.on_stop = [&](const sysfault::Stop& st) {
    sysfault::Act a;
    bool ours = st.path.rfind(f.d.path, 0) == 0;
    if (ours && st.entry) seen++;
    if (ours && seen == at && st.entry == entry) { a.what = sysfault::Act::kKill; relevant = true; return a; }
    if (cut && ours && st.entry && st.kind == sysfault::kWrite) { a.what = sysfault::Act::kShorten; a.value = 1 + int64_t(pbt::hash64(salt + uint64_t(writes++)) % 9000); }
    return a;
  };
  auto res = sysfault::run({[&] { f.write(s); }}, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean || res.killed, "writer died: %s", res.text.c_str());
  c.trace("old %zu bytes%s, new %zu bytes, killed %s call %d: %s\n", f.old.size(), f.had ? "" : " (absent)", s.size(), entry ? "before" : "after", at, res.killed ? "yes" : "no");
  if (relevant) c.label("killed");
  if (relevant && f.had && f.old != s) c.nontrivial();
  std::string now = fu::slurp(f.dest);
  PBT_CHECK(c, now == s || (res.killed && now == f.old), "after a crash at call %d the destination is neither the complete old nor the complete new content (%zu bytes)", at, now.size());
  PBT_CHECK(c, f.others().empty(), "%s", f.others().c_str());
  // What the crash left behind does not get in the way of the next writer.
  std::string t = f.fresh(c, now, 11);
  auto st = rst::WriteImportantFile(f.dest, t);
  PBT_CHECK(c, !st.err(), "write after the crash failed: %s", st.GetError()->AsString().c_str());
  PBT_CHECK(c, fu::slurp(f.dest) == t, "write after the crash is not what the destination holds");
  PBT_CHECK(c, f.others().empty(), "%s", f.others().c_str());
}

SCENARIO(faults, 5000, 80000, false,
         "an important write during which some system calls on the directory fail (the k-th of a kind, or all of a kind, with a random error) or are cut short, and which may be killed at a random call; the destination is read at every call; non-trivial: a call failed and the destination existed") {
  Fixture f(c);
  std::string s = f.fresh(c, f.old, 9);
  static const sysfault::Kind kinds[] = {sysfault::kOpen, sysfault::kWrite, sysfault::kClose, sysfault::kRename, sysfault::kSync};
  static const int errs[] = {EIO, ENOSPC, EDQUOT, EACCES, EROFS, ENOENT, EMFILE, EPERM, EFBIG, ENOTDIR, ENOMEM, EXDEV, EISDIR, EEXIST, EBUSY, EINTR};
  struct Fault { sysfault::Kind kind; int nth, err; bool forever; int seen; };
  std::vector<Fault> faults;
  for (size_t i = 0, n = 1 + c.weighted({6, 2, 1}); i < n; i++)
    faults.push_back({kinds[c.weighted({3, 4, 2, 5, 1})], int(c.weighted({6, 2, 1})), c.pick(errs), c.flip(), 0});
  // Retrying an interrupted call is fine, and would never end.
  for (auto& x : faults) x.forever = x.forever && x.err != EINTR;
  const bool cut = c.chance(1, 3);
  const int kill_at = c.chance(1, 3) ? int(c.draw(20)) : -1;
  const uint64_t salt = c.draw(1000);
  c.trace("old %zu bytes%s, new %zu bytes\n", f.old.size(), f.had ? "" : " (absent)", s.size());
  for (auto& x : faults) c.trace("%s number %d%s fails: %s\n", sysfault::kind_name(x.kind), x.nth, x.forever ? " and later" : "", strerror(x.err));
  int hits = 0, writes = 0, seen = 0;
  bool replaced = false;
  std::string bad;
  sysfault::Options o;
  o.on_stop = [&](const sysfault::Stop& st) {
    sysfault::Act a;
    if (st.path.rfind(f.d.path, 0) != 0 && st.path2.rfind(f.d.path, 0) != 0) return a;
    if (bad.empty()) {
      std::string now = fu::slurp(f.dest);
      if (now == s && (now != f.old || replaced)) replaced = true;
      else if (now != f.old || replaced) bad = pbt::strf("%s system call %d (%s): destination neither the complete old nor the complete new content (%zu bytes)", st.entry ? "before" : "after", st.index, sysfault::kind_name(st.kind), now.size());
      if (bad.empty()) bad = f.others();
    }
    if (!st.entry) return a;
    if (seen++ == kill_at) { a.what = sysfault::Act::kKill; return a; }
    for (auto& x : faults) {
      if (st.kind != x.kind && !(x.kind == sysfault::kRename && st.kind == sysfault::kLink)) continue;
      int i = x.seen++;
      if (i != x.nth && !(x.forever && i > x.nth)) continue;
      hits++;
      a.what = st.kind == sysfault::kClose ? sysfault::Act::kFailAfter : sysfault::Act::kFail;
      a.value = x.err;
      return a;
    }
    if (cut && st.kind == sysfault::kWrite) { a.what = sysfault::Act::kShorten; a.value = 1 + int64_t(pbt::hash64(salt + uint64_t(writes++)) % 9000); }
    return a;
  };
  fu::Shared<int> ok;
  auto res = sysfault::run({[&] { *ok.p = f.write(s) ? 1 : 2; }}, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean || res.killed, "writer died: %s", res.text.c_str());
  PBT_CHECK(c, bad.empty(), "%s", bad.c_str());
  if (hits && f.had) c.nontrivial();
  if (res.killed) c.label("killed");
  if (*ok.p == 2) c.label("failed");
  std::string now = fu::slurp(f.dest);
  PBT_CHECK(c, now == s || now == f.old, "at the end the destination is neither the complete old nor the complete new content (%zu bytes)", now.size());
  if (*ok.p == 1) PBT_CHECK(c, now == s, "success reported but the destination is not the new content");
  PBT_CHECK(c, f.others().empty(), "%s", f.others().c_str());
}

namespace {
void concurrent(Ctx& c, bool threads) {
  Fixture f(c);
  const int k = int(c.size(2, 4)), per = int(c.size(1, 3));
  std::vector<std::vector<std::string>> texts(static_cast<size_t>(k));
  std::vector<std::string> all;
  size_t fixed = gen_size(c);
  bool same_size = c.chance(1, 3);
  for (int w = 0; w < k; w++)
    for (int r = 0; r < per; r++) {
      texts[size_t(w)].push_back(pbt::strf("%d.%d:", w, r) + fu::noise(same_size ? fixed : gen_size(c), uint64_t(100 + w * 8 + r)));
      all.push_back(texts[size_t(w)].back());
    }
  int style = int(c.draw(3));
  std::vector<uint64_t> prio;
  for (int w = 0; w < k; w++) prio.push_back(c.draw(1000));
  c.trace("%d %s, %d writes each, old %zu bytes%s, order style %d\n", k, threads ? "threads" : "processes", per, f.old.size(), f.had ? "" : " (absent)", style);
  fu::Shared<Verdicts> v;
  std::string bad;
  int renames = 0, switches = 0, last = -1, seen_kinds = 0;
  std::vector<std::pair<int64_t, int>> reads;
  sysfault::Options o;
  o.threads = threads;
  o.pick = [&](const std::vector<int>& run) -> size_t {
    if (style == 0 || c.chance(1, 6)) return c.draw(run.size());
    if (style == 1) {  // Stay, with rare switches.
      for (size_t i = 0; i < run.size(); i++) if (run[i] == last) return i;
      return c.draw(run.size());
    }
    size_t best = 0;
    for (size_t i = 1; i < run.size(); i++) if (prio[size_t(run[i])] > prio[size_t(run[best])]) best = i;
    if (c.chance(1, 8)) prio[size_t(run[best])] = 0;
    return best;
  };
  std::string prev;
  o.on_stop = [&](const sysfault::Stop& st) {
    if (last != st.task) { if (last >= 0) switches++; last = st.task; }
    if (!st.entry && st.kind == sysfault::kRename) renames++;
    if (bad.empty() && (st.kind == sysfault::kRename || st.kind == sysfault::kWrite || st.kind == sysfault::kOpen || st.kind == sysfault::kClose || st.kind == sysfault::kUnlink || st.kind == sysfault::kLink || st.kind == sysfault::kTruncate)) {
      std::string now = fu::slurp(f.dest);
      int which = -2;
      if (now == f.old) which = -1;
      for (size_t i = 0; i < all.size(); i++) if (now == all[i]) which = int(i);
      if (which == -2) bad = pbt::strf("%s a %s of writer %d: destination holds no writer's complete content (%zu bytes)", st.entry ? "before" : "after", sysfault::kind_name(st.kind), st.task, now.size());
      else reads.push_back({v->clock.fetch_add(1), which});
      if (bad.empty()) bad = f.others();
    }
    (void)seen_kinds;
    return sysfault::Act();
  };
  for (int i = 0; i < 64; i++) v->end[i] = INT64_MAX;
  for (int i = 0; i < 64; i++) v->start[i] = INT64_MAX;
  std::vector<std::function<void()>> bodies;
  for (int w = 0; w < k; w++)
    bodies.push_back([&, w] {
      for (int r = 0; r < per; r++) {
        int i = w * per + r;
        v->start[i] = v->clock.fetch_add(1);
        v->ok[i] = f.write(texts[size_t(w)][size_t(r)]) ? 1 : 2;
        v->end[i] = v->clock.fetch_add(1);
      }
    });
  auto res = sysfault::run(bodies, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean, "writer died: %s", res.text.c_str());
  PBT_CHECK(c, bad.empty(), "%s", bad.c_str());
  if (switches > 2 * k) c.nontrivial();
  for (int i = 0; i < k * per; i++) PBT_CHECK(c, v->ok[i] == 1, "write %d of writer %d failed although nothing was wrong", i % per, i / per);
  std::string now = fu::slurp(f.dest);
  int which = -2;
  for (size_t i = 0; i < all.size(); i++) if (now == all[i]) which = int(i);
  PBT_CHECK(c, which >= 0, "at the end the destination holds no writer's content (%zu bytes)", now.size());
  reads.push_back({v->clock.fetch_add(1), which});
  // Each observation is of a write that had begun and was not overwritten by a
  // write that began after it ended and had itself ended.
  for (auto& [t, i] : reads) {
    PBT_CHECK(c, i == -1 || v->start[i] < t, "content of write %d seen before that write began", i);
    for (int j = 0; j < k * per; j++)
      if (j != i && v->end[j] < t && (i == -1 || v->end[i] < v->start[j]))
        c.fail("write %d had succeeded but its content was not in place: the destination held that of %d", j, i);
  }
  PBT_CHECK(c, f.others().empty(), "%s", f.others().c_str());
  PBT_CHECK(c, fu::ls(f.d.path).size() == 2 + f.linked, "files left behind: %zu", fu::ls(f.d.path).size());
}
}  // namespace

SCENARIO(writers_processes, 1500, 25000, false,
         "2-4 processes writing the same destination 1-3 times each, interleaved by system call in random, sticky and priority order; every observed content is compared with a register history; non-trivial: more than two switches per writer") {
  concurrent(c, false);
}
SCENARIO(writers_threads, 1500, 25000, false,
         "the same with threads of one process; non-trivial: more than two switches per writer") {
  concurrent(c, true);
}
