// C11: I/O failures are reported and leave no damage.
#include <signal.h>
#include <sys/resource.h>

#include "rst/files/file_utils.h"
#include "rst/rtti/rtti.h"
#include "file_util.h"
#include "sysfault.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
size_t gen_size(Ctx& c) {
  static const size_t edge[] = {0, 1, 4095, 4096, 4097, 8192, 12289, 131071, 131072};
  switch (c.weighted({3, 3, 3, 1})) {
    case 0: return c.size(1, 40);
    case 1: return c.pick(edge);
    case 2: return c.size(0, 20000);
    default: return c.size(0, 300000);
  }
}
struct Verdict {
  int err = 0, open_class = 0, is_file_error = 0, names = 0, fds = 0, content_ok = 0;
  int64_t live = 0;
  char msg[300];
};
int g_errno = 0;  // what calls of something else left behind
template <class F>
void judge(Verdict* v, const std::string& name, F f) {
  int before = fu::open_fds();
  {
    errno = g_errno;
    rst::Status s = f();
    v->err = s.err() ? 1 : 0;
    if (v->err) {
      const rst::ErrorInfoBase* e = s.GetError().get();
      v->open_class = rst::dyn_cast<rst::FileOpenError>(e).get() != nullptr;
      v->is_file_error = rst::dyn_cast<rst::FileError>(e).get() != nullptr;
      v->names = e->AsString().find(name) != std::string::npos;
      snprintf(v->msg, sizeof v->msg, "%s", e->AsString().c_str());
    }
  }
  v->fds = fu::open_fds() - before;
}
const int kErrs[] = {EIO, ENOSPC, EDQUOT, EACCES, EROFS, ENOENT, EMFILE, ENFILE, EPERM, EBADF, EFBIG, ENOTDIR, ENOMEM, EXDEV, EISDIR, EINTR, EAGAIN};
bool transient(int e) { return e == EINTR || e == EAGAIN; }
}  // namespace

SCENARIO(inject_write, 8000, 120000, false,
         "plain and important writes with the k-th open, write, sync, close, rename or link on a file of the directory failing with a random error (once or from then on), and writes cut short; non-trivial: a failure was injected and the destination existed") {
  fu::Dir d;
  std::string dest = d.path + "/data", old = fu::kAbsent, s = fu::noise(gen_size(c), 3);
  bool had = c.chance(3, 4), important = c.chance(2, 3);
  if (had) { old = fu::noise(gen_size(c), 5); fu::put(dest, old); }
  fu::put(d.path + "/data.tmp", "neighbour");
  sysfault::Kind kind = static_cast<sysfault::Kind>(c.weighted({3, 5, 3, important ? 4u : 0u, 1}));
  static const sysfault::Kind kinds[] = {sysfault::kOpen, sysfault::kWrite, sysfault::kClose, sysfault::kRename, sysfault::kSync};
  kind = kinds[size_t(kind)];
  int nth = int(c.weighted({6, 3, 1, 1}));
  int err = c.pick(kErrs);
  bool forever = c.chance(1, 3) && !transient(err), cut = c.chance(1, 3);
  uint64_t salt = c.draw(1000);
  c.trace("%s write of %zu bytes over %zu%s: %s number %d fails with %s%s%s\n", important ? "important" : "plain", s.size(), old.size(), had ? "" : " (absent)", sysfault::kind_name(kind), nth, strerror(err), forever ? ", and all after" : "", cut ? ", short writes" : "");
  int seen = 0, hits = 0, writes = 0;
  bool open_hit = false, unlink_hit = false;
  sysfault::Options o;
  o.on_stop = [&](const sysfault::Stop& st) {
    sysfault::Act a;
    if (!st.entry || (st.path.rfind(d.path, 0) != 0 && st.path2.rfind(d.path, 0) != 0)) return a;
    if (st.kind == kind || (kind == sysfault::kRename && st.kind == sysfault::kLink)) {
      int i = seen++;
      if (i == nth || (forever && i > nth)) {
        hits++;
        if (st.kind == sysfault::kOpen) open_hit = true;
        a.what = st.kind == sysfault::kClose ? sysfault::Act::kFailAfter : sysfault::Act::kFail;
        a.value = err;
        return a;
      }
    }
    if (cut && st.kind == sysfault::kWrite) { a.what = sysfault::Act::kShorten; a.value = 1 + int64_t(pbt::hash64(salt + uint64_t(writes++)) % 9000); }
    return a;
  };
  (void)unlink_hit;
  fu::Shared<Verdict> v;
  g_errno = pbt::gen_errno(c);
  auto res = sysfault::run({[&] { judge(v.p, dest, [&] { return important ? rst::WriteImportantFile(dest, s) : rst::WriteFile(dest.c_str(), s); }); }}, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean, "writer died: %s", res.text.c_str());
  if (hits) { c.label(sysfault::kind_name(kind)); if (had) c.nontrivial(); }
  std::string now = fu::slurp(dest);
  PBT_CHECK(c, v->fds == 0, "%d descriptors leaked", v->fds);
  if (!v->err) {
    PBT_CHECK(c, !hits || transient(err), "a failed %s (%s) was reported as success", sysfault::kind_name(kind), strerror(err));
    PBT_CHECK(c, now == s, "success reported but the destination differs: %s", fu::where(now, s).c_str());
  } else {
    PBT_CHECK(c, hits, "error without a failure: %s", v->msg);
    PBT_CHECK(c, v->is_file_error, "not a file error: %s", v->msg);
    PBT_CHECK(c, v->open_class == open_hit, "%s reported %s an open failure: %s", sysfault::kind_name(kind), v->open_class ? "as" : "not as", v->msg);
    PBT_CHECK(c, v->names, "message does not name the file: %s", v->msg);
    if (important) PBT_CHECK(c, now == old, "a failed important write (%s) changed the destination: %s", v->msg, fu::where(now, old).c_str());
  }
  size_t want = 1 + (now != fu::kAbsent);
  PBT_CHECK(c, fu::ls(d.path).size() == want, "after a %s write (failing %s, %s) %zu files are left behind", v->err ? "failed" : "successful", sysfault::kind_name(kind), v->msg, fu::ls(d.path).size() - want);
  PBT_CHECK(c, fu::slurp(d.path + "/data.tmp") == "neighbour", "a neighbour was changed");
}

SCENARIO(inject_read, 4000, 60000, false,
         "reads with the k-th open, read or close on the file failing with a random error, short reads, and misreported sizes; non-trivial: a failure was injected") {
  fu::Dir d;
  std::string p = d.path + "/data", s = fu::noise(gen_size(c), 3);
  fu::put(p, s);
  static const sysfault::Kind kinds[] = {sysfault::kOpen, sysfault::kRead, sysfault::kClose, sysfault::kStat};
  sysfault::Kind kind = kinds[c.weighted({2, 6, 2, 1})];
  int nth = int(c.weighted({6, 3, 2, 1}));
  int err = c.pick(kErrs);
  bool forever = c.chance(1, 3) && !transient(err), cut = c.flip();
  uint64_t salt = c.draw(1000);
  int64_t fake = c.flip() ? -1 : c.range(0, 200000);
  c.trace("%zu bytes: %s number %d fails with %s%s%s, reported size %ld\n", s.size(), sysfault::kind_name(kind), nth, strerror(err), forever ? ", and all after" : "", cut ? ", short reads" : "", long(fake));
  int seen = 0, hits = 0, reads = 0;
  sysfault::Options o;
  o.on_stop = [&](const sysfault::Stop& st) {
    sysfault::Act a;
    if (!st.entry || st.path != p) return a;
    if (st.kind == kind) {
      int i = seen++;
      if (i == nth || (forever && i > nth)) {
        hits++;
        a.what = st.kind == sysfault::kClose ? sysfault::Act::kFailAfter : sysfault::Act::kFail;
        a.value = err;
        return a;
      }
    }
    if (cut && st.kind == sysfault::kRead) { a.what = sysfault::Act::kShorten; a.value = 1 + int64_t(pbt::hash64(salt + uint64_t(reads++)) % 9000); }
    if (fake >= 0 && st.kind == sysfault::kStat) { a.what = sysfault::Act::kSize; a.value = fake; }
    return a;
  };
  fu::Shared<Verdict> v;
  g_errno = pbt::gen_errno(c);
  auto res = sysfault::run({[&] {
    judge(v.p, p, [&]() -> rst::Status {
      auto r = rst::ReadFile(p);
      if (r.err()) return std::move(r).TakeStatus();
      v->content_ok = *r == s;
      return rst::Status::OK();
    });
  }}, o);
  if (!res.supported) { c.label("no tracing"); return; }
  PBT_CHECK(c, res.clean, "reader died: %s", res.text.c_str());
  if (hits) { c.label(sysfault::kind_name(kind)); c.nontrivial(); }
  PBT_CHECK(c, v->fds == 0, "%d descriptors leaked", v->fds);
  if (!v->err) {
    PBT_CHECK(c, !hits || transient(err) || kind == sysfault::kStat, "a failed %s (%s) was reported as success", sysfault::kind_name(kind), strerror(err));
    PBT_CHECK(c, v->content_ok, "success reported but the content differs");
  } else {
    PBT_CHECK(c, hits, "error without a failure: %s", v->msg);
    PBT_CHECK(c, v->is_file_error, "not a file error: %s", v->msg);
    if (kind != sysfault::kStat) PBT_CHECK(c, v->open_class == (kind == sysfault::kOpen), "%s reported %s an open failure: %s", sysfault::kind_name(kind), v->open_class ? "as" : "not as", v->msg);
    PBT_CHECK(c, v->names, "message does not name the file: %s", v->msg);
  }
  PBT_CHECK(c, fu::slurp(p) == s, "reading changed the file");
}

SCENARIO(real_limits, 3000, 40000, true,
         "writes under a file size limit, descriptor limit, to /dev/full, missing directories, directories, over-long names and link loops; non-trivial: always") {
  fu::Dir d;
  c.nontrivial();
  bool important = c.flip();
  std::string dest = d.path + "/f", old = fu::kAbsent, s = fu::noise(gen_size(c), 3);
  int how = int(c.draw(8));
  bool had = c.flip();
  bool fails = true, opens = false;  // opens: the failure comes after opening
  size_t limit = 0;
  if (had) { old = fu::noise(c.size(0, 100), 5); fu::put(dest, old); }
  switch (how) {
    case 0: limit = size_t(c.draw(s.size() + 2)); fails = limit < s.size(); opens = true; break;
    case 1: break;  // EMFILE
    case 2: if (!important) { dest = "/dev/full"; fails = !s.empty(); opens = true; old = ""; } else fails = false; break;
    case 3: dest = d.path + "/none/f"; old = fu::kAbsent; break;
    case 4: dest = d.path + "/dir"; mkdir(dest.c_str(), 0755); fu::put(dest + "/in", "x"); opens = important; break;
    case 5: dest = d.path + "/" + std::string(250 + c.draw(20), 'n'); old = fu::kAbsent; fails = important || dest.size() - d.path.size() - 1 > 255; break;
    case 6: dest = d.path + "/loop"; if (symlink("loop", dest.c_str()) != 0) c.fail("symlink"); fails = !important; break;
    default: dest = d.path + "/f/below"; fu::put(d.path + "/f", old = "file"); break;
  }
  static const char* const names[] = {"size limit", "descriptors", "device full", "no directory", "directory", "long name", "loop", "not a directory"};
  c.label(names[how]);
  c.trace("%s write of %zu bytes, %s (limit %zu), had %d\n", important ? "important" : "plain", s.size(), names[how], limit, had);
  auto before = fu::ls(d.path);
  signal(SIGXFSZ, SIG_IGN);
  if (how == 0) { rlimit r{limit, limit}; setrlimit(RLIMIT_FSIZE, &r); }
  Verdict v;
  g_errno = pbt::gen_errno(c);
  auto write = [&] { return important ? rst::WriteImportantFile(dest, s) : rst::WriteFile(dest.c_str(), s); };
  rlimit keep;
  getrlimit(RLIMIT_NOFILE, &keep);
  if (how == 1) {
    judge(&v, dest, [&] { rlimit r{0, keep.rlim_max}; setrlimit(RLIMIT_NOFILE, &r); auto st = write(); setrlimit(RLIMIT_NOFILE, &keep); return st; });
  } else {
    judge(&v, dest, write);
  }
  PBT_CHECK(c, v.fds == 0, "%d descriptors leaked", v.fds);
  PBT_CHECK(c, v.err == fails, "%s: %s", fails ? "the failure was reported as success" : "failed without a reason", v.msg);
  if (!fails) {
    if (how != 2 || important) PBT_CHECK(c, fu::slurp(dest) == s, "success, but the content differs");
    return;
  }
  PBT_CHECK(c, v.is_file_error && v.names, "wrong class or message: %s", v.msg);
  PBT_CHECK(c, v.open_class == !opens, "reported %s an open failure: %s", v.open_class ? "as" : "not as", v.msg);
  if (how == 2) return;
  auto after = fu::ls(d.path);
  bool may_create = !important && how == 0;
  if (!may_create) PBT_CHECK(c, after == before, "the failed write left files behind (%zu, then %zu)", before.size(), after.size());
  if (important && how <= 1) PBT_CHECK(c, fu::slurp(dest) == old, "the failed important write changed the destination");
  // And it can be done once the cause is gone.
}

SCENARIO(real_reads, 600, 8000, true,
         "reads of missing files, directories, link loops, unreadable process memory and under a descriptor limit; non-trivial: always") {
  fu::Dir d;
  c.nontrivial();
  int how = int(c.draw(6));
  std::string p = d.path + "/f" + std::to_string(c.draw(50));
  bool open_class = true;
  switch (how) {
    case 0: break;
    case 1: p = d.path; open_class = false; break;
    case 2: if (symlink("loop", (d.path + "/loop").c_str()) != 0) c.fail("symlink"); p = d.path + "/loop"; break;
    case 3: p = "/proc/self/mem"; open_class = false; break;
    case 4: fu::put(p, "x"); break;
    default: p = d.path + "/" + std::string(300, 'q'); break;
  }
  c.trace("case %d: %s\n", how, p.substr(0, 100).c_str());
  Verdict v;
  g_errno = pbt::gen_errno(c);
  rlimit keep;
  getrlimit(RLIMIT_NOFILE, &keep);
  judge(&v, p, [&]() -> rst::Status {
    rlimit r{0, keep.rlim_max};
    if (how == 4) setrlimit(RLIMIT_NOFILE, &r);
    auto st = rst::ReadFile(p);
    if (how == 4) setrlimit(RLIMIT_NOFILE, &keep);
    if (st.err()) return std::move(st).TakeStatus();
    return rst::Status::OK();
  });
  PBT_CHECK(c, v.fds == 0, "%d descriptors leaked", v.fds);
  PBT_CHECK(c, v.err && v.is_file_error && v.names && v.open_class == open_class, "error %d, file error %d, open error %d (wanted %d): %s", v.err, v.is_file_error, v.open_class, open_class, v.msg);
}

SCENARIO(kept, 3000, 40000, false,
         "1..12 reads and writes, many of which fail, whose statuses are kept, moved and dropped in random order; every kept error keeps its class and its message, which names its own file; non-trivial: two errors were kept at the same time") {
  fu::Dir d;
  struct Kept { rst::Status st; std::string path, msg; bool open_class; };
  std::vector<std::unique_ptr<Kept>> kept;
  const size_t n = c.size(1, 12);
  for (size_t k = 0; k < n; k++) {
    const int how = int(c.draw(6));
    const std::string name = "n" + std::to_string(k);
    auto p = std::make_unique<Kept>(Kept{rst::Status::OK(), "", "", false});
    p->st.Ignore();
    bool fails = true;
    switch (how) {
      case 0: p->path = d.path + "/no/" + name; p->st = rst::WriteFile(p->path.c_str(), "x"); break;
      case 1: p->path = d.path + "/no/" + name; p->st = rst::WriteImportantFile(p->path, "x"); break;
      case 2: case 3: case 4: {
        p->path = how == 2 ? d.path + "/" + name : d.path + "/" + name + "_dir";
        if (how != 2) mkdir(p->path.c_str(), 0755);
        if (how == 4) { p->st = rst::WriteImportantFile(p->path, "x"); break; }  // onto a directory
        auto r = rst::ReadFile(p->path);
        PBT_CHECK(c, r.err(), "a read of %s did not fail", how == 2 ? "a missing file" : "a directory");
        p->st = std::move(r).TakeStatus();
        break;
      }
      default: p->path = d.path + "/" + name; p->st = rst::WriteFile(p->path.c_str(), "x"); fails = false;
    }
    PBT_CHECK(c, p->st.err() == fails, "operation %d %s", how, fails ? "did not fail" : "failed");
    if (fails) {
      p->msg = p->st.GetError()->AsString();
      p->open_class = rst::dyn_cast<rst::FileOpenError>(p->st.GetError()) != nullptr;
      PBT_CHECK(c, p->msg.find(p->path) != std::string::npos, "message does not name the file: %s", p->msg.c_str());
      PBT_CHECK(c, p->open_class == (how < 3), "operation %d %s", how, p->open_class ? "reported as an open failure" : "not reported as an open failure");
      kept.push_back(std::move(p));
    }
    if (kept.size() > 1 && c.chance(1, 4)) {
      const size_t a = c.draw(kept.size());
      if (c.flip()) kept.erase(kept.begin() + long(a));
      else { auto q = std::make_unique<Kept>(Kept{std::move(kept[a]->st), kept[a]->path, kept[a]->msg, kept[a]->open_class}); (void)q->st.err(); kept[a] = std::move(q); }
    }
    if (kept.size() >= 2) c.nontrivial();
    for (auto& q : kept) {
      PBT_CHECK(c, q->st.GetError()->AsString() == q->msg, "the message of an earlier failure, \"%s\", became \"%s\"", q->msg.c_str(), q->st.GetError()->AsString().c_str());
      PBT_CHECK(c, (rst::dyn_cast<rst::FileOpenError>(q->st.GetError()) != nullptr) == q->open_class, "the class of an earlier failure changed");
    }
  }
}
