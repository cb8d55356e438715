#include "sysfault.h"

#include <errno.h>
#include <fcntl.h>
#include <linux/stat.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <map>
#include <thread>

namespace sysfault {
namespace {

constexpr long kBegin = 0x3f01, kEnd = 0x3f02;

Kind kind_of(long nr, const uint64_t* a) {
  switch (nr) {
    case SYS_open: case SYS_openat: case SYS_creat: case 437 /* openat2 */: return kOpen;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: case 327: return kRead;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case 328: case SYS_sendfile: case SYS_copy_file_range: return kWrite;
    case SYS_close: return kClose;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: return kRename;
    case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: return kLink;
    case SYS_unlink: case SYS_unlinkat: return kUnlink;
    case SYS_fsync: case SYS_fdatasync: case SYS_sync_file_range: case SYS_syncfs: return kSync;
    case SYS_ftruncate: case SYS_truncate: case SYS_fallocate: return kTruncate;
    case SYS_stat: case SYS_fstat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_access: case SYS_faccessat: case 439: return kStat;
    case SYS_lseek: return kSeek;
  }
  (void)a;
  return kOther;
}

bool peek(pid_t pid, uint64_t addr, void* buf, size_t n) {
  struct iovec l = {buf, n}, r = {reinterpret_cast<void*>(addr), n};
  if (process_vm_readv(pid, &l, 1, &r, 1, 0) == ssize_t(n)) return true;
  for (size_t k = 0; k < n; k += 8) {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, pid, addr + k, nullptr);
    if (errno) return false;
    memcpy(static_cast<char*>(buf) + k, &w, n - k < 8 ? n - k : 8);
  }
  return true;
}

bool poke64(pid_t pid, uint64_t addr, uint64_t v) { return ptrace(PTRACE_POKEDATA, pid, addr, v) == 0; }

std::string peek_str(pid_t pid, uint64_t addr) {
  std::string s;
  while (s.size() < 8192) {
    size_t n = 256 - (addr + s.size()) % 256;
    char buf[256];
    if (!peek(pid, addr + s.size(), buf, n)) break;
    if (const void* z = memchr(buf, 0, n)) { s.append(buf, size_t(static_cast<const char*>(z) - buf)); break; }
    s.append(buf, n);
  }
  return s;
}

std::string fd_path(pid_t pid, int fd) {
  char link[64], buf[4096];
  snprintf(link, sizeof link, "/proc/%d/fd/%d", pid, fd);
  ssize_t n = readlink(link, buf, sizeof buf);
  return n < 0 ? std::string() : std::string(buf, size_t(n));
}

// Names are told apart by their directories, so they are made absolute.
std::string absolute(pid_t pid, int dirfd, const std::string& name) {
  if (name.empty() || name[0] == '/') return name;
  std::string dir;
  if (dirfd == AT_FDCWD) {
    char link[64], buf[4096];
    snprintf(link, sizeof link, "/proc/%d/cwd", pid);
    const ssize_t n = readlink(link, buf, sizeof buf);
    if (n > 0) dir.assign(buf, size_t(n));
  } else {
    dir = fd_path(pid, dirfd);
  }
  return std::filesystem::path(dir + "/" + name).lexically_normal().string();
}

struct Task {
  pid_t tid = 0;
  enum { kNew, kStopped, kFloating, kDone } state = kNew;
  bool in_call = false;  // between entry and exit of a system call
  bool begun = false;
  int index = -1;
  Stop stop;
  Act act;
};

}  // namespace

const char* kind_name(Kind k) {
  static const char* const n[] = {"other", "open", "read", "write", "close", "rename", "link", "unlink", "sync", "truncate", "stat", "seek"};
  return n[k];
}

Result run(const std::vector<std::function<void()>>& bodies, const Options& o) {
  Result res;
  const int n = int(bodies.size());
  std::vector<Task> tasks;
  tasks.resize(size_t(n));
  std::map<pid_t, int> by_tid;
  std::vector<pid_t> procs;
  const int err_fd = int(syscall(SYS_memfd_create, "stderr", 0));
  auto start = [&](const std::function<void()>& f) -> pid_t {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      dup2(err_fd, 2);
      if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) _exit(97);
      raise(SIGSTOP);
      f();
      _exit(0);
    }
    return p;
  };
  if (o.threads) {
    procs.push_back(start([&] {
      std::vector<std::thread> ts;
      for (int k = 0; k < n; k++) ts.emplace_back([&, k] { syscall(kBegin, k); bodies[size_t(k)](); syscall(kEnd, k); });
      for (auto& t : ts) t.join();
    }));
  } else {
    for (int k = 0; k < n; k++) procs.push_back(start([&, k] { syscall(kBegin, k); bodies[size_t(k)](); syscall(kEnd, k); }));
  }
  std::map<pid_t, bool> alive;
  auto finish = [&](bool kill_them) {
    for (auto& [p, live] : alive) if (live && kill_them) kill(p, SIGKILL);
    for (auto& [p, live] : alive) {
      while (live) {
        int st;
        pid_t w = waitpid(p, &st, __WALL);
        if (w < 0 || WIFEXITED(st) || WIFSIGNALED(st)) live = false;
        else ptrace(PTRACE_CONT, p, nullptr, SIGKILL);
      }
    }
    // Reap anything else.
    close(err_fd);
  };
  auto bad = [&](const std::string& why) {
    char buf[6000];
    ssize_t k = pread(err_fd, buf, sizeof buf, 0);
    res.text = why + (k > 0 ? ": " + std::string(buf, size_t(k)) : "");
  };
  for (pid_t p : procs) {
    int st;
    if (p < 0 || waitpid(p, &st, __WALL) != p || !WIFSTOPPED(st) ||
        ptrace(PTRACE_SETOPTIONS, p, nullptr, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE) != 0) {
      res.supported = false;
      for (pid_t q : procs) if (q > 0) { kill(q, SIGKILL); waitpid(q, &st, __WALL); }
      close(err_fd);
      return res;
    }
    alive[p] = true;
    ptrace(PTRACE_SYSCALL, p, nullptr, nullptr);
  }
  size_t done = 0, left = procs.size();
  int exit_bad = 0;
  bool killed = false;

  // Handles one wait status; returns true if a stepped task became stopped.
  auto handle = [&](pid_t tid, int st) {
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (alive.count(tid)) {
        alive[tid] = false;
        left--;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          exit_bad = 1;
          char why[64];
          snprintf(why, sizeof why, WIFEXITED(st) ? "exit code %d" : "signal %d", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
          bad(why);
        }
      }
      auto it = by_tid.find(tid);
      if (it != by_tid.end()) {
        auto& t = tasks[size_t(it->second)];
        if (t.state != Task::kDone) { t.state = Task::kDone; done++; }
      }
      return false;
    }
    if (!WIFSTOPPED(st)) return false;
    const int sig = WSTOPSIG(st);
    auto it = by_tid.find(tid);
    if (sig == (SIGTRAP | 0x80)) {
      struct user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, tid, nullptr, &r) != 0) return false;
      struct __ptrace_syscall_info info;
      memset(&info, 0, sizeof info);
      if (ptrace(PTRACE_GET_SYSCALL_INFO, tid, sizeof info, &info) <= 0) return false;
      const bool entry = info.op == PTRACE_SYSCALL_INFO_ENTRY;
      if (it == by_tid.end()) {
        if (!entry && long(r.orig_rax) == kBegin) {
          // After the marker: from here on the task is stepped.
          int k = int(r.rdi);
          if (k >= 0 && k < n && tasks[size_t(k)].state == Task::kNew) {
            by_tid[tid] = k;
            auto& t = tasks[size_t(k)];
            t.tid = tid;
            t.state = Task::kStopped;
            t.begun = true;
            t.stop.entry = false;
            t.stop.nr = kBegin;
            t.stop.task = k;
            return true;
          }
        }
        ptrace(PTRACE_SYSCALL, tid, nullptr, nullptr);
        return false;
      }
      auto& t = tasks[size_t(it->second)];
      if (t.state == Task::kDone) { ptrace(PTRACE_SYSCALL, tid, nullptr, nullptr); return false; }
      t.state = Task::kStopped;
      Stop& s = t.stop;
      if (entry) {
        t.in_call = true;
        t.index++;
        s = Stop();
        s.task = it->second;
        s.entry = true;
        s.nr = long(r.orig_rax);
        s.a[0] = r.rdi; s.a[1] = r.rsi; s.a[2] = r.rdx; s.a[3] = r.r10; s.a[4] = r.r8; s.a[5] = r.r9;
        s.kind = kind_of(s.nr, s.a);
        s.index = t.index;
        if (s.nr == kEnd) {
          t.state = Task::kDone;
          done++;
          ptrace(PTRACE_SYSCALL, tid, nullptr, nullptr);
          return false;
        }
        auto at = [&](uint64_t dirfd, uint64_t addr) { return absolute(tid, int(dirfd), peek_str(tid, addr)); };
        const uint64_t cwd = uint64_t(AT_FDCWD);
        switch (s.nr) {
          case SYS_open: case SYS_creat: case SYS_unlink: case SYS_stat: case SYS_lstat: case SYS_truncate: case SYS_access: s.path = at(cwd, s.a[0]); break;
          case SYS_openat: case SYS_unlinkat: case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case 437: case 439: s.path = at(s.a[0], s.a[1]); break;
          case SYS_rename: case SYS_link: case SYS_symlink: s.path = at(cwd, s.a[0]); s.path2 = at(cwd, s.a[1]); break;
          case SYS_renameat: case SYS_renameat2: case SYS_linkat: s.path = at(s.a[0], s.a[1]); s.path2 = at(s.a[2], s.a[3]); break;
          default: if (s.kind != kOther) s.path = fd_path(tid, int(s.a[0])); break;
        }
      } else {
        t.in_call = false;
        s.entry = false;
        s.ret = long(r.rax);
        if (t.act.what == Act::kFail || t.act.what == Act::kFailAfter) {
          r.rax = uint64_t(-t.act.value);
          s.ret = long(r.rax);
          ptrace(PTRACE_SETREGS, tid, nullptr, &r);
        } else if (t.act.what == Act::kSize && s.ret == 0) {
          uint64_t at = 0;
          switch (s.nr) {
            case SYS_stat: case SYS_fstat: case SYS_lstat: at = s.a[1] + offsetof(struct stat, st_size); break;
            case SYS_newfstatat: at = s.a[2] + offsetof(struct stat, st_size); break;
            case SYS_statx: at = s.a[4] + 40; break;
          }
          if (at) poke64(tid, at, uint64_t(t.act.value));
        }
        t.act = Act();
      }
      res.stops++;
      t.act = o.on_stop ? o.on_stop(s) : Act();
      if (t.act.what == Act::kKill) { killed = true; return true; }
      if (s.entry && t.act.what == Act::kFail) {
        r.orig_rax = uint64_t(-1);
        ptrace(PTRACE_SETREGS, tid, nullptr, &r);
      } else if (s.entry && t.act.what == Act::kShorten) {
        if (r.rdx > uint64_t(t.act.value)) { r.rdx = uint64_t(t.act.value); ptrace(PTRACE_SETREGS, tid, nullptr, &r); }
        t.act = Act();
      }
      return true;
    }
    // Clone events, new threads' first stop and signals.
    int deliver = 0;
    if (sig != SIGTRAP && sig != SIGSTOP) deliver = sig;
    if (it != by_tid.end() && tasks[size_t(it->second)].state == Task::kStopped) tasks[size_t(it->second)].state = Task::kFloating;
    ptrace(PTRACE_SYSCALL, tid, nullptr, deliver);
    return false;
  };

  // Everyone reaches the start line.
  auto all_begun = [&] { for (auto& t : tasks) if (!t.begun && t.state != Task::kDone) return false; return true; };
  while (!all_begun() && left > 0) {
    int st;
    pid_t w = waitpid(-1, &st, __WALL);
    if (w < 0) break;
    handle(w, st);
  }
  while (left > 0 && !killed) {
    std::vector<int> run;
    for (int k = 0; k < n; k++) if (tasks[size_t(k)].state == Task::kStopped) run.push_back(k);
    if (run.empty()) {
      int st;
      pid_t w = waitpid(-1, &st, __WALL);
      if (w < 0) break;
      handle(w, st);
      continue;
    }
    int k = run[run.size() > 1 && o.pick ? o.pick(run) : 0];
    auto& t = tasks[size_t(k)];
    const bool may_block = t.in_call && t.stop.nr == SYS_futex;
    t.state = Task::kFloating;
    ptrace(PTRACE_SYSCALL, t.tid, nullptr, nullptr);
    int st;
    if (may_block) {
      // Others go on; pick up whatever has stopped meanwhile.
      for (int spin = 0; spin < 20; spin++) {
        pid_t w = waitpid(-1, &st, __WALL | WNOHANG);
        if (w > 0) handle(w, st);
        if (killed || t.state != Task::kFloating) break;
        usleep(20);
      }
      continue;
    }
    while (!killed && t.state == Task::kFloating && left > 0) {
      pid_t w = waitpid(-1, &st, __WALL);
      if (w < 0) break;
      handle(w, st);
    }
  }
  res.killed = killed;
  res.clean = !killed && !exit_bad;
  finish(true);
  return res;
}

}  // namespace sysfault
