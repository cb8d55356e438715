#include "pbt.h"

#include <dirent.h>
#include <errno.h>
#ifdef PBT_HOP
#include <semaphore.h>
#include <ucontext.h>
#endif
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <sys/syscall.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <map>
#include <set>
#include <thread>
#include <sched.h>

extern "C" const char* __asan_default_options() {
  return "exitcode=97:detect_leaks=0:abort_on_error=0:handle_abort=0:"
         "allocator_may_return_null=1:detect_stack_use_after_return=1:"
         "allow_user_segv_handler=1:handle_segv=1:quarantine_size_mb=16:"
         "malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() {
  return "exitcode=97:print_stacktrace=0:abort_on_error=0";
}

extern "C" const char* __tsan_default_options() {
  return "exitcode=97:halt_on_error=1:abort_on_error=0:handle_abort=0:report_thread_leaks=0:"
         "report_signal_unsafe=0:detect_deadlocks=0:allocator_may_return_null=1:history_size=3";
}

namespace alloc {
__attribute__((weak)) void per_thread() {}
__attribute__((weak)) Counts now() { return {0, 0}; }
}

namespace pbt {
namespace {

constexpr size_t kMaxChoices = 1 << 16;
constexpr size_t kMsg = 8192;
constexpr size_t kTrace = 1 << 16;
constexpr size_t kLabels = 96;
constexpr size_t kSet = 1 << 22;
constexpr int kFailExit = 66;

struct Slot {
  std::atomic<uint64_t> cur;       // current case index + 1, 0 = none
  std::atomic<uint64_t> done;      // cases completed
  std::atomic<uint64_t> nchoices;
  std::atomic<uint32_t> in_case;
  uint64_t choices[kMaxChoices];
  char msg[kMsg];
  char err[kMsg];
  char trace[kTrace];
  uint64_t trace_len;
  uint64_t nontrivial;
  uint64_t label_count[kLabels];
  char label_name[kLabels][48];
  uint64_t samples[8];
  uint64_t nsamples;
  std::atomic<uint64_t> progress;
  std::atomic<uint64_t> say_len;
  char say[kMsg];
  uint32_t overflow;
};

Slot* g_slots = nullptr;
Slot* g_slot = nullptr;
std::atomic<uint64_t>* g_set = nullptr;
std::atomic<uint64_t>* g_set_count = nullptr;
std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}

bool g_thorough = false;
uint64_t g_seed = 1;
std::string g_scratch, g_far;
std::string g_prefail;

double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

void set_insert(uint64_t h) {
  if (h == 0) h = 1;
  uint64_t i = hash64(h) & (kSet - 1);
  for (size_t n = 0; n < 64; n++, i = (i + 1) & (kSet - 1)) {
    uint64_t e = g_set[i].load(std::memory_order_relaxed);
    if (e == h) return;
    if (e == 0) {
      if (g_set[i].compare_exchange_strong(e, h)) {
        g_set_count->fetch_add(1);
        return;
      }
      if (e == h) return;
    }
  }
}

uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

uint64_t case_seed(const Scenario& s, uint64_t idx) {
  uint64_t h = 1469598103934665603ULL;
  for (const char* p = s.name; *p; p++) h = (h ^ uint64_t(*p)) * 1099511628211ULL;
  return hash64(hash64(g_seed * 0x9e3779b97f4a7c15ULL + 77) ^ h) ^ hash64(idx * 31 + 5);
}

#ifdef PBT_HOP
// One case at a time runs as a fiber that its threads pass around.
namespace hop {
constexpr int kThreads = 3;
struct State {
  pid_t pid = getpid();
  ucontext_t fiber, home[kThreads];
  sem_t go[kThreads], done;
  int at = 0, next = 0, stay = 0;
  bool running = false;
  ScenarioFn fn = nullptr;
  Ctx* c = nullptr;
  uint64_t draws = 0;
};
State* st = nullptr;
thread_local int t_id = -1;
constexpr size_t kStack = size_t(64) << 20;

void wait(sem_t* s) { while (sem_wait(s) != 0 && errno == EINTR) {} }

void entry() {
  State* s = st;
  s->fn(*s->c);
  s->running = false;
  swapcontext(&s->fiber, &s->home[s->at]);
  abort();
}

void worker(State* s, int i) {
  t_id = i;
  for (;;) {
    wait(&s->go[i]);
    swapcontext(&s->home[i], &s->fiber);
    sem_post(s->running ? &s->go[s->next] : &s->done);
  }
}

__attribute__((noinline)) bool here() { return st && t_id == st->at && st->running && st->stay == 0 && st->pid == getpid(); }

__attribute__((noinline)) void maybe(uint64_t v) {
  if (!here()) return;
  State* s = st;
  const uint64_t h = hash64(s->draws++ * 0x9e3779b97f4a7c15ULL + v);
  if (h % 5) return;
  const int old = s->at;
  s->at = s->next = (old + 1 + int(h / 5 % (kThreads - 1))) % kThreads;
  swapcontext(&s->fiber, &s->home[old]);
}

void run(ScenarioFn fn, Ctx& c) {
  static char* stack = nullptr;
  if (!stack) stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (!st || st->pid != getpid()) {
    st = new State;
    sem_init(&st->done, 0, 0);
    for (auto& g : st->go) sem_init(&g, 0, 0);
    for (int i = 0; i < kThreads; i++) std::thread(worker, st, i).detach();
  }
  st->fn = fn;
  st->c = &c;
  st->draws = 0;
  st->stay = 0;
  st->at = 0;
  st->running = true;
  getcontext(&st->fiber);
  st->fiber.uc_stack.ss_sp = stack;
  st->fiber.uc_stack.ss_size = kStack;
  st->fiber.uc_link = nullptr;
  makecontext(&st->fiber, entry, 0);
  sem_post(&st->go[0]);
  wait(&st->done);
}
}  // namespace hop
#endif

void call(const Scenario& s, Ctx& c) {
#ifdef PBT_HOP
  hop::run(s.fn, c);
#else
  s.fn(c);
#endif
}

void run_case(const Scenario& s, uint64_t idx, bool tracing) {
  Ctx c;
  c.mode_ = Ctx::kRandom;
  c.rng_ = case_seed(s, idx);
  c.tracing_ = tracing;
  g_slot->nchoices.store(0);
  g_slot->msg[0] = 0;
  g_slot->overflow = 0;
  if (tracing) { g_slot->trace_len = 0; g_slot->trace[0] = 0; }
  g_slot->in_case.store(1);
  call(s, c);
  g_slot->in_case.store(0);
  if (c.nontrivial_) {
    g_slot->nontrivial++;
    set_insert(c.hash_ ^ hash64(uint64_t(uintptr_t(s.fn))));
    if (g_slot->nsamples < 8) g_slot->samples[g_slot->nsamples++] = idx;
  }
}

void run_replay(const Scenario& s, const std::vector<uint64_t>& ch, bool tracing) {
  Ctx c;
  c.mode_ = Ctx::kReplay;
  c.replay_ = ch.data();
  c.replay_n_ = ch.size();
  c.tracing_ = tracing;
  g_slot->nchoices.store(0);
  g_slot->msg[0] = 0;
  g_slot->trace_len = 0;
  g_slot->trace[0] = 0;
  g_slot->in_case.store(1);
  call(s, c);
  g_slot->in_case.store(0);
}

// All threads of pid sleeping?  Returns total cpu ticks, or -1.
long cpu_ticks(pid_t pid, bool* all_sleep) {
  *all_sleep = true;
  char path[64];
  snprintf(path, sizeof path, "/proc/%d/task", pid);
  DIR* d = opendir(path);
  if (!d) return -1;
  long sum = 0;
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    char p2[400], buf[512];
    snprintf(p2, sizeof p2, "/proc/%d/task/%s/stat", pid, e->d_name);
    int fd = open(p2, O_RDONLY | O_CLOEXEC);
    if (fd < 0) continue;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) continue;
    buf[n] = 0;
    char* q = strrchr(buf, ')');
    if (!q) continue;
    char st = 0;
    unsigned long ut = 0, stt = 0;
    if (sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &st, &ut, &stt) != 3) continue;
    if (st == 'R' || st == 'D') *all_sleep = false;
    sum += long(ut + stt);
  }
  closedir(d);
  return sum;
}

struct Outcome {
  bool failed = false;
  bool hung = false;
  std::string msg;
};

std::string describe_status(int st, const Slot* slot) {
  std::string m = slot->msg;
  std::string e = slot->err;
  std::string r;
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == kFailExit) return m;
    r = strf("process exited with code %d%s", WEXITSTATUS(st),
             WEXITSTATUS(st) == 97 ? " (sanitizer report)" : "");
  } else if (WIFSIGNALED(st)) {
    r = strf("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  }
  if (!m.empty()) r += ": " + m;
  if (!e.empty()) r += "\n" + e;
  return r;
}

pid_t spawn(const std::function<void()>& f, int slot_idx, int* err_fd) {
  int p[2];
  if (pipe2(p, O_CLOEXEC) != 0) { perror("pipe"); exit(0); }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(0); }
  if (pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(p[0]);
    // stderr goes to the parent, which keeps its head.
    dup2(p[1], 2);
    g_slot = &g_slots[slot_idx];
    f();
    fflush(stdout);
    _exit(0);
  }
  setpgid(pid, pid);
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  *err_fd = p[0];
  return pid;
}

void drain(int fd, std::string* to) {
  char buf[4096];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0)
    if (to->size() < 65536) to->append(buf, size_t(n));
}

std::string head(const std::string& s) {
  // Keep the informative part of a sanitizer report / assertion.
  std::string r = s.substr(0, 3500);
  return r;
}

double g_hang_block_s = 20, g_hang_cpu_s = 30;

struct Worker {
  pid_t pid = -1;
  int slot = 0;
  int err_fd = -1;
  std::string err;
  uint64_t last_case = 0;
  double case_start = 0;
  long last_ticks = -1;
  double idle_since = 0;
  long case_ticks0 = 0;
  bool hung = false;
  std::string hang_msg;
};

// Polls a worker for hangs.
void watch(Worker& w) {
  Slot& s = g_slots[w.slot];
  const double t = now_s();
  const uint64_t cur = s.cur.load() * 2 + s.in_case.load();
  bool sleeping = false;
  if (cur != w.last_case) {
    w.last_case = cur;
    w.case_start = t;
    w.idle_since = t;
    w.case_ticks0 = cpu_ticks(w.pid, &sleeping);
    w.last_ticks = w.case_ticks0;
    return;
  }
  if (t - w.case_start < 3) return;
  long k = cpu_ticks(w.pid, &sleeping);
  if (k < 0) return;
  if (k > w.last_ticks + 1 || !sleeping) {
    if (k > w.last_ticks + 1) w.last_ticks = k;
    w.idle_since = t;
  }
  const double hz = double(sysconf(_SC_CLK_TCK));
  if (t - w.idle_since > g_hang_block_s) {
    w.hung = true;
    w.hang_msg = strf("hang: no thread made progress for %.0f s (deadlock)", g_hang_block_s);
  } else if (double(k - w.case_ticks0) / hz > g_hang_cpu_s) {
    w.hung = true;
    w.hang_msg = strf("hang: the case used more than %.0f s of CPU time", g_hang_cpu_s);
  }
  if (w.hung) kill(-w.pid, SIGKILL), kill(w.pid, SIGKILL);
}

// Runs f in one monitored child on slot |slot|.
Outcome run_one(const std::function<void()>& f, int slot) {
  Worker w;
  w.slot = slot;
  g_slots[slot].cur.store(1);
  g_slots[slot].msg[0] = 0;
  g_slots[slot].err[0] = 0;
  g_slots[slot].in_case.store(0);
  w.pid = spawn(f, slot, &w.err_fd);
  w.case_start = w.idle_since = now_s();
  Outcome o;
  int st = 0;
  for (int spins = 0;; spins++) {
    pid_t r = waitpid(w.pid, &st, WNOHANG);
    if (r == w.pid) break;
    drain(w.err_fd, &w.err);
    if (!w.hung && spins % 64 == 63) watch(w);
    if (spins < 200) usleep(300); else usleep(2000);
  }
  drain(w.err_fd, &w.err);
  close(w.err_fd);
  kill(-w.pid, SIGKILL);
  if (w.hung) {
    o.failed = o.hung = true;
    o.msg = w.hang_msg;
    if (g_slots[slot].msg[0]) o.msg += std::string("; ") + g_slots[slot].msg;
  } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    o.failed = true;
    std::string e = head(w.err);
    snprintf(g_slots[slot].err, kMsg, "%s", e.c_str());
    o.msg = describe_status(st, &g_slots[slot]);
  }
  return o;
}

std::vector<uint64_t> slot_choices(int slot) {
  size_t n = std::min<size_t>(g_slots[slot].nchoices.load(), kMaxChoices);
  return std::vector<uint64_t>(g_slots[slot].choices, g_slots[slot].choices + n);
}

// Shrinks |ch|.
std::vector<uint64_t> shrink(const Scenario& s, std::vector<uint64_t> ch, int slot, bool hung,
                             std::string* msg, uint64_t* execs) {
  const double t0 = now_s();
  const double budget = hung ? 45 : (g_thorough ? 90 : 30);
  uint64_t runs = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now_s() - t0 > budget || runs > 1500) return false;
    runs++;
    Outcome o = run_one([&] { run_replay(s, cand, false); }, slot);
    if (!o.failed) return false;
    auto used = slot_choices(slot);
    // Normalised: what was actually consumed.
    ch = used.size() <= cand.size() ? used : cand;
    while (!ch.empty() && ch.back() == 0) ch.pop_back();
    *msg = o.msg;
    return true;
  };
  attempt(ch);
  bool improved = true;
  while (improved && now_s() - t0 < budget) {
    improved = false;
    // Delete blocks.
    for (size_t k = std::max<size_t>(1, ch.size() / 2); k >= 1; k /= 2) {
      for (size_t i = ch.size(); i > 0 && now_s() - t0 < budget;) {
        size_t b = i > k ? i - k : 0;
        if (b >= ch.size()) { i = b; continue; }
        auto cand = ch;
        cand.erase(cand.begin() + long(b), cand.begin() + long(std::min(b + k, cand.size())));
        size_t before = ch.size();
        if (attempt(cand) && ch.size() < before) improved = true;
        i = b;
      }
      if (k == 1) break;
    }
    // Lower values.
    for (size_t i = 0; i < ch.size() && now_s() - t0 < budget; i++) {
      if (ch[i] == 0) continue;
      auto cand = ch;
      cand[i] = 0;
      if (attempt(cand)) { improved = true; continue; }
      uint64_t lo = 0;
      while (i < ch.size() && ch[i] > lo + 1 && now_s() - t0 < budget) {
        cand = ch;
        uint64_t mid = lo + (ch[i] - lo) / 2;
        cand[i] = mid;
        if (attempt(cand)) improved = true; else lo = mid;
        if (ch[i] - lo > 1u << 20 && runs > 400) break;
      }
    }
  }
  *execs = runs;
  return ch;
}

std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
    else if (ch == '\n') r += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) r += strf("\\u%04x", ch);
    else r += char(ch);
  }
  return r + "\"";
}

void rm_rf(const std::string& path) {
  struct stat st;
  if (lstat(path.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    chmod(path.c_str(), 0700);
    if (DIR* d = opendir(path.c_str())) {
      while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") rm_rf(path + "/" + n);
      }
      closedir(d);
    }
    rmdir(path.c_str());
  } else {
    unlink(path.c_str());
  }
}

}  // namespace

uint64_t hash64(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL;
  return x ^ (x >> 33);
}

bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }
const std::string& scratch() { return g_scratch; }
const std::string& far_scratch() { return g_far; }

Registrar::Registrar(const Scenario& s) { scenarios().push_back(s); }

uint64_t Ctx::draw(uint64_t n) {
  uint64_t v;
  if (mode_ == kChild) {
    v = splitmix(rng_);
    if (n) v = n <= (1ULL << 32) ? ((v >> 32) * n) >> 32 : v % n;
    return v;
  }
  if (bytes_ != nullptr) {
    v = 0;
    int nb = n == 0 ? 8 : 1;
    if (n > 0) for (uint64_t m = (n - 1) >> 8; m; m >>= 8) nb++;
    if (pos_ + size_t(nb) > bytes_n_) {
      v = 0;
      pos_ = bytes_n_;
    } else {
      for (int i = 0; i < nb; i++) v = (v << 8) | bytes_[pos_++];
      if (n) v %= n;
    }
    size_t k = g_slot->nchoices.load(std::memory_order_relaxed);
    if (k < kMaxChoices) { g_slot->choices[k] = v; g_slot->nchoices.store(k + 1, std::memory_order_relaxed); }
    return v;
  }
  if (mode_ == kReplay) {
    v = pos_ < replay_n_ ? replay_[pos_] : 0;
    if (n && v >= n) v = n - 1;
  } else {
    v = splitmix(rng_);
    if (n) v = n <= (1ULL << 32) ? ((v >> 32) * n) >> 32 : v % n;
  }
  if (pos_ < kMaxChoices) {
    g_slot->choices[pos_] = v;
    g_slot->nchoices.store(pos_ + 1, std::memory_order_relaxed);
  } else {
    g_slot->overflow = 1;
    v = 0;  // Keep replay exact: past the recorded part everything is 0.
  }
  pos_++;
  hash_ = hash64(hash_ ^ (v + 0x9e3779b97f4a7c15ULL)) + pos_;
#ifdef PBT_HOP
  hop::maybe(v);
#endif
  return v;
}

#ifdef PBT_HOP
Stay::Stay() { if (hop::st) hop::st->stay++; }
Stay::~Stay() { if (hop::st) hop::st->stay--; }
#else
Stay::Stay() {}
Stay::~Stay() {}
#endif

bool memory_for(uint64_t bytes) {
  FILE* f = fopen("/proc/meminfo", "r");
  if (!f) return false;
  char line[200];
  unsigned long long kb = 0;
  while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
  fclose(f);
  return kb / 3 * 2 > bytes >> 10;
}

size_t Ctx::weighted(std::initializer_list<unsigned> w) {
  uint64_t sum = 0;
  for (auto x : w) sum += x;
  uint64_t v = draw(sum);
  size_t i = 0;
  for (auto x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return 0;
}

void in_threads_i(Ctx& c, int rounds, const std::function<void(Ctx&, int)>& f) {
  const size_t k = c.size(2, 4);
  std::vector<uint64_t> seeds;
  for (size_t i = 0; i < k; i++) seeds.push_back(c.draw(uint64_t(1) << 40));
  c.trace("%zu threads\n", k);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t i = 0; i < k; i++)
    th.emplace_back([&, i] {
      alloc::per_thread();
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < k) sched_yield();
      uint64_t seed = seeds[i];
      for (int r = 0; r < rounds; r++) {
        Ctx t;
        t.mode_ = Ctx::kChild;
        t.rng_ = splitmix(seed);
        f(t, int(i));
      }
    });
  for (auto& t : th) t.join();
}
void in_threads(Ctx& c, int rounds, const std::function<void(Ctx&)>& f) {
  in_threads_i(c, rounds, [&f](Ctx& t, int) { f(t); });
}

void Ctx::label(const char* name) {
  if (mode_ == kChild) return;
  for (size_t i = 0; i < kLabels; i++) {
    if (g_slot->label_name[i][0] == 0)
      snprintf(g_slot->label_name[i], sizeof g_slot->label_name[i], "%s", name);
    if (strncmp(g_slot->label_name[i], name, sizeof g_slot->label_name[i] - 1) == 0) {
      g_slot->label_count[i]++;
      return;
    }
  }
}

void pre_fail(const char* cond, const char* file, int line) {
  const char* b = strrchr(file, '/');
  g_prefail = strf("[%s:%d %s] ", b ? b + 1 : file, line, cond);
}

void Ctx::fail_str(const std::string& msg) {
  std::string m = g_prefail + msg;
  snprintf(g_slot->msg, kMsg, "%s", m.c_str());
  syscall(SYS_exit_group, kFailExit);  // No exit hooks of sanitizers.
  _exit(kFailExit);
}

void Ctx::fail(const char* fmt, ...) {
  char buf[kMsg];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail_str(buf);
}

void Ctx::trace(const char* fmt, ...) {
  if (!tracing_) return;
  va_list ap;
  va_start(ap, fmt);
  size_t left = kTrace - g_slot->trace_len;
  int n = vsnprintf(g_slot->trace + g_slot->trace_len, left, fmt, ap);
  va_end(ap);
  if (n > 0) g_slot->trace_len = std::min<size_t>(g_slot->trace_len + size_t(n), kTrace - 1);
}

std::string strf(const char* fmt, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

std::string quote(std::string_view s, size_t max) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char ch = static_cast<unsigned char>(s[i]);
    if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
    else if (ch < 0x20 || ch >= 0x7f) r += strf("\\x%02x", ch);
    else r += char(ch);
  }
  r += "\"";
  if (s.size() > max) r += strf("...(%zu bytes)", s.size());
  return r;
}

std::string gen_bytes(Ctx& c, size_t max_len) {
  size_t n = 0;
  switch (c.weighted({5, 3, 1})) {
    case 0: n = c.size(0, std::min<size_t>(max_len, 6)); break;
    case 1: n = c.size(0, std::min<size_t>(max_len, 40)); break;
    default: n = c.size(0, max_len); break;
  }
  std::string s;
  s.reserve(n);
  static const char special[] = {'a', '\0', '.', '{', '}', '%', '\n', ' ', '-', '/', '\xff', '\x80', '"', '\\', 's', 'A'};
  if (n > 256) {
    // Long strings: derive from few choices.
    uint64_t r = c.draw(0);
    unsigned mode = unsigned(c.draw(3));
    for (size_t i = 0; i < n; i++) {
      uint64_t x = hash64(r + i / (mode == 2 ? 64 : 1));
      s += mode == 1 ? special[x % sizeof special] : char(x);
    }
    return s;
  }
  for (size_t i = 0; i < n; i++) {
    switch (c.weighted({4, 3, 2})) {
      case 0: s += char('a' + c.draw(26)); break;
      case 1: s += special[c.draw(sizeof special)]; break;
      default: s += char(c.draw(256)); break;
    }
  }
  return s;
}

uint64_t gen_uint(Ctx& c) {
  switch (c.weighted({3, 3, 3, 2})) {
    case 0: return c.draw(20);
    case 1: {
      uint64_t b = uint64_t{1} << c.draw(64);
      return b + c.draw(5) - 2;
    }
    case 2: {
      unsigned k = unsigned(c.draw(64));
      return c.draw(0) >> k;
    }
    default: return uint64_t(0) - c.draw(20);
  }
}

int64_t gen_int(Ctx& c) {
  uint64_t u = gen_uint(c);
  if (c.flip()) u = uint64_t(0) - u;
  return static_cast<int64_t>(u);
}

double gen_double(Ctx& c) {
  switch (c.weighted({3, 2, 3, 3, 2, 2})) {
    case 0: return double(int64_t(c.draw(2001)) - 1000) / double(1 + c.draw(8));
    case 1: return double(gen_int(c));
    case 2: {
      uint64_t b = c.draw(0);
      double d;
      memcpy(&d, &b, 8);
      return d;
    }
    case 3: {
      static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e-300, 4.9e-324, 2.2250738585072014e-308,
                                  1.7976931348623157e308, -1.7976931348623157e308, 9007199254740991.0,
                                  9007199254740992.0, -9007199254740991.0, -9007199254740992.0, 9007199254740994.0, 2147483647.0,
                                  2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0, 9223372036854775807.0,
                                  -9223372036854775808.0, 1e15, 1e16, 123456.0, 1234567.0, 999999.5, 0.0001, 0.00001, 2.220446049250313e-16, 1.1102230246251565e-16};
      double d = c.pick(sp);
      uint64_t b;
      memcpy(&b, &d, 8);
      switch (c.draw(4)) { case 1: b++; break; case 2: b--; break; default: break; }
      memcpy(&d, &b, 8);
      return d;
    }
    case 4: return std::ldexp(1.0 + double(c.draw(1024)) / 1024.0, int(c.range(-1070, 1023))) * (c.flip() ? -1 : 1);
    default: {
      static const double sp[] = {INFINITY, -INFINITY, NAN, -NAN};
      return c.pick(sp);
    }
  }
}

double gen_finite(Ctx& c) {
  double d = gen_double(c);
  return std::isfinite(d) ? d : 0.25;
}

std::string Death::describe() const {
  std::string r;
  switch (kind) {
    case kExited: r = "ran to completion"; break;
    case kAborted: r = "stopped deliberately (SIGABRT)"; break;
    case kSignaled: r = strf("killed by signal %d", code); break;
    case kBadExit: r = strf("exit code %d", code); break;
    case kHung: r = "hung"; break;
  }
  r += strf(" at step %llu", static_cast<unsigned long long>(progress));
  if (!out.empty()) r += "; " + out;
  if (!err.empty()) r += "; stderr: " + err.substr(0, 1500);
  return r;
}

void mark(uint64_t step) { g_slot->progress.store(step, std::memory_order_relaxed); }

void say(const std::string& s) {
  size_t k = g_slot->say_len.load();
  size_t n = std::min(s.size(), kMsg - 1 - k);
  memcpy(g_slot->say + k, s.data(), n);
  g_slot->say[k + n] = 0;
  g_slot->say_len.store(k + n);
}

Death run_forked(const std::function<void()>& f) {
  g_slot->progress.store(0);
  g_slot->say_len.store(0);
  g_slot->say[0] = 0;
  fflush(stdout);
  int ef = memfd_create("err", MFD_CLOEXEC);
  pid_t pid = -1;
  for (int i = 0; i < 200 && pid < 0; i++) {
    pid = fork();
    if (pid < 0) usleep(5000);
  }
  if (pid < 0) _exit(0);
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGABRT, SIG_DFL);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    rlimit cpu{20, 25};
    setrlimit(RLIMIT_CPU, &cpu);
    if (ef >= 0) dup2(ef, 2);
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Death d{};
  d.progress = g_slot->progress.load();
  d.out.assign(g_slot->say, g_slot->say_len.load());
  if (ef >= 0) {
    char buf[2048];
    ssize_t n = pread(ef, buf, sizeof buf, 0);
    if (n > 0) d.err.assign(buf, size_t(n));
    close(ef);
  }
  if (WIFEXITED(st)) {
    d.kind = WEXITSTATUS(st) == 0 ? Death::kExited : Death::kBadExit;
    d.code = WEXITSTATUS(st);
    if (d.code == kFailExit) {
      // Ctx::fail() inside the child: propagate.
      _exit(kFailExit);
    }
  } else {
    d.code = WTERMSIG(st);
    d.kind = d.code == SIGABRT ? Death::kAborted
             : d.code == SIGXCPU ? Death::kHung : Death::kSignaled;
  }
  return d;
}

}  // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZER
// Coverage-guided front end: bytes -> choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const Scenario* sc = nullptr;
  if (sc == nullptr) {
    g_slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_slot = g_slots;
    const char* want = getenv("PBT_SCENARIO");
    for (auto& s : scenarios()) if (want && strcmp(want, s.name) == 0) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario\n"); exit(3); }
    const char* d = getenv("PBT_SCRATCH");
    g_scratch = d ? d : "/tmp";
    g_thorough = true;
  }
  Ctx c;
  c.bytes_ = data;
  c.bytes_n_ = size;
  g_slot->nchoices.store(0);
  sc->fn(c);
  return 0;
}
#else

static int usage() {
  fprintf(stderr, "usage: check --seed N --tier quick|thorough --out F --replay-dir D [--jobs N] [--scenario S] [--cases N] [--scale X] | --replay FILE | --list\n");
  return 0;
}

static bool read_replay(const std::string& file, std::string* scen, std::vector<uint64_t>* ch, std::vector<uint64_t>* prefix) {
  FILE* f = fopen(file.c_str(), "r");
  if (!f) return false;
  char line[1 << 16];
  while (fgets(line, sizeof line, f)) {
    char name[128];
    unsigned long long a, b, s;
    if (sscanf(line, "scenario %127s", name) == 1) *scen = name;
    else if (sscanf(line, "prefix %llu %llu %llu", &a, &b, &s) == 3) { *prefix = {a, b, s}; }
    else if (strncmp(line, "choices", 7) == 0) {
      char* p = line + 7;
      for (;;) {
        char* e;
        unsigned long long v = strtoull(p, &e, 10);
        if (e == p) break;
        ch->push_back(v);
        p = e;
      }
    }
  }
  fclose(f);
  return true;
}

int main(int argc, char** argv) {
  std::string out, replay_dir = ".", replay, only, tag;
  int jobs = 8;
  uint64_t cases = 0;
  double scale = 1;
  double cap_s = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return i + 1 < argc ? argv[++i] : const_cast<char*>(""); };
    if (a == "--seed") g_seed = strtoull(next(), nullptr, 10);
    else if (a == "--tier") g_thorough = std::string(next()) == "thorough";
    else if (a == "--out") out = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--replay") replay = next();
    else if (a == "--scenario") only = next();
    else if (a == "--jobs") jobs = atoi(next());
    else if (a == "--cases") cases = strtoull(next(), nullptr, 10);
    else if (a == "--scale") scale = atof(next());
    else if (a == "--cap") cap_s = atof(next());
    else if (a == "--tag") tag = next();
    else if (a == "--list") { for (auto& s : scenarios()) printf("%s\n", s.name); return 0; }
    else return usage();
  }
  if (cap_s == 0) cap_s = g_thorough ? 1e9 : 420;
  jobs = std::max(1, std::min(jobs, 64));
  const int nslots = jobs + 1;
  g_slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * size_t(nslots), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_set = static_cast<std::atomic<uint64_t>*>(mmap(nullptr, sizeof(uint64_t) * (kSet + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_set_count = g_set + kSet;
  g_slot = &g_slots[jobs];
  {
    const char* base = getenv("PBT_TMP");
    std::string t = std::string(base ? base : "/tmp") + "/rstpbt.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); return 0; }
    g_scratch = b.data();
    chmod(g_scratch.c_str(), 0755);
    struct stat near_st, shm_st;
    char far_dir[] = "/dev/shm/rstpbt.XXXXXX";
    if (stat(g_scratch.c_str(), &near_st) == 0 && stat("/dev/shm", &shm_st) == 0 && S_ISDIR(shm_st.st_mode) &&
        near_st.st_dev != shm_st.st_dev && mkdtemp(far_dir)) {
      g_far = far_dir;
      chmod(far_dir, 0755);
    }
  }
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  struct Cleaner { pid_t pid = getpid(); ~Cleaner() { if (getpid() == pid) { rm_rf(g_scratch); if (!g_far.empty()) rm_rf(g_far); } } } cleaner;

  if (!replay.empty()) {
    std::string scen;
    std::vector<uint64_t> ch, prefix;
    if (!read_replay(replay, &scen, &ch, &prefix)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    for (auto& s : scenarios()) {
      if (scen != s.name) continue;
      Outcome o;
      if (!prefix.empty()) {
        g_seed = prefix[2];
        o = run_one([&] { for (uint64_t i = prefix[0] % prefix[1]; i <= prefix[0]; i += prefix[1]) { g_slot->cur.store(i + 1); run_case(s, i, i == prefix[0]); } }, jobs);
      } else {
        o = run_one([&] { run_replay(s, ch, true); }, jobs);
      }
      printf("scenario %s\n%s\n", s.name, g_slots[jobs].trace);
      printf("%s\n%s\n", o.failed ? "FAILED" : "passed", o.msg.c_str());
      return o.failed ? 1 : 0;
    }
    fprintf(stderr, "no scenario %s\n", scen.c_str());
    return 2;
  }

  const double t_start = now_s();
  std::string js = "{\"scenarios\":[";
  bool first = true;
  int nfail = 0;
  for (const auto& s : scenarios()) {
#ifdef PBT_HOP
    if (!strcmp(s.name, "threads") || !strcmp(s.name, "shared")) continue;
#endif
    // One confirmed failure is an answer; others are worth a little more time.
    if (nfail && now_s() - t_start > 90) break;
    if (!only.empty() && only != s.name) continue;
    uint64_t total = g_thorough ? s.thorough : s.quick;
    if (cases) total = cases;
    total = std::max<uint64_t>(1, uint64_t(double(total) * scale));
    for (int i = 0; i < nslots; i++) memset(static_cast<void*>(&g_slots[i]), 0, offsetof(Slot, choices)), 
      g_slots[i].nontrivial = 0, g_slots[i].nsamples = 0,
      memset(g_slots[i].label_count, 0, sizeof g_slots[i].label_count), memset(g_slots[i].label_name, 0, sizeof g_slots[i].label_name),
      g_slots[i].msg[0] = 0, g_slots[i].err[0] = 0, g_slots[i].trace[0] = 0;
    if (g_set_count->load() != 0) { memset(static_cast<void*>(g_set), 0, sizeof(uint64_t) * (kSet + 1)); }
    const double t0 = now_s();
    std::vector<Worker> ws;
    int njobs = int(std::min<uint64_t>(uint64_t(jobs), total));
    bool capped = false;
    auto start_worker = [&](Worker& w, uint64_t from) {
      w.err.clear();
      w.hung = false;
      w.last_case = 0;
      w.case_start = w.idle_since = now_s();
      const int slot = w.slot;
      w.pid = spawn([&s, from, total, njobs, slot] {
        g_slots[slot].in_case.store(0);
        for (uint64_t i = from; i < total; i += uint64_t(njobs)) {
          g_slots[slot].cur.store(i + 1);
          if (s.isolate) {
            fflush(stdout);
            pid_t p = fork();
            if (p < 0) { usleep(10000); p = fork(); }
            if (p < 0) _exit(0);
            if (p == 0) {
              prctl(PR_SET_PDEATHSIG, SIGKILL);
              run_case(s, i, false);
              _exit(0);
            }
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
              if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
              signal(WTERMSIG(st), SIG_DFL);
              raise(WTERMSIG(st));
              _exit(98);
            }
          } else {
            run_case(s, i, false);
          }
          g_slots[slot].done.fetch_add(1);
        }
        g_slots[slot].cur.store(0);
      }, slot, &w.err_fd);
    };
    for (int j = 0; j < njobs; j++) {
      Worker w;
      w.slot = j;
      ws.push_back(w);
      start_worker(ws.back(), uint64_t(j));
    }
    struct Failure { int slot; uint64_t idx; std::vector<uint64_t> ch; std::string msg; bool hung; };
    std::vector<Failure> fails;
    uint64_t evaluations = 0;
    int alive = njobs;
    auto kill_all = [&] {
      for (auto& w : ws) if (w.pid > 0) { kill(-w.pid, SIGKILL); kill(w.pid, SIGKILL); }
    };
    int tick = 0;
    bool stopping = false;
    while (alive > 0) {
      int st = 0;
      bool any = false;
      for (auto& w : ws) {
        if (w.pid <= 0) continue;
        drain(w.err_fd, &w.err);
        pid_t r = waitpid(w.pid, &st, WNOHANG);
        if (r != w.pid) continue;
        any = true;
        drain(w.err_fd, &w.err);
        close(w.err_fd);
        const pid_t old = w.pid;
        w.pid = -1;
        alive--;
        kill(-old, SIGKILL);
        Slot& sl = g_slots[w.slot];
        if (stopping && !w.hung && !(WIFEXITED(st) && WEXITSTATUS(st) != 0)) continue;
        const bool bad = w.hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (bad && sl.cur.load() != 0 && sl.in_case.load() != 0) {
          Failure f;
          f.slot = w.slot;
          f.idx = sl.cur.load() - 1;
          f.ch = slot_choices(w.slot);
          f.hung = w.hung;
          snprintf(sl.err, kMsg, "%s", head(w.err).c_str());
          f.msg = w.hung ? w.hang_msg + "; " + sl.msg : describe_status(st, &sl);
          fails.push_back(std::move(f));
        } else if (bad && !stopping) {
          // Died outside a case (e.g. out of memory): note, continue elsewhere.
          fprintf(stderr, "[pbt] worker died outside a case: %s\n%s\n", describe_status(st, &sl).c_str(), w.err.c_str());
        }
      }
      if (!fails.empty() && !stopping) {
        stopping = true;
        kill_all();
      }
      if (!any) {
        usleep(2000);
        if (++tick % 100 == 0) {
          for (auto& w : ws) if (w.pid > 0 && !w.hung) watch(w);
          if (now_s() - t_start > cap_s && !stopping) { capped = true; stopping = true; kill_all(); }
        }
      }
    }
    for (int j = 0; j < njobs; j++) evaluations += g_slots[j].done.load();
    uint64_t nontriv = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> sample_idx;
    for (int j = 0; j < njobs; j++) {
      nontriv += g_slots[j].nontrivial;
      for (size_t k = 0; k < kLabels && g_slots[j].label_name[k][0]; k++)
        labels[g_slots[j].label_name[k]] += g_slots[j].label_count[k];
      for (uint64_t k = 0; k < std::min<uint64_t>(g_slots[j].nsamples, 1); k++) sample_idx.push_back(g_slots[j].samples[k]);
    }
    const double run_wall = now_s() - t0;
    uint64_t distinct = g_set_count->load();
    // Samples.
    std::string samples;
    size_t ns = 0;
    for (uint64_t idx : sample_idx) {
      if (ns >= 2) break;
      Outcome o = run_one([&] { run_case(s, idx, true); }, jobs);
      if (o.failed) continue;
      std::string t = g_slots[jobs].trace;
      if (t.size() > 1200) t = t.substr(0, 1200) + "...";
      samples += (samples.empty() ? "" : ",") + json_str("case " + std::to_string(idx) + ": " + t);
      ns++;
    }
    // Failures: confirm, shrink, save.
    std::string fjs;
    for (auto& f : fails) {
      int rep = 0, tries = 0;
      Outcome last;
      const int max_tries = f.hung ? 1 : 10;
      for (; tries < max_tries && rep < 3; tries++) {
        Outcome o = run_one([&] { run_replay(s, f.ch, false); }, jobs);
        if (o.failed) { rep++; last = o; }
        if (tries == 2 && rep == 3) break;
      }
      std::string kind = "choices";
      std::string msg = rep ? last.msg : f.msg;
      std::vector<uint64_t> ch = f.ch;
      uint64_t execs = 0;
      if (rep == 0) {
        // State carried over from earlier cases of the same worker?
        Outcome o = run_one([&] { for (uint64_t i = f.idx % uint64_t(njobs); i <= f.idx; i += uint64_t(njobs)) { g_slot->cur.store(i + 1); run_case(s, i, false); } }, jobs);
        if (o.failed) { kind = "prefix"; rep = 1; msg = o.msg; }
      } else {
        ch = shrink(s, ch, jobs, f.hung, &msg, &execs);
      }
      if (rep == 0) {
        fprintf(stderr, "[pbt] %s: failure of case %llu did not reproduce: %s\n", s.name, static_cast<unsigned long long>(f.idx), f.msg.c_str());
        fjs += (fjs.empty() ? "" : ",") + std::string("{\"reproduced\":false,\"message\":") + json_str(f.msg) + "}";
        continue;
      }
      // Trace of the minimal case.
      std::string trace;
      if (kind == "choices") {
        Outcome o = run_one([&] { run_replay(s, ch, true); }, jobs);
        trace = g_slots[jobs].trace;
      }
      std::string path = replay_dir + "/" + (tag.empty() ? "" : tag + "-") + s.name + ".replay";
      FILE* fp = fopen(path.c_str(), "w");
      if (fp) {
        fprintf(fp, "# replay file: %s --replay %s\nscenario %s\n", argv[0], path.c_str(), s.name);
        if (kind == "prefix") fprintf(fp, "prefix %llu %d %llu\n", static_cast<unsigned long long>(f.idx), njobs, static_cast<unsigned long long>(g_seed));
        fprintf(fp, "choices");
        for (size_t i = 0; i < ch.size(); i++) { if (i && i % 4000 == 0) fprintf(fp, "\nchoices"); fprintf(fp, " %llu", static_cast<unsigned long long>(ch[i])); }
        fprintf(fp, "\n");
        std::string note = "message: " + msg + "\ntrace:\n" + trace;
        std::string l;
        for (char x : note + "\n") { if (x == '\n') { fprintf(fp, "# %s\n", l.c_str()); l.clear(); } else l += x; }
        fclose(fp);
      }
      nfail++;
      fjs += (fjs.empty() ? "" : ",") + std::string("{\"reproduced\":true,\"replays_failed\":") + std::to_string(rep) + ",\"replays\":" + std::to_string(tries) +
             ",\"shrink_execs\":" + std::to_string(execs) + ",\"choices\":" + std::to_string(ch.size()) +
             ",\"replay\":" + json_str(path) + ",\"message\":" + json_str(msg) + ",\"trace\":" + json_str(trace.substr(0, 4000)) + "}";
      break;
    }
    js += std::string(first ? "" : ",") + "{\"name\":" + json_str(s.name) + ",\"rule\":" + json_str(s.rule) +
          ",\"planned\":" + std::to_string(total) + ",\"evaluations\":" + std::to_string(evaluations) + ",\"nontrivial\":" + std::to_string(nontriv) +
          ",\"distinct_nontrivial\":" + std::to_string(distinct) + ",\"capped\":" + (capped ? "true" : "false") +
          ",\"wall_s\":" + strf("%.2f", run_wall) + ",\"labels\":{";
    bool fl = true;
    for (auto& [k, v] : labels) { js += (fl ? "" : ",") + json_str(k) + ":" + std::to_string(v); fl = false; }
    js += "},\"samples\":[" + samples + "],\"failures\":[" + fjs + "]}";
    first = false;
    fprintf(stderr, "[pbt] %s%s%s: %llu cases, %llu distinct non-trivial, %.1f s%s\n", tag.c_str(), tag.empty() ? "" : " ", s.name,
            static_cast<unsigned long long>(evaluations), static_cast<unsigned long long>(distinct), run_wall, fails.empty() ? "" : "  ** FAILED **");
  }
  js += "],\"failures\":" + std::to_string(nfail) + ",\"wall_s\":" + strf("%.2f", now_s() - t_start) + "}";
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (f) { fwrite(js.data(), 1, js.size(), f); fclose(f); }
  } else {
    printf("%s\n", js.c_str());
  }
  return nfail ? 1 : 0;
}
#endif
