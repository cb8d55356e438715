// C27: one-shot timers.
#include <algorithm>
#include <chrono>
#include <limits>
#include <memory>
#include <vector>

#include "amount.h"
#include "pbt.h"
#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"

using pbt::Ctx;
namespace ch = std::chrono;
constexpr int64_t kMax = std::numeric_limits<int64_t>::max();

namespace {

int64_t saturating(int64_t now, int64_t delay) {
  int64_t r;
  return __builtin_add_overflow(now, delay, &r) ? kMax : r;
}

struct Sim {
  explicit Sim(Ctx& c) : c(c) {}
  Ctx& c;
  int64_t clock = 0;
  static constexpr int kRunners = 2;
  std::unique_ptr<rst::PollingTaskRunner> runner[kRunners];
  int current_runner = 0;

  struct Timer {
    std::unique_ptr<rst::OneShotTimer> t;  // null: destroyed
    bool running = false;
    int task = -1;       // task to run
    uint64_t gen = 0;    // counts starts
  };
  std::vector<Timer> timers;
  struct Posted { int64_t due; uint64_t seq; int timer; uint64_t gen; };
  std::vector<Posted> posted[kRunners];
  uint64_t seq = 0;
  std::vector<int> runs, alive, allowed;
  std::vector<int> heir;   // acts when released after running: 1 restart, 2 destroy
  int on_release = 0, on_replaced = 0;
  bool over = false;
  std::vector<int> stack;  // tasks being run
  int expected = -1;       // task that must run next
  int budget = 60;
  int self_restart = 0, self_destroy = 0, manual_self = 0, replaced = 0, fired = 0, elapsed = 0, killed = 0;

  struct Tok {
    Sim* s; int id; size_t timer;
    Tok(Sim* s, int id, size_t timer) : s(s), id(id), timer(timer) { s->alive[size_t(id)]++; }
    ~Tok() {
      s->alive[size_t(id)]--;
      // What a finished or replaced task holds can act on the timer when it is
      // released.
      if (s->over || !s->heir[size_t(id)] || !s->timers[timer].t) return;
      s->on_release++;
      if (!s->runs[size_t(id)]) s->on_replaced++;
      s->c.trace("release of task #%d:\n", id);
      if (s->heir[size_t(id)] == 1) s->start(timer);
      else s->destroy(timer);
    }
  };

  void check_flags(const char* when) {
    for (size_t i = 0; i < timers.size(); i++) {
      if (!timers[i].t) continue;
      PBT_CHECK(c, timers[i].t->IsRunning() == timers[i].running, "timer %zu: IsRunning()=%d %s, expected %d", i,
                timers[i].t->IsRunning(), when, timers[i].running);
    }
  }

  void start(size_t i) {
    if (budget-- <= 0 || !timers[i].t) return;
    Timer& tm = timers[i];
    const int id = int(runs.size());
    runs.push_back(0);
    alive.push_back(0);
    heir.push_back(int(c.weighted({14, 2, 1})));
    const int64_t delay = c.weighted({2, 5, 1}) == 0 ? 0 : c.chance(1, 8) ? kMax - int64_t(c.draw(3)) : c.range(0, 10);
    const int old = tm.running ? tm.task : -1;
    if (tm.running) replaced++;
    tm.running = true;
    tm.task = id;
    tm.gen++;
    if (c.chance(1, 5)) current_runner ^= 1;
    const int64_t due = saturating(clock, delay);
    posted[current_runner].push_back({due, seq++, int(i), tm.gen});
    auto tok = std::make_shared<Tok>(this, id, i);
    std::function<void()> fn = [this, tok, i] { body(tok->id, i); };
    tok.reset();
    c.trace("start timer %zu task #%d delay %lld due %lld (runner %d)%s\n", i, id, (long long)delay, (long long)due,
            current_runner, old >= 0 ? " replacing" : "");
    tm.t->Start(std::move(fn), ch::nanoseconds(delay));
    if (old >= 0) PBT_CHECK(c, alive[size_t(old)] == 0, "replaced task %d not released", old);
    check_flags("after start");
  }

  void fire(size_t i) {
    Timer& tm = timers[i];
    if (!tm.t || !tm.running) return;
    const int id = tm.task;
    tm.running = false;
    tm.task = -1;
    fired++;
    const int saved = expected;
    expected = id;
    c.trace("fire timer %zu (task #%d)\n", i, id);
    tm.t->FireNow();
    PBT_CHECK(c, runs[size_t(id)] == 1, "FireNow() ran task %d %d times", id, runs[size_t(id)]);
    PBT_CHECK(c, alive[size_t(id)] == 0, "task %d not released after FireNow()", id);
    expected = saved;
    check_flags("after fire");
  }

  void destroy(size_t i) {
    Timer& tm = timers[i];
    if (!tm.t) return;
    c.trace("destroy timer %zu\n", i);
    const int id = tm.running ? tm.task : -1;
    if (id >= 0) killed++;
    tm.running = false;
    tm.task = -1;
    auto t = std::move(tm.t);
    t.reset();
    if (id >= 0) PBT_CHECK(c, alive[size_t(id)] == 0, "task %d not released with its timer", id);
    check_flags("after destroy");
  }

  void body(int id, size_t me) {
    c.trace("{ task #%d of timer %zu runs at %lld\n", id, me, (long long)clock);
    if (expected < 0 && !polls.empty()) expected = next_in_poll();
    PBT_CHECK(c, expected == id, "task %d ran, expected %d", id, expected);
    PBT_CHECK(c, ++runs[size_t(id)] == 1, "task %d ran twice", id);
    expected = -1;
    check_flags("inside a task");
    stack.push_back(id);
    const size_t n = stack.size() > 4 ? 0 : c.weighted({4, 5, 3, 1});
    for (size_t k = 0; k < n; k++) {
      const size_t other = c.draw(timers.size());
      switch (c.weighted({4, 2, 2, 2, 2, 1, 1, 1})) {
        case 7: {
          // The tasks of a runner that isn't running tasks.
          const int r = int(c.draw(kRunners));
          bool busy = false;
          for (auto& p : polls) busy |= p.runner == r;
          if (!busy) { polls_from_tasks++; poll(r); }
          break;
        }
        case 0: self_restart++; start(me); break;
        case 1: self_destroy++; destroy(me); break;
        case 2: start(other); break;
        case 3: destroy(other); break;
        case 4: fire(other); break;
        case 5: manual_self++; start(me); fire(me); break;
        default: clock = std::min(saturating(clock, c.range(0, 6)), kMax - 1);
      }
    }
    stack.pop_back();
    c.trace("} task #%d\n", id);
  }

  // What the runner holds for a timer matters only for the latest start of a
  // living timer; earlier bodies of the same poll may change that.
  struct Poll { std::vector<Posted> batch; size_t batch_pos = 0; int runner; };
  std::vector<Poll> polls;  // the last one is the innermost
  int polls_from_tasks = 0;
  int next_in_poll() {
    auto& [batch, batch_pos, r] = polls.back();
    while (batch_pos < batch.size()) {
      const Posted& p = batch[batch_pos++];
      Timer& tm = timers[size_t(p.timer)];
      if (tm.t && tm.running && tm.gen == p.gen) {
        const int id = tm.task;
        tm.running = false;
        tm.task = -1;
        elapsed++;
        return id;
      }
    }
    return -1;
  }
  void poll(int r) {
    auto& q = posted[r];
    std::stable_sort(q.begin(), q.end(),
                     [](auto& a, auto& b) { return std::pair(a.due, a.seq) < std::pair(b.due, b.seq); });
    size_t n = 0;
    while (n < q.size() && q[n].due <= clock) n++;
    polls.push_back({{q.begin(), q.begin() + long(n)}, 0, r});
    q.erase(q.begin(), q.begin() + long(n));
    c.trace("poll runner %d at %lld\n", r, (long long)clock);
    runner[r]->RunPendingTasks();
    const int missed = next_in_poll();
    polls.pop_back();
    PBT_CHECK(c, missed < 0, "task %d did not run in the poll at %lld", missed, (long long)clock);
    check_flags("after poll");
    for (size_t id = 0; id < runs.size(); id++)
      if (runs[id] && std::find(stack.begin(), stack.end(), int(id)) == stack.end())
        PBT_CHECK(c, alive[id] == 0, "finished task %zu not released", id);
  }
};

}  // namespace

SCENARIO(history, 300000, 20000000, false,
         "random history of start, restart, FireNow, destruction, clock advance and poll over 1..4 timers and 2 "
         "polling runners, with the same operations issued from inside running tasks (own and other timers); "
         "compared with a reference timer; non-trivial: a task acted on a timer and at least one timer was replaced, "
         "fired or destroyed while running") {
  Sim s(c);
  s.clock = c.pick({int64_t(0), int64_t(5), int64_t(1) << 61, kMax - 50});
  for (auto& r : s.runner) r = std::make_unique<rst::PollingTaskRunner>([&s] { return ch::nanoseconds(s.clock); });
  const size_t nt = c.size(1, 4);
  s.timers.resize(nt);
  for (auto& t : s.timers)
    t.t = std::make_unique<rst::OneShotTimer>([&s]() -> rst::TaskRunner& { return *s.runner[s.current_runner]; });
  s.check_flags("initially");
  const size_t steps = c.size(1, 20);
  for (size_t k = 0; k < steps; k++) {
    const size_t i = c.draw(nt);
    switch (c.weighted({6, 2, 1, 3, 5})) {
      case 0: s.start(i); break;
      case 1: s.fire(i); break;
      case 2: s.destroy(i); break;
      case 3: s.clock = std::min(saturating(s.clock, c.range(0, 8)), kMax - 1); break;
      default: s.poll(int(c.draw(2)));
    }
  }
  // Let everything elapse that is still running.
  for (int k = 0; k < 60; k++) {
    int64_t m = kMax;
    for (auto& q : s.posted) for (auto& p : q) m = std::min(m, p.due);
    if (m == kMax) break;
    s.clock = std::max(s.clock, m);
    for (int r = 0; r < 2; r++) s.poll(r);
  }
  if (c.flip()) for (size_t i = 0; i < nt; i++) s.destroy(i);
  s.over = true;
  for (auto& r : s.runner) r.reset();
  s.timers.clear();
  for (size_t id = 0; id < s.runs.size(); id++) PBT_CHECK(c, s.alive[id] == 0, "task %zu not released", id);
  if (s.self_restart) c.label("own timer restarted");
  if (s.self_destroy) c.label("own timer destroyed");
  if (s.manual_self) c.label("own timer restarted and fired");
  if (s.on_release) c.label("acted on release");
  if (s.on_replaced) c.label("replaced task acted on release");
  if (s.polls_from_tasks) c.label("polls from tasks");
  if (s.fired) c.label("fired");
  if (s.elapsed) c.label("elapsed");
  if (s.killed) c.label("destroyed while running");
  if (s.replaced) c.label("replaced");
  if ((s.self_restart || s.self_destroy) && (s.replaced || s.fired || s.killed)) c.nontrivial();
}

SCENARIO(many_restarts, 3000, 30000, false,
         "1..70000 restarts of one timer, at and around powers of two, with nothing polled in between or with polls at "
         "which nothing is due; then time passes in steps up to the newest delay; non-trivial: 200 restarts or more") {
  int64_t clock = c.range(0, 1000);
  auto runner = std::make_unique<rst::PollingTaskRunner>([&] { return ch::nanoseconds(clock); });
  auto timer = std::make_unique<rst::OneShotTimer>([&]() -> rst::TaskRunner& { return *runner; });
  const size_t rounds = c.size(1, 3);
  for (size_t round = 0; round < rounds; round++) {
    size_t n;
    switch (c.weighted({4, 8, 4, 1})) {
      case 0: n = c.size(1, 40); break;
      case 1: n = 254 + c.draw(6); break;
      case 2: n = (size_t(1) << c.range(4, 12)) - 2 + c.draw(5); break;
      default: n = c.chance(1, 30) ? 65534 + c.draw(5) : 511 + c.draw(4);
    }
    if (n >= 200) c.nontrivial();
    const int64_t first = c.range(1, 20), last = first + c.range(1, 20);
    const bool poll = c.flip();
    std::vector<int> fired;
    c.trace("%zu starts, first delay %lld, then %lld%s\n", n, (long long)first, (long long)last, poll ? ", polls" : "");
    for (size_t i = 0; i < n; i++) {
      // The delays of earlier starts are over before that of the last one.
      timer->Start([&fired, i] { fired.push_back(int(i)); }, ch::nanoseconds(i + 1 == n ? last : first));
      if (poll && i % 64 == 0) runner->RunPendingTasks();
      PBT_CHECK(c, timer->IsRunning(), "not running after start %zu", i);
    }
    PBT_CHECK(c, fired.empty(), "start %d fired before any delay was over", fired[0]);
    switch (c.weighted({6, 1, 1})) {
      case 0: break;
      case 1:
        timer->FireNow();
        PBT_CHECK(c, fired.size() == 1 && fired[0] == int(n) - 1, "FireNow() did not run the newest task");
        PBT_CHECK(c, !timer->IsRunning(), "running after FireNow()");
        clock += last;
        runner->RunPendingTasks();
        PBT_CHECK(c, fired.size() == 1, "%zu tasks ran after FireNow()", fired.size() - 1);
        continue;
      default:
        timer = std::make_unique<rst::OneShotTimer>([&]() -> rst::TaskRunner& { return *runner; });
        clock += last;
        runner->RunPendingTasks();
        PBT_CHECK(c, fired.empty(), "start %d fired although its timer was destroyed", fired[0]);
        continue;
    }
    if (n > 1) {
      clock += first;
      runner->RunPendingTasks();
      PBT_CHECK(c, fired.empty(), "start %d of %zu ran after a delay of %lld, its delay is %lld", fired[0], n,
                (long long)first, (long long)last);
      PBT_CHECK(c, timer->IsRunning(), "not running although its delay is not over");
      clock += last - first - 1;
      runner->RunPendingTasks();
      PBT_CHECK(c, fired.empty(), "ran one tick early");
      clock += 1;
    } else {
      clock += last;
    }
    runner->RunPendingTasks();
    PBT_CHECK(c, fired.size() == 1 && fired[0] == int(n) - 1, "%zu tasks ran when the newest delay was over",
              fired.size());
    PBT_CHECK(c, !timer->IsRunning(), "running after its task ran");
  }
}

SCENARIO(many_starts, 150, 5000, false,
         "a timer started up to 70000 times, often about 2^8, 2^15 or 2^16 times, with generated delays, while the clock advances and the "
         "runner polls; only the last task of each round runs, when due; non-trivial: more than 250 starts in a round") {
  int64_t clock = 0;
  rst::PollingTaskRunner runner([&clock] { return ch::nanoseconds(clock); });
  rst::OneShotTimer timer([&runner]() -> rst::TaskRunner& { return runner; });
  const size_t rounds = c.size(1, 3);
  size_t ran = 0, last = 0;
  for (size_t r = 0; r < rounds; r++) {
    const size_t n = real::gen_amount(c);
    const int64_t span = int64_t(c.size(1, 40)), tail = int64_t(c.size(0, 3));
    const uint64_t salt = c.draw(1000);
    const bool now = c.chance(1, 4);
    c.trace("%zu starts with delays of 0..%lld, then %lld%s\n", n, (long long)span - 1, (long long)(span + tail), now ? ", fired by hand" : "");
    if (n > 250) c.nontrivial();
    const size_t before = ran;
    for (size_t i = 1; i <= n; i++) {
      const int64_t d = i == n ? span + tail : int64_t(pbt::hash64(i * 31 + salt) % uint64_t(span));
      timer.Start([&ran, &last, i] { ran++; last = i; }, ch::nanoseconds(d));
    }
    PBT_CHECK(c, timer.IsRunning(), "not running after %zu starts", n);
    if (now) timer.FireNow();
    for (int64_t t = 0; t <= span + tail; t++) {
      runner.RunPendingTasks();
      const bool want = now || t == span + tail;
      PBT_CHECK(c, ran - before == size_t(want), "after %zu starts %zu tasks ran %lld before the last was due (last start %zu)", n, ran - before, (long long)(span + tail - t), last);
      PBT_CHECK(c, !want || last == n, "the task of start %zu of %zu ran", last, n);
      PBT_CHECK(c, timer.IsRunning() == !want, "IsRunning()");
      clock++;
    }
  }
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of history; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_history(t);
  });
}
