// Generated histories on a thread pool under the deterministic scheduler.
#ifndef VERIF_LIB_POOL_SIM_H_
#define VERIF_LIB_POOL_SIM_H_

#include <algorithm>
#include <chrono>
#include <deque>
#include <limits>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "detsched.h"
#include "pbt.h"
#include "rst/task_runner/thread_pool_task_runner.h"

struct PoolSim {
  static constexpr int64_t kNever = std::numeric_limits<int64_t>::max();
  struct Task {
    int id, depth;
    bool delayed, never;
    int64_t delay;
    int64_t begin_clock, end_clock;  // pool clock around the posting call
    uint64_t begin_ev, end_ev;       // event numbers around the posting call
    uint64_t start_ev;
    int64_t start_clock;
    int starts, ends, live;
    int group;    // rendezvous group or -1
    int action;   // what the body does
    bool heir = false;  // its state posts a task when it is released after running
  };
  enum Action { kNothing, kPoint, kSleep, kPostChild, kPostDelayedChild, kMeet, kWaitChild, kWaitGate };

  explicit PoolSim(pbt::Ctx& c) : c(c) {
    m = c.pick({size_t(1), size_t(2), size_t(3), size_t(4), size_t(1), size_t(6)});
    keep = c.pick({int64_t(1000), int64_t(1), int64_t(100), int64_t(20000), int64_t(1000000), int64_t(1000000000),
                   kNever, kNever - 5});
    clock_mode = int(c.weighted({4, 2, 1, 1}));
    quantum = c.pick({int64_t(100), int64_t(1000), int64_t(10)});
    c.trace("pool of %zu, keep-alive %lld, clock mode %d quantum %lld\n", m, (long long)keep, clock_mode,
            (long long)quantum);
    payload.assign(kMaxTasks, 0);
    result.assign(kMaxTasks, 0);
  }

  pbt::Ctx& c;
  size_t m;
  int64_t keep;
  int clock_mode;
  int64_t quantum;
  rst::ThreadPoolTaskRunner* pool = nullptr;
  static constexpr size_t kMaxTasks = 200;
  std::deque<Task> tasks;
  std::vector<int> payload, result;  // plain data, per task
  std::vector<int> group_size, group_in;
  std::vector<int> outsiders;        // harness threads
  std::vector<PoolSim*> peers;       // pools that outlive this one
  int crossed = 0;                   // tasks posted to them
  uint64_t events = 0;
  size_t running = 0, high = 0, finished = 0, due_tasks = 0;
  bool dead = false;                 // the destructor has returned
  bool dying = false;                // the destructor has been called
  bool gate = false;
  int budget = 40;
  size_t promises = 0;               // tasks that others will post on release
  int nested = 0, blocked_tasks = 0, expiries = 0, heirs = 0;

  int64_t clock_now() const {
    const int64_t t = det::now_ns();
    switch (clock_mode) {
      case 1: return t / quantum * quantum;
      case 2: return t / 2;
      case 3: return t * 2;
      default: return t;
    }
  }

  void create() {
    det::on_stuck([this] { return describe(); });
    outsider();
    pool = new rst::ThreadPoolTaskRunner(m, [this] { return std::chrono::nanoseconds(clock_now()); },
                                         std::chrono::nanoseconds(keep));
  }
  void outsider() {
    det::Hidden h;
    outsiders.push_back(det::self());
  }

  std::string describe() const {
    std::string s = pbt::strf("tasks of pool(%zu) not finished:", m);
    for (auto& t : tasks)
      if (t.ends == 0 && !t.never)
        s += pbt::strf(" #%d(%s%s)", t.id, t.starts ? "started" : "not started", t.delayed ? ", delayed" : "");
    return s;
  }

  struct Tok {
    PoolSim* s; int id;
    Tok(PoolSim* s, int id) : s(s), id(id) { det::Hidden h; s->tasks[size_t(id)].live++; }
    ~Tok() {
      bool heir;
      int depth;
      {
        det::Hidden h;
        PBT_CHECK(s->c, !s->dead, "task %d released after the pool's destructor returned", id);
        Task& t = s->tasks[size_t(id)];
        t.live--;
        heir = t.heir && t.ends > 0;
        depth = t.depth;
        if (heir) s->heirs++;
      }
      if (heir) s->post(depth + 1, s->heirs % 3 == 0, 1 + s->heirs * 7, kPoint, -1, true);
    }
  };

  // Posts a task; returns its number or -1.
  int post(int depth, bool delayed, int64_t delay, int action, int group, bool promised = false) {
    int id;
    {
      det::Hidden h;
      if (!promised && (budget <= 0 || tasks.size() + promises >= kMaxTasks)) return -1;
      if (promised) promises--;
      else budget--;
      id = int(tasks.size());
      const bool never = delayed && delay > kNever / 4;
      tasks.push_back(Task{id, depth, delayed, never, delay, 0, 0, 0, 0, 0, 0, 0, 0, 0, group, action});
      if (!never && !promised) due_tasks++;
      // Its state will post one more task when the pool lets go of it.
      if (!never && !promised && c.chance(1, 6)) {
        tasks.back().heir = true;
        promises++;
        due_tasks++;
      }
      c.trace("[%d] post #%d%s%s action %d group %d at %lld\n", det::self(), id, tasks.back().heir ? " with an heir" : "",
              delayed ? pbt::strf(" delay %lld", (long long)delay).c_str() : "", action, group, (long long)clock_now());
    }
    payload[size_t(id)] = id + 1000;
    auto tok = std::make_shared<Tok>(this, id);
    std::function<void()> fn = [this, tok] { body(tok->id); };
    tok.reset();
    {
      det::Hidden h;
      tasks[size_t(id)].begin_clock = clock_now();
      tasks[size_t(id)].begin_ev = ++events;
    }
    if (delayed) pool->PostDelayedTask(std::move(fn), std::chrono::nanoseconds(delay));
    else pool->PostTask(std::move(fn));
    {
      det::Hidden h;
      tasks[size_t(id)].end_clock = clock_now();
      tasks[size_t(id)].end_ev = ++events;
    }
    return id;
  }

  int64_t gen_delay() {
    switch (c.weighted({5, 3, 2})) {
      case 0: return c.range(1, 400);
      case 1: return 100 * c.range(1, 6);
      default: return c.range(1, 50000);
    }
  }

  void body(int id) {
    int action, depth, group;
    {
      det::Hidden h;
      Task& t = tasks[size_t(id)];
      t.start_clock = clock_now();
      t.start_ev = ++events;
      c.trace("[%d] #%d starts at %lld\n", det::self(), id, (long long)t.start_clock);
      PBT_CHECK(c, ++t.starts == 1, "task %d started %d times", id, t.starts);
      PBT_CHECK(c, !dead, "task %d ran after the pool's destructor returned", id);
      PBT_CHECK(c, det::self() >= 0, "task %d runs on an unknown thread", id);
      for (int o : outsiders)
        PBT_CHECK(c, o != det::self(), "task %d ran on thread %d, which is not of the pool", id, o);
      if (t.delayed) {
        int64_t due;
        const bool over = __builtin_add_overflow(t.begin_clock, t.delay, &due);
        PBT_CHECK(c, !over && t.start_clock >= due, "task %d posted at %lld with delay %lld ran early, at %lld", id,
                  (long long)t.begin_clock, (long long)t.delay, (long long)t.start_clock);
      }
      running++;
      high = std::max(high, running);
      PBT_CHECK(c, running <= m, "%zu tasks run at the same time on a pool of %zu", running, m);
      action = t.action;
      depth = t.depth;
      group = t.group;
    }
    if (payload[size_t(id)] != id + 1000) c.fail("data written before posting task %d is not visible to it", id);
    switch (action) {
      case kNothing: break;
      case kPoint: det::point(); break;
      case kSleep: {
        int64_t d;
        { det::Hidden h; d = c.range(1, 3000); }
        det::sleep_ns(d);
        break;
      }
      case kPostChild: case kPostDelayedChild: {
        size_t n;
        { det::Hidden h; n = c.size(1, 2); nested++; }
        for (size_t i = 0; i < n; i++) {
          int64_t d;
          int a;
          PoolSim* on = this;
          {
            det::Hidden h;
            d = gen_delay();
            a = depth < 3 ? int(c.weighted({3, 2, 2, 2, 2})) : 0;
            if (!peers.empty() && c.flip()) {
              on = peers[c.draw(peers.size())];
              crossed++;
            }
          }
          on->post(depth + 1, action == kPostDelayedChild, d, a, -1);
        }
        break;
      }
      case kMeet: {
        {
          det::Hidden h;
          group_in[size_t(group)]++;
          blocked_tasks += group_in[size_t(group)] < group_size[size_t(group)];
        }
        det::await([this, group] { return group_in[size_t(group)] >= group_size[size_t(group)]; },
                   "the other tasks of its group");
        break;
      }
      case kWaitChild: {
        int64_t d;
        bool del;
        { det::Hidden h; del = c.chance(1, 3); d = c.range(1, 2000); blocked_tasks++; }
        const int child = post(depth + 1, del, d, kPoint, -1);
        if (child >= 0)
          det::await([this, child] { return tasks[size_t(child)].ends > 0; }, "the task it posted");
        break;
      }
      case kWaitGate:
        det::await([this] { return gate; }, "the gate");
        break;
    }
    result[size_t(id)] = id + 2000;
    {
      det::Hidden h;
      Task& t = tasks[size_t(id)];
      t.ends++;
      finished++;
      running--;
      ++events;
      c.trace("[%d] #%d ends\n", det::self(), id);
      PBT_CHECK(c, !dead, "task %d still ran when the pool's destructor returned", id);
    }
  }

  void await_all() {
    det::await([this] { return finished >= due_tasks; }, "all tasks to run");
  }

  void destroy() {
    { det::Hidden h; dying = true; c.trace("[%d] destroy the pool, %zu running\n", det::self(), running); }
    delete pool;
    {
      det::Hidden h;
      c.trace("[%d] pool destroyed\n", det::self());
      pool = nullptr;
      PBT_CHECK(c, running == 0, "the pool's destructor returned while %zu tasks run", running);
      for (auto& t : tasks) {
        PBT_CHECK(c, t.live == 0, "task %d (%s) not released by the pool's destructor", t.id,
                  t.starts ? "run" : "not run");
        PBT_CHECK(c, t.starts == t.ends, "task %d interrupted", t.id);
      }
      dead = true;
    }
    for (auto& t : tasks)
      if (t.ends && result[size_t(t.id)] != t.id + 2000) c.fail("effects of task %d not visible after destruction", t.id);
  }

  // Order on a pool of one thread.
  void check_order() {
    if (m != 1) return;
    for (auto& a : tasks) {
      for (auto& b : tasks) {
        if (&a == &b || a.delayed != b.delayed || !a.starts || !b.starts) continue;
        bool before;
        if (!a.delayed) {
          before = a.end_ev < b.begin_ev;
        } else {
          const int64_t a_max = a.end_clock + a.delay, a_min = a.begin_clock + a.delay;
          const int64_t b_min = b.begin_clock + b.delay, b_max = b.end_clock + b.delay;
          if (a.end_clock >= b_min) continue;
          before = a_max < b_min || (a_max == a_min && b_max == b_min && a_max == b_min && a.end_ev < b.begin_ev);
        }
        if (before)
          PBT_CHECK(c, a.start_ev < b.start_ev, "%s task %d ran before task %d, which %s", a.delayed ? "delayed" : "immediate",
                    b.id, a.id, a.delayed ? "is due before it" : "was posted before it");
      }
    }
  }
};

#endif
