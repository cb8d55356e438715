// C26: destroying a thread pool.
#include "pool_several.h"
#include "pool_sim.h"
#include "real_pool.h"

SCENARIO(destruction, 40000, 2000000, false,
         "a pool with generated idle, expiring, starting and busy workers, queued and delayed tasks (near, far, never "
         "due) is destroyed at a generated point while its tasks post more tasks; the destructor must return, after "
         "every running task, with every task released once and none run later, without touching freed memory; "
         "non-trivial: tasks were running, queued or delayed when the destructor was called") {
  PoolSim s(c);
  size_t running = 0, waiting = 0;
  size_t posted_late = 0;
  det::run(c, [&] {
    s.create();
    size_t n;
    { det::Hidden h; n = c.size(0, 8); }
    for (size_t i = 0; i < n; i++) {
      bool delayed;
      int action;
      int64_t d, pause;
      {
        det::Hidden h;
        delayed = c.chance(2, 5);
        action = int(c.weighted({3, 2, 3, 3, 3}));
        d = c.chance(1, 4) ? PoolSim::kNever - int64_t(c.draw(3)) : c.chance(1, 4) ? 1000000000000 : s.gen_delay();
        pause = c.weighted({3, 2}) == 0 ? 0 : s.keep < 2000000 && c.flip() ? s.keep + c.range(-4, 40) : c.range(1, 2000);
      }
      s.post(0, delayed, d, action, -1);
      if (pause > 0) det::sleep_ns(pause);
    }
    bool drain;
    int64_t pause;
    {
      det::Hidden h;
      drain = c.chance(1, 5);
      pause = c.weighted({3, 2}) == 0 ? 0 : s.keep < 2000000 && c.flip() ? s.keep + c.range(-4, 40) : c.range(1, 2000);
    }
    if (drain) s.await_all();
    if (pause > 0) det::sleep_ns(pause);
    size_t before;
    {
      det::Hidden h;
      running = s.running;
      for (auto& t : s.tasks) waiting += t.starts == 0;
      before = s.tasks.size();
    }
    s.destroy();
    posted_late = s.tasks.size() - before;
  });
  for (auto& t : s.tasks) {
    PBT_CHECK(c, t.starts <= 1, "task %d ran %d times", t.id, t.starts);
    PBT_CHECK(c, !(t.never && t.starts), "task %d ran though never due", t.id);
  }
  if (running) c.label("tasks running");
  if (waiting) c.label("tasks waiting");
  if (posted_late) c.label("tasks posted during destruction");
  if (s.heirs) c.label("posts on release");
  if (det::stats().timeouts) c.label("timeouts");
  if (s.tasks.empty()) c.label("no tasks");
  if (running || waiting) c.nontrivial();
}

SCENARIO(several, 12000, 600000, false,
         "two or three pools at the same time, of sizes, keep-alive times and clocks of their own, with generated posts, pauses and posts "
         "from the tasks of one pool to another; destroyed one after the other with tasks left while the others go on; non-trivial: tasks ran on at least two pools and a pool was destroyed with tasks left") {
  several_pools(c, true);
}

SCENARIO(many, 100, 4000, false,
         "real threads: a pool of up to 64 threads is destroyed with up to 70000 tasks queued or delayed, some of them running, "
         "some done; the destructor returns, every task is released once, none runs twice or later; "
         "non-trivial: more than 250 tasks") {
  const size_t n = real::gen_amount(c);
  const size_t m = c.weighted({3, 1}) == 0 ? c.size(1, 6) : c.size(7, 64);
  const size_t busy = c.size(0, m);
  const uint64_t salt = c.draw(1000);
  const int kind = int(c.draw(3));
  const int64_t pause = c.flip() ? 0 : int64_t(c.draw(3000));
  c.trace("%zu tasks, %zu threads, %zu busy, %s, pause %lld us\n", n, m, busy, kind == 0 ? "immediate" : kind == 1 ? "delayed" : "both", (long long)pause);
  if (n > 250) c.nontrivial();
  std::vector<std::atomic<int>> runs(n);
  std::atomic<bool> dead{false};
  std::atomic<size_t> late{0}, busy_ended{0}, busy_began{0};
  auto token = std::make_shared<int>(1);
  real::Latch go;
  std::thread opener;
  {
    rst::ThreadPoolTaskRunner pool(m, [] { return std::chrono::steady_clock::now().time_since_epoch(); }, std::chrono::seconds(2));
    for (size_t i = 0; i < busy; i++) pool.PostTask([&] { busy_began++; go.wait(); busy_ended++; });
    for (size_t i = 0; i < n; i++) {
      auto fn = [&, i, token] { if (dead) late++; runs[i]++; };
      const uint64_t x = pbt::hash64(i * 1009 + salt);
      if (kind == 0 || (kind == 2 && x % 2)) pool.PostTask(std::move(fn));
      else pool.PostDelayedTask(std::move(fn), x % 5 == 0 ? std::chrono::nanoseconds::max() : std::chrono::nanoseconds(x % 2000000));
    }
    if (pause) std::this_thread::sleep_for(std::chrono::microseconds(pause));
    opener = std::thread([&go, pause] { if (pause % 2) std::this_thread::sleep_for(std::chrono::microseconds(500)); go.open(); });
  }
  dead = true;
  const size_t began = busy_began, ended = busy_ended;
  const long held = token.use_count() - 1;
  opener.join();
  PBT_CHECK(c, began == ended, "the destructor returned with %zu tasks running", began - ended);
  PBT_CHECK(c, held == 0, "%ld tasks not released when the destructor returned", held);
  for (size_t i = 0; i < n; i++) PBT_CHECK(c, runs[i] <= 1, "task %zu ran %d times", i, runs[i].load());
  PBT_CHECK(c, late == 0, "%zu tasks ran after the destructor", late.load());
}
