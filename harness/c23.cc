// C23: the thread pool runs each task once, not early, in order, within its limit.
#include "pool_several.h"
#include "pool_sim.h"
#include "real_pool.h"

SCENARIO(histories, 40000, 2000000, false,
         "1..3 posting threads with generated immediate and delayed posts, pauses and nested posts from tasks on a pool of "
         "1..6 threads (any keep-alive time, exact, coarse, slow or fast pool clock), in a generated schedule with "
         "virtual time; log compared with the rules of the property, races reported by TSan; non-trivial: at least "
         "3 tasks, one delayed, and at least 4 thread switches per task") {
  PoolSim s(c);
  const size_t posters = c.weighted({4, 3, 2}) + 1;
  const bool mono = c.chance(1, 3);  // only one kind, for the order rules
  const bool mono_delayed = c.flip();
  det::run(c, [&] {
    s.create();
    auto poster = [&](size_t) {
      s.outsider();
      size_t n;
      { det::Hidden h; n = c.size(1, 8); }
      for (size_t i = 0; i < n; i++) {
        int what, action;
        int64_t d, pause;
        {
          det::Hidden h;
          what = mono ? (mono_delayed ? 1 : 0) : int(c.weighted({4, 4, 1}));
          action = int(c.weighted({4, 2, 2, 2, 2}));
          if (mono && action >= PoolSim::kPostChild) action = mono_delayed ? PoolSim::kPostDelayedChild : PoolSim::kPostChild;
          d = what == 2 ? PoolSim::kNever - int64_t(c.draw(3)) : s.gen_delay();
          pause = c.weighted({4, 1, 1}) == 0 ? 0 : c.flip() ? c.range(1, 1000) : s.keep < 2000000 ? s.keep + c.range(-3, 60) : 500;
        }
        s.post(0, what != 0, d, action, -1);
        if (pause > 0) det::sleep_ns(pause);
      }
    };
    std::vector<std::thread> th;
    for (size_t p = 1; p < posters; p++) th.emplace_back(poster, p);
    poster(0);
    for (auto& t : th) t.join();
    s.await_all();
    s.destroy();
  });
  size_t delayed = 0;
  for (auto& t : s.tasks) {
    PBT_CHECK(c, t.starts == (t.never ? 0 : 1), "task %d ran %d times", t.id, t.starts);
    delayed += t.delayed;
  }
  s.check_order();
  if (s.m == 1) c.label("one thread");
  if (s.nested) c.label("nested posts");
  if (s.high == s.m && s.m > 1) c.label("all threads busy at once");
  const auto st = det::stats();
  if (s.heirs) c.label("posts on release");
  if (st.timeouts) c.label("timeouts");
  if (st.spurious) c.label("spurious wake-ups");
  if (s.tasks.size() >= 3 && delayed && st.switches >= 4 * s.tasks.size()) c.nontrivial();
}

SCENARIO(several, 12000, 600000, false,
         "two or three pools at the same time, of sizes, keep-alive times and clocks of their own, with generated posts, pauses and posts "
         "from the tasks of one pool to another; each task runs once, not early, within its pool's limit and in its pool's order; non-trivial: tasks ran on at least two pools") {
  several_pools(c, false);
}

SCENARIO(many, 100, 4000, false,
         "real threads: up to 70000 immediate or delayed tasks, often around 2^8, 2^15 and 2^16, over 1 to 4 due times, "
         "queued on a pool of one (order) or several threads while they are held, with the clock set by the harness; each runs once, "
         "not early, within the limit and in order; non-trivial: more than 250 tasks") {
  const size_t n = real::gen_amount(c);
  const size_t m = c.flip() ? 1 : c.size(2, 6);
  const bool delayed = c.flip();
  const size_t dues = delayed ? c.size(1, 4) : 1;
  const uint64_t salt = c.draw(1000);
  c.trace("%zu %s tasks, %zu due times, %zu threads, salt %llu\n", n, delayed ? "delayed" : "immediate", dues, m, (unsigned long long)salt);
  if (n > 250) c.nontrivial();
  std::atomic<int64_t> clock{0};
  struct Rec { std::atomic<int> runs{0}; int64_t due = 0; size_t payload = 0; uint64_t pos = 0; int64_t at = 0; };
  std::vector<Rec> rec(n);
  std::atomic<uint64_t> pos{0};
  std::atomic<size_t> now{0}, high{0}, done{0}, bad{0};
  real::Latch go, all;
  const auto self = std::this_thread::get_id();
  {
    rst::ThreadPoolTaskRunner pool(m, [&clock] { return std::chrono::nanoseconds(clock.load()); }, std::chrono::seconds(2));
    for (size_t i = 0; i < m; i++) pool.PostTask([&] { go.wait(); });
    for (size_t i = 0; i < n; i++) {
      const int64_t d = int64_t(pbt::hash64(i * 1009 + salt) % dues) * 1000 + (delayed ? 1000 : 0);
      rec[i].due = d;
      rec[i].payload = i * 3 + 1;
      auto fn = [&, i] {
        const size_t in = ++now;
        size_t h = high.load();
        while (in > h && !high.compare_exchange_weak(h, in)) {}
        Rec& r = rec[i];
        r.runs++;
        r.pos = pos++;
        r.at = clock.load();
        if (r.payload != i * 3 + 1 || std::this_thread::get_id() == self) bad++;
        now--;
        if (++done == n) all.open();
      };
      if (delayed) pool.PostDelayedTask(std::move(fn), std::chrono::nanoseconds(d));
      else pool.PostTask(std::move(fn));
    }
    clock = 4000;
    go.open();
    all.wait();
  }
  PBT_CHECK(c, bad == 0, "%zu tasks on the wrong thread or without the data written before posting", bad.load());
  PBT_CHECK(c, high <= m, "%zu tasks at once on a pool of %zu", high.load(), m);
  std::vector<size_t> order(n, n);
  for (size_t i = 0; i < n; i++) {
    PBT_CHECK(c, rec[i].runs == 1, "task %zu of %zu ran %d times", i, n, rec[i].runs.load());
    PBT_CHECK(c, rec[i].at >= rec[i].due, "task %zu ran early", i);
    order[rec[i].pos] = i;
  }
  // All were posted, and due, before the only thread was free.
  if (m == 1)
    for (size_t k = 1; k < n; k++) {
      auto &a = rec[order[k - 1]], &b = rec[order[k]];
      PBT_CHECK(c, a.due < b.due || (a.due == b.due && order[k - 1] < order[k]), "task %zu due %lld ran before task %zu due %lld of %zu",
                order[k - 1], (long long)a.due, order[k], (long long)b.due, n);
    }
}
