// C24: the thread pool never strands a runnable task.
#include "pool_several.h"
#include "pool_sim.h"
#include "real_pool.h"

SCENARIO(progress, 40000, 2000000, false,
         "rounds of posts from 1..2 threads: rendezvous groups of tasks that wait for each other, tasks that wait for a "
         "task they post, tasks held at a gate, fillers, tasks due in centuries, with blocked tasks never reaching the pool size; pauses "
         "landing around the keep-alive time; a schedule in which every thread is blocked with tasks left fails; "
         "non-trivial: some task really waited for another, or a worker expired between posts") {
  PoolSim s(c);
  const size_t rounds = c.size(1, 4);
  bool paused = false;
  det::run(c, [&] {
    s.create();
    size_t reserved = 0;  // threads that may be held by blocked tasks
    std::vector<std::thread> helpers;
    for (size_t r = 0; r < rounds; r++) {
      {
        bool settle;
        int64_t pause;
        {
          det::Hidden h;
          settle = reserved >= s.m || c.flip();
          pause = c.weighted({2, 3, 1}) == 0 ? 0
                  : s.keep < 2000000 && c.chance(2, 3) ? s.keep + c.range(-4, 40) : c.range(1, 3000);
          paused |= pause != 0;
        }
        if (settle) {
          { det::Hidden h; s.gate = true; }
          s.await_all();
          det::Hidden h;
          s.gate = false;
          reserved = 0;
        }
        if (pause > 0) det::sleep_ns(pause);
      }
      struct Spec { int action; bool delayed; int64_t delay; int group; };
      std::vector<Spec> specs;
      bool two;
      {
        det::Hidden h;
        const size_t left = s.m - reserved;
        const int fillers = int(c.weighted({2, 3, 2, 1}));
        // At most |left| tasks that can be blocked at the same time.
        if (left >= 1) {
          switch (c.weighted({5, 2, 2})) {
            case 0: {
              const size_t k = left - c.draw(left);  // mostly the full size
              const int g = int(s.group_size.size());
              s.group_size.push_back(int(k));
              s.group_in.push_back(0);
              for (size_t i = 0; i < k; i++)
                specs.push_back({PoolSim::kMeet, c.chance(1, 4), c.range(1, 500), g});
              reserved += k;
              break;
            }
            case 1:
              if (left >= 2) {
                for (size_t i = 0; i + 2 <= left && i < 2; i++) {
                  // Each holds a thread and needs one more for its child.
                  specs.push_back({PoolSim::kWaitChild, c.chance(1, 4), c.range(1, 500), -1});
                  reserved += 2;
                  if (reserved + 2 > s.m) break;
                }
              }
              break;
            default:
              for (size_t i = 0; i + 1 < left; i++) {
                specs.push_back({PoolSim::kWaitGate, c.chance(1, 4), c.range(1, 500), -1});
                reserved += 1;
              }
          }
        }
        for (int i = 0; i < fillers; i++) {
          Spec f{int(c.weighted({3, 2, 2, 1, 1})), c.chance(1, 3), c.range(1, 500), -1};
          specs.insert(specs.begin() + long(c.draw(specs.size() + 1)), f);
        }
        // Not due within the life of the pool; nothing must wait for it.
        if (c.chance(1, 4))
          specs.insert(specs.begin() + long(c.draw(specs.size() + 1)),
                       Spec{PoolSim::kNothing, true, PoolSim::kNever - c.range(0, 1000), -1});
        two = c.chance(1, 3);
        s.budget += 10;
      }
      auto go = [&s](const std::vector<Spec>& v, size_t from, size_t step) {
        for (size_t i = from; i < v.size(); i += step) s.post(0, v[i].delayed, v[i].delay, v[i].action, v[i].group);
      };
      if (two) {
        std::thread t([&] { s.outsider(); go(specs, 1, 2); });
        go(specs, 0, 2);
        t.join();
      } else {
        go(specs, 0, 1);
      }
    }
    { det::Hidden h; s.gate = true; }
    s.await_all();
    s.destroy();
  });
  for (auto& t : s.tasks) PBT_CHECK(c, t.starts == (t.never ? 0 : 1), "task %d ran %d times", t.id, t.starts);
  const auto st = det::stats();
  if (s.blocked_tasks) c.label("tasks waited for each other");
  if (s.heirs) c.label("posts on release");
  if (st.timeouts) c.label("timeouts");
  if (s.high == s.m && s.m > 1) c.label("all threads busy at once");
  if (paused) c.label("pauses");
  if (s.blocked_tasks || (paused && st.timeouts)) c.nontrivial();
}

SCENARIO(several, 12000, 600000, false,
         "two or three pools at the same time, of sizes, keep-alive times and clocks of their own, with generated posts, pauses and posts "
         "from the tasks of one pool to another; also groups of tasks as large as a pool that wait for each other; a schedule in which every thread is blocked with tasks left fails; non-trivial: tasks ran on at least two pools") {
  several_pools(c, false);
}

SCENARIO(wide, 60, 3000, false,
         "real threads: pools of up to 300 threads, often around 2^8, whose tasks, immediate or delayed, all wait for each other, in several "
         "rounds with pauses around the keep-alive time and bursts of other tasks between; non-trivial: more than 16 threads") {
  const size_t m = c.weighted({3, 2, 2}) == 0 ? c.size(1, 12) : c.flip() ? c.size(13, 300) : 253 + c.draw(6);
  const size_t rounds = c.size(1, 3);
  const int64_t keep = c.pick({int64_t(2000000000), int64_t(1000000), int64_t(1)});
  c.trace("%zu threads, %zu rounds, keep-alive %lld\n", m, rounds, (long long)keep);
  if (m > 16) c.nontrivial();
  std::mutex mu;
  std::condition_variable cv;
  size_t in = 0, out = 0, want_out = 0, fill = 0, want_fill = 0;
  bool late = false;
  {
    rst::ThreadPoolTaskRunner pool(m, [] { return std::chrono::steady_clock::now().time_since_epoch(); }, std::chrono::nanoseconds(keep));
    for (size_t r = 0; r < rounds && !late; r++) {
      const size_t k = m - (c.flip() ? c.draw(m) : 0);
      const size_t target = in + k;
      const bool delayed = c.chance(1, 3);
      const size_t fillers = c.flip() ? 0 : c.size(1, 600);
      c.trace("round of %zu %s tasks after %zu others\n", k, delayed ? "delayed" : "immediate", fillers);
      for (size_t i = 0; i < fillers; i++) { want_fill++; pool.PostTask([&] { std::lock_guard l(mu); fill++; cv.notify_all(); }); }
      for (size_t i = 0; i < k; i++) {
        auto fn = [&, target] {
          std::unique_lock l(mu);
          in++;
          cv.notify_all();
          cv.wait(l, [&] { return in >= target || late; });
          out++;
          cv.notify_all();
        };
        if (delayed) pool.PostDelayedTask(std::move(fn), std::chrono::microseconds(i % 3 * 300));
        else pool.PostTask(std::move(fn));
      }
      want_out += k;
      {
        std::unique_lock l(mu);
        late = !cv.wait_for(l, std::chrono::seconds(20), [&] { return out == want_out && fill == want_fill; });
        if (late) { c.trace("%zu of %zu met, %zu ended, %zu of %zu others ran\n", in, target, out, fill, want_fill); cv.notify_all(); break; }
      }
      if (c.flip()) std::this_thread::sleep_for(std::chrono::microseconds(c.draw(2500)));
    }
  }
  PBT_CHECK(c, !late, "tasks that wait for each other on a pool of %zu did not all run in 20 s: %zu ended of %zu", m, out, want_out);
}
