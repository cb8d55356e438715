// C25: synchronous apply.
#include <atomic>

#include "pool_sim.h"
#include "real_pool.h"
#include "rst/task_runner/polling_task_runner.h"

namespace {

struct Apply {
  PoolSim& s;
  pbt::Ctx& c;
  int live = 0;
  int applies = 0, nested = 0;

  struct Tok {
    Apply* a;
    explicit Tok(Apply* a) : a(a) { det::Hidden h; a->live++; }
    ~Tok() { det::Hidden h; a->live--; }
  };

  void apply(rst::TaskRunner& runner, size_t n, int kind) {
    struct State {
      std::vector<int> data;  // plain, one per index
      std::vector<int> begun, ended;
      bool returned = false;
      size_t done = 0;
    };
    auto st = std::make_shared<State>();
    int number;
    {
      det::Hidden h;
      number = ++applies;
      st->data.assign(n, 0);
      st->begun.assign(n, 0);
      st->ended.assign(n, 0);
      c.trace("[%d] apply %d over %zu begins\n", det::self(), number, n);
    }
    State* p = st.get();
    int before = 41;  // written before, read by every call
    auto tok = std::make_shared<Tok>(this);
    std::function<void(size_t)> fn = [this, p, n, number, kind, tok, &before](size_t i) {
      {
        det::Hidden h;
        c.trace("[%d] apply %d index %zu\n", det::self(), number, i);
        PBT_CHECK(c, i < n, "apply %d over %zu called with index %zu", number, n, i);
        PBT_CHECK(c, ++p->begun[i] == 1, "apply %d called twice with index %zu", number, i);
        PBT_CHECK(c, !p->returned, "apply %d called with index %zu after it returned", number, i);
      }
      if (before != 41) c.fail("data written before apply %d is not visible to index %zu", number, i);
      p->data[i] = int(i) + 7;
      if (kind == 1) det::point();
      if (kind == 2) det::sleep_ns(int64_t(i % 3) * 70);
      det::Hidden h;
      PBT_CHECK(c, !p->returned, "apply %d returned before index %zu ended", number, i);
      p->ended[i]++;
      p->done++;
    };
    tok.reset();
    runner.ApplyTaskSync(std::move(fn), n);
    {
      det::Hidden h;
      c.trace("[%d] apply %d returned\n", det::self(), number);
      st->returned = true;
      PBT_CHECK(c, st->done == n, "apply %d returned after %zu of %zu calls", number, st->done, n);
    }
    for (size_t i = 0; i < n; i++)
      if (st->data[i] != int(i) + 7) c.fail("effect of index %zu not visible after apply %d", i, number);
    before = 0;  // a racing reader is reported by TSan
    det::Hidden h;
    keep.push_back(st);  // late calls would still be noticed
  }
  std::vector<std::shared_ptr<void>> keep;
  bool large = false;

  size_t gen_n() {
    det::Hidden h;
    if (large) {
      switch (c.weighted({3, 3, 1})) {
        case 0: return (size_t(1) << c.range(5, 10)) - 1 + c.draw(4);
        case 1: return c.size(50, 300);
        default: return c.size(300, 2500);
      }
    }
    return c.weighted({6, 1}) == 0 ? c.size(1, 9) : c.size(10, 40);
  }
};

}  // namespace

SCENARIO(pool, 30000, 2000000, false,
         "1..3 threads and pool tasks (never as many as there are threads) apply tasks over 1..40 iterations on one "
         "pool of 1..6 threads, mixed with immediate and delayed tasks; indices, calls before the return, visibility "
         "both ways, stuck schedules; non-trivial: two applies overlapped or one was nested, and an apply of at least "
         "2 iterations") {
  PoolSim s(c);
  Apply a{s, c};
  const size_t callers = c.weighted({3, 3, 2}) + 1;
  size_t max_n = 0;
  det::run(c, [&] {
    s.create();
    auto caller = [&](size_t who) {
      s.outsider();
      size_t rounds;
      { det::Hidden h; rounds = c.size(1, 3); }
      for (size_t r = 0; r < rounds; r++) {
        int what, kind, action;
        int64_t d;
        {
          det::Hidden h;
          what = int(c.weighted({5, 2, 2, 2}));
          kind = int(c.draw(3));
          action = int(c.weighted({3, 2, 2, 1, 1}));
          d = s.gen_delay();
        }
        const size_t n = a.gen_n();
        if (what == 0 || (what == 3 && (who != 0 || s.m < 2))) {
          { det::Hidden h; max_n = std::max(max_n, n); }
          a.apply(*s.pool, n, kind);
        } else if (what == 1) {
          s.post(0, false, 0, action, -1);
        } else if (what == 2) {
          s.post(0, true, d, action, -1);
        } else {
          // From inside a task; only one at a time, so a thread remains.
          auto done = std::make_shared<std::atomic<bool>>(false);
          {
            det::Hidden h;
            a.nested++;
            max_n = std::max(max_n, n);
          }
          s.pool->PostTask([&, n, kind, done] {
            a.apply(*s.pool, n, kind);
            done->store(true);
          });
          det::await([done] { return done->load(); }, "the apply inside a task");
        }
      }
    };
    std::vector<std::thread> th;
    for (size_t p = 1; p < callers; p++) th.emplace_back(caller, p);
    caller(0);
    for (auto& t : th) t.join();
    s.await_all();
    s.destroy();
    det::Hidden h;
    PBT_CHECK(c, a.live == 0, "%d applied tasks not released", a.live);
  });
  if (a.nested) c.label("apply inside a task");
  if (callers > 1) c.label("concurrent callers");
  if ((a.nested || (callers > 1 && a.applies > 1)) && max_n >= 2) c.nontrivial();
}

SCENARIO(large, 600, 30000, false,
         "one thread, or two at a time, apply tasks over 31..2500 iterations, in particular around powers of two, on a "
         "pool of 1..6 threads or on a polling runner driven by another thread; same rules; non-trivial: more than 100 "
         "iterations") {
  PoolSim s(c);
  Apply a{s, c};
  a.large = true;
  const size_t callers = c.chance(1, 4) ? 2 : 1;
  const bool polling = c.chance(1, 4);
  size_t max_n = 0;
  bool stop = false;
  det::run(c, [&] {
    s.create();
    rst::PollingTaskRunner runner([&s] { return std::chrono::nanoseconds(s.clock_now()); });
    std::thread driver;
    if (polling)
      driver = std::thread([&] {
        s.outsider();
        while (true) {
          { det::Hidden h; if (stop) break; }
          runner.RunPendingTasks();
          det::sleep_ns(50);
        }
      });
    auto caller = [&] {
      s.outsider();
      const size_t n = a.gen_n();
      { det::Hidden h; max_n = std::max(max_n, n); }
      if (polling) a.apply(runner, n, 0);
      else a.apply(*s.pool, n, 0);
    };
    std::vector<std::thread> th;
    for (size_t p = 1; p < callers; p++) th.emplace_back(caller);
    caller();
    for (auto& t : th) t.join();
    { det::Hidden h; stop = true; }
    if (polling) driver.join();
    s.destroy();
    det::Hidden h;
    PBT_CHECK(c, a.live == 0, "%d applied tasks not released", a.live);
  });
  if (max_n > 100) c.nontrivial();
}

SCENARIO(polling, 15000, 1000000, false,
         "1..3 threads apply tasks over 1..40 iterations on a polling runner driven by another thread and post other "
         "tasks; same rules; non-trivial: at least two applies, one over at least 2 iterations") {
  PoolSim s(c);
  Apply a{s, c};
  const size_t callers = c.weighted({3, 3, 2}) + 1;
  size_t max_n = 0, posted = 0, ran = 0;
  bool stop = false;
  det::run(c, [&] {
    rst::PollingTaskRunner runner([&s] { return std::chrono::nanoseconds(s.clock_now()); });
    auto caller = [&](size_t) {
      size_t rounds;
      { det::Hidden h; rounds = c.size(1, 3); }
      for (size_t r = 0; r < rounds; r++) {
        int what, kind;
        int64_t d;
        { det::Hidden h; what = int(c.weighted({5, 2})); kind = int(c.draw(3)); d = c.range(0, 300); }
        const size_t n = a.gen_n();
        if (what == 0) {
          { det::Hidden h; max_n = std::max(max_n, n); }
          a.apply(runner, n, kind);
        } else {
          { det::Hidden h; posted++; }
          runner.PostDelayedTask([&ran] { det::Hidden h; ran++; }, std::chrono::nanoseconds(d));
        }
      }
    };
    std::thread driver([&] {
      while (true) {
        { det::Hidden h; if (stop) break; }
        runner.RunPendingTasks();
        det::sleep_ns(50);
      }
    });
    std::vector<std::thread> th;
    for (size_t p = 0; p < callers; p++) th.emplace_back(caller, p);
    for (auto& t : th) t.join();
    det::await([&] { return ran == posted; }, "the other tasks");
    { det::Hidden h; stop = true; }
    driver.join();
    det::Hidden h;
    PBT_CHECK(c, a.live == 0, "%d applied tasks not released", a.live);
  });
  if (callers > 1) c.label("concurrent callers");
  if (a.applies >= 2 && max_n >= 2) c.nontrivial();
}

SCENARIO(huge, 100, 4000, false,
         "real threads: applies over up to 70000 iterations, often around 2^8, 2^15 and 2^16, by 1..2 callers on a pool of 1..6 "
         "threads or a polling runner driven by another thread; each index once, none after the return, effects visible; "
         "non-trivial: more than 250 iterations") {
  const size_t m = c.size(1, 6), callers = c.chance(1, 4) ? 2 : 1;
  const bool polling = c.chance(1, 3);
  size_t n[2] = {real::gen_amount(c), callers == 2 ? c.size(1, 2000) : 0};
  c.trace("%zu callers, %zu and %zu iterations, %s of %zu\n", callers, n[0], n[1], polling ? "polling" : "pool", m);
  if (n[0] > 250) c.nontrivial();
  struct One { std::vector<std::atomic<int>> runs; std::vector<size_t> data; std::atomic<size_t> outside{0}, late{0}; std::atomic<bool> returned{false};
    explicit One(size_t n) : runs(n), data(n) {} };
  std::vector<std::unique_ptr<One>> ones;
  for (size_t k = 0; k < callers; k++) ones.push_back(std::make_unique<One>(n[k]));
  std::atomic<size_t> missing{0}, unseen{0};
  auto token = std::make_shared<int>(1);
  {
    auto now = [] { return std::chrono::steady_clock::now().time_since_epoch(); };
    rst::PollingTaskRunner poll(now);
    rst::ThreadPoolTaskRunner pool(m, now, std::chrono::seconds(2));
    std::atomic<bool> stop{false};
    std::thread driver;
    if (polling) driver = std::thread([&] { while (!stop) { poll.RunPendingTasks(); std::this_thread::yield(); } });
    auto caller = [&](size_t k) {
      One* o = ones[k].get();
      const size_t nk = n[k];
      std::function<void(size_t)> fn = [o, nk, token](size_t i) {
        if (i >= nk) { o->outside++; return; }
        if (o->returned) o->late++;
        o->data[i] = i * 5 + 2;
        o->runs[i]++;
      };
      rst::TaskRunner& r = polling ? static_cast<rst::TaskRunner&>(poll) : pool;
      r.ApplyTaskSync(std::move(fn), nk);
      o->returned = true;
      for (size_t i = 0; i < nk; i++) {
        if (o->runs[i] != 1) missing++;
        if (o->data[i] != i * 5 + 2) unseen++;
      }
    };
    std::thread second;
    if (callers == 2) second = std::thread(caller, 1);
    caller(0);
    if (second.joinable()) second.join();
    stop = true;
    if (driver.joinable()) driver.join();
  }
  for (auto& o : ones) {
    PBT_CHECK(c, o->outside == 0 && o->late == 0, "%zu calls with an index out of range, %zu after the return", o->outside.load(), o->late.load());
    for (size_t i = 0; i < o->runs.size(); i++) PBT_CHECK(c, o->runs[i] == 1, "index %zu of %zu was called %d times", i, o->runs.size(), o->runs[i].load());
  }
  PBT_CHECK(c, missing == 0 && unseen == 0, "when the apply returned %zu indices had not run once, %zu effects not visible", missing.load(), unseen.load());
  PBT_CHECK(c, token.use_count() == 1, "the applied task is not released");
}
