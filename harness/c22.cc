// C22: the polling runner runs each due task once, in due order.
#include <algorithm>
#include <chrono>
#include <limits>
#include <memory>
#include <thread>
#include <vector>

#include "detsched.h"
#include "pbt.h"
#include "real_pool.h"
#include "rst/task_runner/polling_task_runner.h"

using pbt::Ctx;
namespace ch = std::chrono;
constexpr int64_t kMax = std::numeric_limits<int64_t>::max();

namespace {

int64_t saturating(int64_t now, int64_t delay) {
  int64_t r;
  return __builtin_add_overflow(now, delay, &r) ? kMax : r;
}

int64_t gen_delay(Ctx& c) {
  switch (c.weighted({4, 6, 3, 2, 2})) {
    case 0: return 0;
    case 1: return c.range(0, 8);
    case 2: return c.range(0, 1000000000);
    case 3: return int64_t(1) << c.range(0, 62);
    default: return kMax - c.pick({int64_t(0), int64_t(1), int64_t(7), int64_t(1) << 40, int64_t(1) << 62});
  }
}

struct Sim {
  explicit Sim(Ctx& c) : c(c) {}
  Ctx& c;
  int64_t clock = 0;
  std::unique_ptr<rst::PollingTaskRunner> runner;
  // Model.
  struct Pending { int64_t due; uint64_t seq; int id; };
  std::vector<Pending> pending;
  std::vector<int> expect;  // order this poll must run
  size_t expect_pos = 0;
  bool polling = false;
  uint64_t seq = 0;
  int next_id = 0;
  std::vector<int> runs;                  // by id
  std::vector<int> alive;                 // closures alive, by id
  std::vector<char> heir;                 // posts when released, by id
  int heirs = 0;
  int budget = 60;
  int nested = 0, same_due = 0, posts = 0;
  std::vector<Sim*> peers;                // other runners
  int polls_from_tasks = 0;

  struct Tok {
    Sim* s; int id;
    Tok(Sim* s, int id) : s(s), id(id) { s->alive[size_t(id)]++; }
    ~Tok() {
      s->alive[size_t(id)]--;
      // The state of a task that ran can post when it is released.
      if (s->heir[size_t(id)] && s->runs[size_t(id)]) {
        s->heirs++;
        s->post(4);
      }
    }
  };

  void post(int depth) {
    if (budget-- <= 0) return;
    const int id = next_id++;
    runs.push_back(0);
    alive.push_back(0);
    heir.push_back(c.chance(1, 12));
    const int64_t delay = gen_delay(c);
    const int64_t due = saturating(clock, delay);
    for (auto& p : pending) if (p.due == due) same_due++;
    auto tok = std::make_shared<Tok>(this, id);
    auto fn = [this, tok, depth] { run(tok->id, depth); };
    tok.reset();
    c.trace("%*spost #%d delay=%lld due=%lld\n", depth * 2, "", id, (long long)delay, (long long)due);
    posts++;
    pending.push_back({due, seq++, id});
    if (delay == 0 && c.flip()) runner->PostTask(std::move(fn));
    else runner->PostDelayedTask(std::move(fn), ch::nanoseconds(delay));
  }

  void run(int id, int depth) {
    c.trace("run #%d at %lld\n", id, (long long)clock);
    PBT_CHECK(c, polling, "task %d ran outside a poll", id);
    PBT_CHECK(c, expect_pos < expect.size(), "task %d ran but nothing more is due in this poll", id);
    PBT_CHECK(c, expect[expect_pos] == id, "task %d ran, task %d should be next", id, expect[expect_pos]);
    PBT_CHECK(c, ++runs[size_t(id)] == 1, "task %d ran twice", id);
    expect_pos++;
    if (depth < 4) {
      size_t n = c.weighted({6, 3, 1, 1});
      for (size_t i = 0; i < n; i++) {
        if (c.chance(1, 4)) advance();
        post(depth + 1);
        nested++;
      }
    }
    if (c.chance(1, 12)) advance();
    // A task can use other runners, and let them run their tasks.
    if (!peers.empty() && c.chance(1, 3)) {
      Sim& o = *peers[c.draw(peers.size())];
      if (o.runner != nullptr) {
        c.trace("on another runner:\n");
        switch (c.weighted({2, 1, 3})) {
          case 0: o.post(depth + 1); break;
          case 1: o.advance(); break;
          default:
            if (!o.polling) { polls_from_tasks++; o.poll(); }
        }
        c.trace("back\n");
      }
    }
  }

  void advance() {
    int64_t d = c.weighted({5, 1, 1}) == 0 ? c.range(0, 10)
               : c.flip() ? c.range(0, 2000000000)
                          : int64_t(1) << c.range(0, 62);
    clock = std::min(saturating(clock, d), kMax - 1);
    // Sometimes land exactly on a due time, or just before it.
    if (!pending.empty() && c.chance(1, 3)) {
      int64_t t = pending[c.draw(pending.size())].due - int64_t(c.draw(2));
      if (t > clock && t < kMax) clock = t;
    }
  }

  void poll() {
    std::sort(pending.begin(), pending.end(),
              [](auto& a, auto& b) { return std::pair(a.due, a.seq) < std::pair(b.due, b.seq); });
    expect.clear();
    expect_pos = 0;
    size_t n = 0;
    while (n < pending.size() && pending[n].due <= clock) expect.push_back(pending[n++].id);
    pending.erase(pending.begin(), pending.begin() + long(n));
    c.trace("poll at %lld, %zu due\n", (long long)clock, n);
    polling = true;
    runner->RunPendingTasks();
    polling = false;
    PBT_CHECK(c, expect_pos == expect.size(), "poll at %lld ran %zu of %zu due tasks; task %d did not run",
              (long long)clock, expect_pos, expect.size(), expect[expect_pos]);
    for (int id : expect)
      PBT_CHECK(c, alive[size_t(id)] == 0, "task %d not released after running", id);
    for (auto& p : pending)
      PBT_CHECK(c, alive[size_t(p.id)] == 1, "waiting task %d held %d times", p.id, alive[size_t(p.id)]);
  }
};

}  // namespace

SCENARIO(history, 300000, 20000000, false,
         "random history of posts (any delay up to the maximum), nested posts from running tasks, clock jumps (often "
         "onto or just before a due time) and polls against a reference queue ordered by (due time, post order); "
         "non-trivial: at least one poll ran two tasks and some task stayed queued over a poll") {
  Sim s(c);
  s.clock = c.pick({int64_t(0), int64_t(1), int64_t(1) << 30, int64_t(1) << 61, kMax - 100, -int64_t(1000), -(int64_t(1) << 62)});
  s.runner = std::make_unique<rst::PollingTaskRunner>([&s] { return ch::nanoseconds(s.clock); });
  size_t steps = c.size(1, 25);
  bool multi = false, stayed = false;
  for (size_t i = 0; i < steps; i++) {
    switch (c.weighted({5, 2, 3})) {
      case 0: s.post(0); break;
      case 1: s.advance(); break;
      default:
        s.poll();
        multi |= s.expect.size() >= 2;
        stayed |= !s.pending.empty();
    }
  }
  if (c.flip()) {  // Drain everything that can become due.
    for (int i = 0; i < 40 && !s.pending.empty(); i++) {
      int64_t m = kMax;
      for (auto& p : s.pending) m = std::min(m, p.due);
      if (m == kMax) break;
      s.clock = std::max(s.clock, m);
      s.poll();
    }
    c.label("drained");
  }
  s.runner.reset();
  for (int id = 0; id < s.next_id; id++) {
    PBT_CHECK(c, s.alive[size_t(id)] == 0, "task %d not released with the runner", id);
    bool left = false;
    for (auto& p : s.pending) left |= p.id == id;
    PBT_CHECK(c, s.runs[size_t(id)] == (left ? 0 : 1), "task %d ran %d times", id, s.runs[size_t(id)]);
  }
  if (s.nested) c.label("nested posts");
  if (s.heirs) c.label("posts on release");
  if (s.same_due) c.label("equal due times");
  if (multi && stayed) c.nontrivial();
}

SCENARIO(several, 100000, 5000000, false,
         "random histories of two or three runners with clocks of their own, whose tasks also post to the other runners and let them run "
         "their due tasks; each against its reference queue; non-trivial: a task ran the tasks of another runner") {
  std::vector<std::unique_ptr<Sim>> s;
  const size_t k = c.size(2, 3);
  for (size_t i = 0; i < k; i++) {
    s.push_back(std::make_unique<Sim>(c));
    Sim* p = s.back().get();
    p->clock = c.pick({int64_t(0), int64_t(7), int64_t(1) << 30, kMax - 100, -int64_t(1000)});
    p->runner = std::make_unique<rst::PollingTaskRunner>([p] { return ch::nanoseconds(p->clock); });
    p->budget = 30;
  }
  for (auto& a : s)
    for (auto& b : s)
      if (a != b) a->peers.push_back(b.get());
  const size_t steps = c.size(1, 30);
  for (size_t i = 0; i < steps; i++) {
    Sim& x = *s[c.draw(k)];
    if (x.runner == nullptr) continue;
    switch (c.weighted({5, 2, 3, 1})) {
      case 0: x.post(0); break;
      case 1: x.advance(); break;
      case 2: x.poll(); break;
      default:
        if (c.chance(1, 3)) {
          c.trace("destroy a runner\n");
          x.runner.reset();
        }
    }
  }
  int from_tasks = 0;
  for (auto& x : s) {
    x->runner.reset();
    from_tasks += x->polls_from_tasks;
    for (int id = 0; id < x->next_id; id++) {
      PBT_CHECK(c, x->alive[size_t(id)] == 0, "task %d not released with the runner", id);
      bool left = false;
      for (auto& p : x->pending) left |= p.id == id;
      PBT_CHECK(c, x->runs[size_t(id)] == (left ? 0 : 1), "task %d ran %d times", id, x->runs[size_t(id)]);
    }
  }
  if (from_tasks) c.nontrivial();
}

// Posting from several threads while another polls.
namespace {
struct Conc {
  explicit Conc(Ctx& c) : c(c) {}
  Ctx& c;
  struct Task {
    int poster; int64_t delay, clock_begin, clock_end; uint64_t ev_begin, ev_end; int runs, live;
    uint64_t run_ev; int64_t poll_clock; bool nested;
  };
  std::vector<Task> tasks;
  std::vector<int> payload;
  std::unique_ptr<rst::PollingTaskRunner> runner;
  uint64_t ev = 0;
  int poller = -1;
  bool polling = false;
  int64_t quantum = 1;
  int64_t poll_begin = 0;
  uint64_t poll_ev = 0;
  size_t done = 0;
  int64_t clock() const { return det::now_ns() / quantum * quantum; }
  struct Tok {
    Conc* s; int id;
    Tok(Conc* s, int id) : s(s), id(id) { det::Hidden h; s->tasks[size_t(id)].live++; }
    ~Tok() { det::Hidden h; s->tasks[size_t(id)].live--; }
  };
  void post(int poster, int depth) {
    int id;
    int64_t delay;
    {
      det::Hidden h;
      if (tasks.size() >= 100) return;
      id = int(tasks.size());
      delay = c.weighted({3, 3, 1}) == 0 ? 0 : c.chance(1, 8) ? kMax - int64_t(c.draw(3)) : c.range(0, 400);
      tasks.push_back(Task{poster, delay, 0, 0, 0, 0, 0, 0, 0, 0, depth > 0});
      c.trace("[%d] post #%d delay %lld at %lld\n", det::self(), id, (long long)delay, (long long)clock());
    }
    payload[size_t(id)] = id + 1;
    auto tok = std::make_shared<Tok>(this, id);
    std::function<void()> fn = [this, tok, depth] { run(tok->id, depth); };
    tok.reset();
    { det::Hidden h; tasks[size_t(id)].clock_begin = clock(); tasks[size_t(id)].ev_begin = ++ev; }
    runner->PostDelayedTask(std::move(fn), ch::nanoseconds(delay));
    { det::Hidden h; tasks[size_t(id)].clock_end = clock(); tasks[size_t(id)].ev_end = ++ev; }
  }
  void run(int id, int depth) {
    bool nest;
    {
      det::Hidden h;
      Task& t = tasks[size_t(id)];
      c.trace("[%d] #%d runs\n", det::self(), id);
      PBT_CHECK(c, polling && det::self() == poller, "task %d ran outside a poll", id);
      PBT_CHECK(c, ++t.runs == 1, "task %d ran %d times", id, t.runs);
      t.run_ev = ++ev;
      t.poll_clock = clock();
      PBT_CHECK(c, t.poll_clock >= saturating(t.clock_begin, t.delay), "task %d ran early", id);
      PBT_CHECK(c, !(t.nested && t.ev_begin > poll_ev), "task %d, posted by a task, ran in the same poll", id);
      done++;
      nest = depth < 2 && c.chance(1, 4);
    }
    if (payload[size_t(id)] != id + 1) c.fail("data of task %d not visible", id);
    if (nest) post(100 + id, depth + 1);
  }
};
}  // namespace

SCENARIO(concurrent, 40000, 2000000, false,
         "1..3 threads post (with nested posts from tasks) while another thread polls, in a generated schedule; nothing "
         "lost, duplicated, early, or run outside a poll; order by due time and posting; due tasks posted before a "
         "poll run in it; races by TSan; non-trivial: at least 3 tasks from 2 threads and 2 polls that ran some") {
  Conc s(c);
  s.payload.assign(100, 0);
  s.quantum = c.pick({int64_t(1), int64_t(100), int64_t(1000)});
  const size_t posters = c.size(1, 3);
  size_t useful = 0;
  det::run(c, [&] {
    s.runner = std::make_unique<rst::PollingTaskRunner>([&s] { return ch::nanoseconds(s.clock()); });
    s.poller = det::self();
    std::vector<std::thread> th;
    size_t active = posters;
    for (size_t p = 0; p < posters; p++) {
      th.emplace_back([&, p] {
        size_t n;
        { det::Hidden h; n = c.size(1, 6); }
        for (size_t i = 0; i < n; i++) {
          s.post(int(p), 0);
          int64_t d;
          { det::Hidden h; d = c.chance(1, 3) ? c.range(1, 300) : 0; }
          if (d) det::sleep_ns(d);
        }
        det::Hidden h;
        active--;
      });
    }
    std::vector<size_t> must;
    auto poll = [&] {
      {
        det::Hidden h;
        s.polling = true;
        s.poll_begin = s.clock();
        s.poll_ev = ++s.ev;
        must.clear();
        for (size_t i = 0; i < s.tasks.size(); i++) {
          auto& t = s.tasks[i];
          if (t.ev_end && !t.runs && saturating(t.clock_end, t.delay) <= s.poll_begin) must.push_back(i);
        }
        s.c.trace("poll begins at %lld\n", (long long)s.poll_begin);
      }
      const size_t before = s.done;
      s.runner->RunPendingTasks();
      det::Hidden h;
      s.polling = false;
      useful += s.done > before;
      for (size_t i : must) PBT_CHECK(c, s.tasks[i].runs == 1, "due task %zu did not run in the poll at %lld", i, (long long)s.poll_begin);
      for (size_t i = 0; i < s.tasks.size(); i++)
        if (s.tasks[i].runs) PBT_CHECK(c, s.tasks[i].live == 0, "task %zu not released after running", i);
    };
    while (true) {
      bool stop;
      { det::Hidden h; stop = active == 0; }
      poll();
      if (stop) break;
      det::sleep_ns(60);
    }
    for (auto& t : th) t.join();
    for (int i = 0; i < 5; i++) {
      det::sleep_ns(5000);
      poll();
    }
    s.runner.reset();
  });
  for (size_t i = 0; i < s.tasks.size(); i++) {
    auto& a = s.tasks[i];
    PBT_CHECK(c, a.runs == (a.delay > kMax / 4 ? 0 : 1), "task %zu ran %d times", i, a.runs);
    PBT_CHECK(c, a.live == 0, "task %zu not released", i);
    for (size_t j = 0; j < s.tasks.size(); j++) {
      auto& b = s.tasks[j];
      if (i == j || !a.runs || !b.runs || a.delay > kMax / 4 || b.delay > kMax / 4) continue;
      // a is due first (or at the same time and posted first), and was posted
      // before b can have been due.
      const int64_t a_max = a.clock_end + a.delay, a_min = a.clock_begin + a.delay;
      const int64_t b_min = b.clock_begin + b.delay, b_max = b.clock_end + b.delay;
      if (a.clock_end >= b_min && !(a.ev_end < b.ev_begin)) continue;
      if (a_max < b_min || (a_min == a_max && b_min == b_max && a_max == b_max && a.ev_end < b.ev_begin))
        PBT_CHECK(c, a.run_ev < b.run_ev, "task %zu ran before task %zu", j, i);
    }
  }
  if (s.tasks.size() >= 3 && posters >= 2 && useful >= 2) c.nontrivial();
}

SCENARIO(many, 120, 4000, false,
         "up to 70000 tasks, often around 2^8, 2^15 and 2^16, over 1 to 4 due times in one queue, or in rounds with a "
         "poll each; all run once in order of due time then posting; non-trivial: more than 250 tasks with equal due times") {
  const size_t n = real::gen_amount(c);
  const size_t dues = c.size(1, 4);
  const size_t round = c.flip() ? n : c.pick({size_t(1), size_t(7), size_t(300), size_t(40000)});
  const uint64_t salt = c.draw(1000);
  int64_t clock = c.pick({int64_t(0), int64_t(1) << 40});
  c.trace("%zu tasks, %zu due times, rounds of %zu, salt %llu\n", n, dues, round, (unsigned long long)salt);
  if (n / dues > 250) c.nontrivial();
  rst::PollingTaskRunner r([&clock] { return ch::nanoseconds(clock); });
  struct Run { int64_t due; size_t id; };
  std::vector<Run> ran;
  size_t posted = 0, seen = 0;
  auto check = [&] {
    for (; seen < ran.size(); seen++) {
      PBT_CHECK(c, ran[seen].due <= clock, "task %zu ran early", ran[seen].id);
      if (seen == 0) continue;
      auto& a = ran[seen - 1];
      auto& b = ran[seen];
      PBT_CHECK(c, a.due < b.due || (a.due == b.due && a.id < b.id), "task %zu due %lld ran before task %zu due %lld",
                a.id, (long long)a.due, b.id, (long long)b.due);
    }
  };
  while (posted < n) {
    // Each round is due after the last.
    for (size_t k = 0; k < round && posted < n; k++, posted++) {
      const int64_t d = int64_t(pbt::hash64(posted * 1009 + salt) % dues);
      r.PostDelayedTask([&ran, id = posted, due = clock + d] { ran.push_back({due, id}); }, ch::nanoseconds(d));
    }
    for (size_t t = 0; t < dues; t++) {
      if (t) clock++;
      r.RunPendingTasks();
      check();
    }
    clock++;
    PBT_CHECK(c, ran.size() == posted, "%zu of %zu due tasks ran", ran.size(), posted);
  }
}
