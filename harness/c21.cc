// C21: barriers, in generated schedules.
#include <atomic>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "detsched.h"
#include <unistd.h>

#include "pbt.h"
#include "real_pool.h"
#include "rst/threading/barrier.h"

using pbt::Ctx;

namespace {

enum Op { kDown, kDownWait, kWait };
const char* const kName[] = {"CountDown", "CountDownAndWait", "Wait"};

struct Shared {
  Ctx& c;
  rst::Barrier* barrier = nullptr;
  size_t n = 0;
  size_t begun = 0;                // count-downs begun
  std::vector<int> data;           // plain data, one per count-down
  std::atomic<size_t> to_return{0};  // calls that must return before destruction
  int waits_blocked = 0, late_waits = 0;
};

void thread_main(Shared& s, int me, const std::vector<Op>& ops, const std::vector<size_t>& slots, bool any_waits) {
  size_t k = 0;
  for (Op op : ops) {
    const bool waits = op != kDown;
    if (op != kWait) {
      s.data[slots[k]] = int(slots[k]) + 100;
      k++;
      det::Hidden h;
      s.begun++;
    }
    {
      det::Hidden h;
      s.c.trace("thread %d: %s begins (%zu of %zu counted)\n", me, kName[op], s.begun, s.n);
      if (waits) (s.begun < s.n ? s.waits_blocked : s.late_waits)++;
    }
    switch (op) {
      case kDown: s.barrier->CountDown(); break;
      case kDownWait: s.barrier->CountDownAndWait(); break;
      case kWait: s.barrier->Wait(); break;
    }
    {
      det::Hidden h;
      s.c.trace("thread %d: %s returned\n", me, kName[op]);
      if (waits)
        PBT_CHECK(s.c, s.begun == s.n, "%s of thread %d returned after %zu of %zu count-downs", kName[op], me, s.begun,
                  s.n);
    }
    if (waits) {
      // Everything written before each count-down is visible (a data race
      // here is reported by TSan).
      for (size_t i = 0; i < s.n; i++) {
        const int v = s.data[i];
        if (v != int(i) + 100) s.c.fail("thread %d: data %zu not visible after %s", me, i, kName[op]);
      }
    }
    if (waits || !any_waits) {
      if (s.to_return.fetch_sub(1, std::memory_order_acq_rel) == 1) {
        { det::Hidden h; s.c.trace("thread %d destroys the barrier\n", me); }
        delete s.barrier;
      }
    }
  }
}

}  // namespace

SCENARIO(schedules, 60000, 3000000, false,
         "1..6 threads with generated sequences of CountDown, CountDownAndWait and Wait over one heap barrier (counts "
         "1..8), destroyed by whoever returns last from a waiting call while count-downs may still be returning; "
         "generated schedule with preemption at every synchronisation call and between memory accesses, spurious "
         "wake-ups; stuck schedules, early returns, missing visibility, races and use of the dead barrier fail; "
         "non-trivial: at least two threads, a wait began before the last count-down and the schedule switched "
         "between threads at least twice per thread") {
  Shared s{c};
  const size_t nt = c.size(1, 6);
  std::vector<std::vector<Op>> ops(nt);
  std::vector<std::vector<size_t>> slots(nt);
  size_t waits = 0;
  for (size_t i = 0; i < nt; i++) {
    const size_t d = c.weighted({3, 5, 2, 1});
    for (size_t k = 0; k < d && s.n < 8; k++) { ops[i].push_back(kDown); slots[i].push_back(s.n++); }
    if (s.n < 8 && c.chance(2, 5)) { ops[i].push_back(kDownWait); slots[i].push_back(s.n++); waits++; }
    const size_t w = c.weighted({4, 4, 1});
    for (size_t k = 0; k < w; k++) { ops[i].push_back(kWait); waits++; }
  }
  if (s.n == 0) { ops[0].insert(ops[0].begin(), kDown); slots[0].push_back(s.n++); }
  s.data.assign(s.n, 0);
  size_t downs = 0;
  for (auto& v : ops) for (Op o : v) downs += o == kDown;
  s.to_return = waits ? waits : downs;
  for (size_t i = 0; i < nt; i++) {
    std::string t;
    for (Op o : ops[i]) t += std::string(" ") + kName[o];
    c.trace("thread %zu:%s\n", i, t.c_str());
  }
  const bool main_takes_part = c.flip();
  det::run(c, [&] {
    s.barrier = new rst::Barrier(s.n);
    std::vector<std::thread> th;
    for (size_t i = main_takes_part ? 1 : 0; i < nt; i++)
      th.emplace_back([&s, &ops, &slots, i, waits] { thread_main(s, int(i), ops[i], slots[i], waits != 0); });
    if (main_takes_part) thread_main(s, 0, ops[0], slots[0], waits != 0);
    for (auto& t : th) t.join();
  });
  PBT_CHECK(c, s.to_return == 0, "calls missing");
  const auto st = det::stats();
  if (s.waits_blocked) c.label("wait before zero");
  if (s.late_waits) c.label("wait after zero");
  if (st.spurious) c.label("spurious wake-up");
  if (st.preemptions) c.label("preempted between accesses");
  if (waits == 0) c.label("no waits");
  if (nt >= 2 && s.waits_blocked && st.switches >= 2 * nt) c.nontrivial();
}

SCENARIO(large_counts, 150, 6000, false,
         "real threads: a barrier of up to 70000, often around 2^8, 2^15 and 2^16, counted down by 1..4 threads while "
         "1..3 wait; no wait may return before the last count-down begins; non-trivial: a count over 250") {
  const size_t n = real::gen_amount(c);
  const size_t downs = c.size(1, 4), waits = c.size(1, 3);
  const bool last_waits = c.flip();
  c.trace("count %zu, %zu threads counting, %zu waiting%s\n", n, downs, waits, last_waits ? ", some count down and wait" : "");
  if (n > 250) c.nontrivial();
  std::atomic<size_t> begun{0}, early{0};
  std::vector<int> data(downs);
  rst::Barrier b(n);
  auto after = [&] {
    if (begun.load() != n) early++;
    for (size_t i = 0; i < downs; i++) if (data[i] != int(i) + 1) early++;
  };
  std::vector<std::thread> th;
  for (size_t w = 0; w < waits; w++) th.emplace_back([&] { b.Wait(); after(); });
  for (size_t d = 0; d < downs; d++)
    th.emplace_back([&, d] {
      const size_t mine = n / downs + (d < n % downs);
      if (mine == 0 || n < downs) data[d] = int(d) + 1;
      for (size_t i = 0; i < mine; i++) {
        data[d] = int(d) + 1;
        begun++;
        if (last_waits && i + 1 == mine) { b.CountDownAndWait(); if (n >= downs) after(); }
        else b.CountDown();
      }
    });
  for (auto& t : th) t.join();
  if (n >= downs) PBT_CHECK(c, early == 0, "%zu waits returned early on a barrier of %zu", early.load(), n);
}

SCENARIO(huge_counts, 60, 600, false,
         "a barrier of 2^31, 2^32, 2^63 or near them, counted down a few times: a wait does not return; non-trivial: always") {
  const size_t n = (size_t(1) << c.pick({31, 32, 63, 33})) + c.size(0, 4) - (c.flip() ? 2 : 0);
  const size_t k = c.size(0, 4);
  c.trace("count %zu, %zu count-downs\n", n, k);
  c.nontrivial();
  auto d = pbt::run_forked([&] {
    rst::Barrier b(n);
    for (size_t i = 0; i < k; i++) b.CountDown();
    std::thread t([&] { b.Wait(); pbt::say("returned"); _exit(0); });
    std::this_thread::sleep_for(std::chrono::milliseconds(4));
    _exit(0);
  });
  PBT_CHECK(c, d.survived() && d.out.empty(), "a barrier of %zu: after %zu count-downs: %s %s", n, k, d.describe().c_str(), d.out.c_str());
}
