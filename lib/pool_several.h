// Several pools at once under the deterministic scheduler.
#ifndef VERIF_LIB_POOL_SEVERAL_H_
#define VERIF_LIB_POOL_SEVERAL_H_

#include <memory>
#include <vector>

#include "pool_sim.h"

// Two or three pools live together.  Tasks of a pool may post to pools that
// are destroyed after their own.  |early| destroys pools with tasks left.
inline void several_pools(pbt::Ctx& c, bool early) {
  std::vector<std::unique_ptr<PoolSim>> s;
  const size_t k = c.weighted({4, 1}) + 2;
  const bool delays = !early || c.flip();
  for (size_t i = 0; i < k; i++) {
    s.push_back(std::make_unique<PoolSim>(c));
    for (size_t j = 0; j < i; j++) s[i]->peers.push_back(s[j].get());
    s[i]->budget = 14;
  }
  size_t cross = 0;
  bool left = false;
  det::run(c, [&] {
    for (auto& p : s) p->create();
    det::on_stuck([&s] {
      std::string r;
      for (auto& p : s) r += p->describe() + "; ";
      return r;
    });
    auto all = [&s](size_t n) {
      det::await([&s, n] {
        for (size_t i = 0; i < n; i++)
          if (s[i]->finished < s[i]->due_tasks) return false;
        return true;
      }, "all tasks to run");
    };
    size_t alive = k;
    while (alive > 0) {
      size_t n;
      { det::Hidden h; n = c.size(0, 8); }
      for (size_t i = 0; i < n; i++) {
        size_t on;
        bool delayed, settle;
        int action;
        int64_t d, pause;
        {
          det::Hidden h;
          on = c.draw(alive);
          delayed = delays && c.chance(2, 5);
          settle = !early && c.chance(1, 6);
          action = int(c.weighted({3, 2, 2, 3, 3}));
          d = early && c.chance(1, 4) ? PoolSim::kNever - int64_t(c.draw(3)) : s[on]->gen_delay();
          const int64_t keep = s[on]->keep;
          pause = c.weighted({3, 2}) == 0 ? 0 : keep < 2000000 && c.flip() ? keep + c.range(-4, 40) : c.range(1, 2000);
        }
        // A group that fills the pool needs all the others to have ended.
        if (settle) {
          all(alive);
          PoolSim& p = *s[on];
          int g;
          size_t size;
          {
            det::Hidden h;
            g = int(p.group_size.size());
            size = p.m - c.draw(p.m);
            p.group_size.push_back(int(size));
            p.group_in.push_back(0);
            p.budget += int(size);
          }
          for (size_t q = 0; q < size; q++) p.post(0, delayed, d % 1000 + 1, PoolSim::kMeet, g);
        } else {
          s[on]->post(0, delayed, d, action, -1);
        }
        if (pause > 0) det::sleep_ns(pause);
      }
      bool drain;
      { det::Hidden h; drain = !early || c.chance(1, 4); }
      if (drain) all(alive);
      {
        det::Hidden h;
        left |= s[alive - 1]->finished < s[alive - 1]->due_tasks;
      }
      s[alive - 1]->destroy();
      alive--;
      if (alive > 0) {
        det::Hidden h;
        for (size_t i = 0; i < alive; i++) s[i]->budget += 8;
      }
    }
  });
  for (auto& p : s) {
    cross += size_t(p->crossed);
    for (auto& t : p->tasks)
      PBT_CHECK(c, t.starts <= 1 && (early || t.starts == (t.never ? 0 : 1)), "task %d ran %d times", t.id, t.starts);
    if (!early) p->check_order();
  }
  if (cross) c.label("posts from one pool to another");
  if (det::stats().timeouts) c.label("timeouts");
  if (left) c.label("destroyed with tasks left");
  size_t busy = 0;
  for (auto& p : s) busy += p->high > 0;
  if (busy >= 2 && (left || !early)) c.nontrivial();
}

#endif
