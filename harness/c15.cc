// C15: where debug builds stop for statuses nobody looked at.
#include <unistd.h>

#include "status_ops.h"
using namespace so;

// Programs that examine everything never stop (an abort here fails the case).
SCENARIO(careful_programs, 150000, 5000000, false,
         "histories of creating, moving, assigning, returning, taking, examining and destroying statuses and status-ors of six types, keeping to the rules of the "
         "model; nothing may stop; non-trivial: at least one move of an examined object and one overwrite") {
  live_errors = live_objs = 0;
  Slot s[kSlots];
  size_t n = c.size(4, 60);
  bool moved = false, over = false;
  auto step = [&](const Op& o) {
    auto bad = run(s, o);
    PBT_CHECK(c, bad.empty(), "%s: %s", show(o).c_str(), bad.c_str());
  };
  for (size_t i = 0; i < n; i++) {
    Op o = gen_op(c, int(i));
    auto v = judge(s, o);
    if (v == kSkip) continue;
    if (v == kStops) {
      // Look first.
      Op e = o;
      e.code = o.how % 3 == 2 && o.code != kRead && o.code != kTake ? kIgnore : kExamine;
      c.trace("%s\n", show(e).c_str());
      step(e);
    }
    if (o.code == kMoveNew && s[o.b].checked) moved = true;
    if (o.code == kMoveAssign || o.code == kAssignValue || o.code == kAssignStatus) over = true;
    c.trace("%s\n", show(o).c_str());
    step(o);
  }
  for (int i = 0; i < kSlots; i++) {
    if (s[i].kind < 0) continue;
    if (!s[i].moved || !s[i].checked) step(Op{s[i].id % 3 ? kExamine : kIgnore, i, 0, 0, 0, 0});
    step(Op{kDestroy, i, 0, 0, 0, 0});
  }
  PBT_CHECK(c, live_errors == 0 && live_objs == 0, "%d errors and %d values left alive", live_errors, live_objs);
  if (moved && over) c.nontrivial();
}

#ifndef NDEBUG
SCENARIO(careless_programs, 10000, 250000, false,
         "histories that keep the rules up to one operation which the model says must stop the process, run in a child; must stop exactly there; "
         "non-trivial: the culprit had been moved, assigned or taken") {
  std::vector<Op> ops;
  // The model alone decides what happens, on a dry run in this process.
  auto* s = new Slot[kSlots];
  size_t n = c.size(1, 20);
  bool stop = false;
  bool involved = false;
  for (size_t i = 0; i < n + 12 && !stop; i++) {
    Op o = gen_op(c, int(i));
    auto v = judge(s, o);
    if (v == kSkip) continue;
    if (v == kStops && i < n) {
      Op e = o;
      e.code = kExamine;
      ops.push_back(e);
      run(s, e);
    } else if (v == kStops) {
      ops.push_back(o);
      stop = true;
      c.label(o.code == kDestroy ? "destroyed unexamined" : o.code == kRead || o.code == kTake ? "read unexamined" : "overwritten unexamined");
      for (auto& q : ops) if ((q.code == kMoveNew || q.code == kMoveAssign || q.code == kFromStatus || q.code == kAssignStatus || q.code == kAssignValue) && q.a == o.a) involved = true;
      break;
    }
    ops.push_back(o);
    run(s, o);
  }
  if (!stop) {
    for (int i = 0; i < kSlots && !stop; i++)
      if (s[i].kind >= 0 && !s[i].checked) { ops.push_back(Op{kDestroy, i, 0, 0, 0, 0}); stop = true; c.label("destroyed unexamined"); involved = s[i].id % 2; }
  }
  for (int i = 0; i < kSlots; i++) {
    if (s[i].kind < 0) continue;
    if (!s[i].checked) run(s, Op{kIgnore, i, 0, 0, 0, 0});
    run(s, Op{kDestroy, i, 0, 0, 0, 0});
  }
  delete[] s;
  if (!stop) { c.label("nothing to stop"); return; }
  if (involved) c.nontrivial();
  for (auto& o : ops) c.trace("%s\n", show(o).c_str());
  auto d = pbt::run_forked([&] {
    auto* t = new Slot[kSlots];
    for (size_t i = 0; i < ops.size(); i++) {
      pbt::mark(i + 1);
      run(t, ops[i]);
    }
    pbt::mark(ops.size() + 1);
    _exit(0);
  });
  PBT_CHECK(c, d.aborted(), "%s did not stop the process: %s", show(ops.back()).c_str(), d.describe().c_str());
  PBT_CHECK(c, d.progress == ops.size(), "the process stopped at operation %llu of %zu, expected the last", (unsigned long long)d.progress, ops.size());
}

SCENARIO(early_return_unexamined, 400, 10000, false,
         "results dropped on the floor in functions at a random call depth, with some of them examined; stops exactly if one is not; non-trivial: stops") {
  size_t n = c.size(1, 6);
  std::vector<int> what;
  bool stops = false;
  for (size_t i = 0; i < n; i++) { what.push_back(int(c.draw(6))); if (what.back() >= 4) stops = true; }
  int depth = int(c.draw(5));
  c.trace("%zu results, depth %d, %s\n", n, depth, stops ? "one dropped" : "all examined");
  if (stops) c.nontrivial();
  auto d = pbt::run_forked([&] {
    struct R {
      static void go(const std::vector<int>& w, int depth) {
        if (depth > 0) { go(w, depth - 1); return; }
        for (int k : w) {
          switch (k) {
            case 0: { auto x = make_err(1); (void)x.err(); break; }
            case 1: { auto x = rst::Status::OK(); x.Ignore(); break; }
            case 2: { rst::StatusOr<Obj> x = Obj(3); if (!x.err()) (void)x->id; break; }
            case 3: { rst::StatusOr<int> x = make_err(2); x.Ignore(); auto y = std::move(x); (void)y.err(); break; }
            case 4: { auto x = rst::Status::OK(); (void)x; break; }
            default: { rst::StatusOr<int> x = 5; (void)x.err(); auto y = std::move(x); break; }
          }
        }
      }
    };
    R::go(what, depth);
  });
  PBT_CHECK(c, stops ? d.aborted() : d.survived(), "expected to %s: %s", stops ? "stop" : "go on", d.describe().c_str());
}
SCENARIO(ok_refused, 400, 10000, false,
         "a status, with or without an error, examined or not, moved through up to 4 others, stored in a status-or by construction, assignment over a value or over an "
         "error, or by returning it; in a child: stops exactly if it holds no error; non-trivial: it holds none") {
  const size_t origin = c.draw(4), hops = c.draw(5), way = c.draw(4);
  const bool look = c.flip(), wide = c.flip();
  const bool empty = origin < 2 || origin == 3;
  if (empty) c.nontrivial();
  c.label(empty ? "holds no error" : "holds an error");
  c.trace("origin %zu, %zu hops, %s, way %zu\n", origin, hops, look ? "examined" : "not examined", way);
  auto d = pbt::run_forked([&] {
    rst::Status s = origin == 2 || origin == 3 ? make_err(4) : rst::Status::OK();
    if (look) (void)s.err();
    if (origin == 3) { rst::Status t = std::move(s); t.Ignore(); }
    for (size_t i = 0; i < hops; i++) {
      rst::Status t = std::move(s);
      if (look) (void)t.err();
      s = std::move(t);
    }
    auto store = [&](auto make) {
      using Or = decltype(make());
      pbt::mark(1);
      switch (way) {
        case 0: { Or x = std::move(s); x.Ignore(); break; }
        case 1: { Or x = make(); x.Ignore(); x = std::move(s); x.Ignore(); break; }
        case 2: { Or x = make_err(9); x.Ignore(); x = std::move(s); x.Ignore(); break; }
        default: { auto f = [&]() -> Or { return std::move(s); }; Or x = f(); x.Ignore(); break; }
      }
      pbt::mark(2);
    };
    // The source is moved from or was examined.
    if (wide) store([] { return rst::StatusOr<Obj>(Obj(2)); });
    else store([] { return rst::StatusOr<int>(2); });
    s.Ignore();
    _exit(0);
  });
  PBT_CHECK(c, empty ? d.aborted() : d.survived(), "storing a status with%s in a status-or: %s", empty ? "out an error" : " an error", d.describe().c_str());
  PBT_CHECK(c, d.progress == (empty ? 1u : 2u), "the process stopped at step %llu", (unsigned long long)d.progress);
}
#endif

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of careful_programs; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_careful_programs(t);
  });
}
