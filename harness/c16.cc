// C16: statuses transport values and error objects unchanged.
#include "rst/status/status_macros.h"
#include "ctor_forms.h"
#include "rst/rtti/rtti.h"
#include "status_ops.h"
using namespace so;

SCENARIO(transport, 200000, 6000000, false,
         "histories of moves, assignments, returns and takes over statuses and status-ors of six types (move-only, over-aligned, trivially copyable); every readable "
         "one is read after every operation and must hold the model's value or the same error object; lifetimes balanced; non-trivial: 6 or more operations applied, "
         "with errors and values") {
  live_errors = live_objs = 0;
  Slot s[kSlots];
  size_t n = c.size(4, 60);
  size_t applied = 0;
  bool saw_err = false, saw_val = false;
  auto step = [&](const Op& o) {
    auto bad = run(s, o);
    PBT_CHECK(c, bad.empty(), "%s: %s", show(o).c_str(), bad.c_str());
  };
  for (size_t i = 0; i < n; i++) {
    Op o = gen_op(c, int(i));
    auto v = judge(s, o);
    if (v == kSkip) continue;
    if (v == kStops) step(Op{kExamine, o.a, 0, 0, 0, 0});
    if (o.code == kDestroy && o.how < 4) continue;
    c.trace("%s\n", show(o).c_str());
    step(o);
    applied++;
    int want_err = 0, want_obj = 0;
    for (int k = 0; k < kSlots; k++) {
      Slot& x = s[k];
      if (x.kind < 0) continue;
      if (!x.moved) {
        (x.err ? saw_err : saw_val) = true;
        if (x.err) want_err++;
        else if (x.kind == kOrObj || x.kind == kOrPtr) want_obj++;
        const bool was = x.checked;
        // Examine a copy of the flag's worth: reading needs an examined one.
        if (was || o.how % 2) {
          step(Op{kExamine, k, 0, 0, 0, 0});
          if (x.kind != kStatus || x.err) step(Op{kRead, k, 0, 0, 0, o.how});
        }
      } else if (!x.err && x.kind == kOrObj) {
        want_obj++;  // the moved-from object itself
      }
    }
    PBT_CHECK(c, live_errors == want_err, "after %s: %d error objects alive, expected %d", show(o).c_str(), live_errors, want_err);
    PBT_CHECK(c, live_objs == want_obj, "after %s: %d values alive, expected %d", show(o).c_str(), live_objs, want_obj);
  }
  for (int i = 0; i < kSlots; i++) {
    if (s[i].kind < 0) continue;
    step(Op{kExamine, i, 0, 0, 0, 0});
    if (!s[i].moved && (s[i].kind != kStatus || s[i].err)) step(Op{kRead, i, 0, 0, 0, 1});
    step(Op{kDestroy, i, 0, 0, 0, 0});
  }
  PBT_CHECK(c, live_errors == 0 && live_objs == 0, "%d errors and %d values left alive", live_errors, live_objs);
  if (applied >= 6 && saw_err && saw_val) c.nontrivial();
}

namespace {
// A call tree of functions built from the early-return macros.
struct Node;
struct Step { int macro; int child; bool inline_if; };
struct Node {
  int result = 0;  // > 0: value id; < 0: error id
  std::vector<Step> steps;
};
struct Prog { std::vector<Node> nodes; };

struct World {
  const Prog* p;
  std::vector<int> log;  // node entries, step completions, destructions
};
PBT_THREAD_LOCAL World* W;

struct Guard {
  explicit Guard(int n) : n(n) {}
  ~Guard() { W->log.push_back(3000 + n); }
  int n;
};

rst::Status as_status(int n);
rst::StatusOr<Obj> as_obj(int n);
rst::StatusOr<int> as_int(int n);
rst::StatusOr<std::unique_ptr<Obj>> as_ptr(int n);

// The common body, once per return type.
#define BODY(RET_OK)                                                                  \
  W->log.push_back(1000 + n);                                                         \
  Guard guard(n);                                                                     \
  const Node& me = W->p->nodes[size_t(n)];                                            \
  int sum = 0;                                                                        \
  for (size_t i = 0; i < me.steps.size(); i++) {                                      \
    const Step& st = me.steps[i];                                                     \
    switch (st.macro) {                                                               \
      case 0:                                                                         \
        if (st.inline_if)                                                             \
          RST_TRY(as_status(st.child));                                               \
        else                                                                          \
          RST_TRY(rst::Status(as_status(st.child)));                                  \
        sum += 1;                                                                     \
        break;                                                                        \
      case 1: {                                                                       \
        rst::StatusOr<Obj> v = Obj(12345);                                            \
        if (st.inline_if) (void)v.err(); else v.Ignore();                             \
        RST_TRY_ASSIGN(v, as_obj(st.child));                                          \
        sum += (*v).id;                                                               \
        break;                                                                        \
      }                                                                               \
      case 2: {                                                                       \
        /* The target is evaluated once. */                                           \
        int v[3] = {-5, -6, -7};                                                      \
        int k = 0;                                                                    \
        int* q = v + 1;                                                               \
        if (st.inline_if)                                                             \
          RST_TRY_ASSIGN_UNWRAP(v[k++], as_int(st.child));                            \
        else                                                                          \
          RST_TRY_ASSIGN_UNWRAP(*++q, as_int(st.child));                              \
        sum += st.inline_if ? v[0] : v[2];                                            \
        if (v[1] != -6 || k != st.inline_if || q - v != (st.inline_if ? 1 : 2)) sum += 1000000;\
        break;                                                                        \
      }                                                                               \
      case 3: {                                                                       \
        RST_TRY_CREATE(auto, v, as_ptr(st.child));                                    \
        std::unique_ptr<Obj> w = std::move(*v);                                       \
        sum += w->id;                                                                 \
        break;                                                                        \
      }                                                                               \
      case 4: {                                                                       \
        Obj v(7);                                                                     \
        RST_TRY_ASSIGN_UNWRAP(v, as_obj(st.child));                                   \
        sum += v.id;                                                                  \
        break;                                                                        \
      }                                                                               \
      default: {                                                                      \
        RST_TRY_CREATE(rst::StatusOr<int>, v, as_int(st.child));                      \
        RST_TRY_CREATE(rst::StatusOr<int>, w, as_int(st.child));                      \
        sum += *v + *w;                                                               \
        break;                                                                        \
      }                                                                               \
    }                                                                                 \
    W->log.push_back(2000 + n * 10 + int(i));                                         \
  }                                                                                   \
  if (me.result < 0) return make_err(-me.result);                                     \
  (void)sum;                                                                          \
  RET_OK

rst::Status as_status(int n) { BODY(return rst::Status::OK();) }
rst::StatusOr<Obj> as_obj(int n) { BODY(return Obj(me.result + sum);) }
rst::StatusOr<int> as_int(int n) { BODY(return me.result + sum;) }
rst::StatusOr<std::unique_ptr<Obj>> as_ptr(int n) { BODY(return std::make_unique<Obj>(me.result + sum);) }

// Reference: what calling node |n| logs and returns (as a value or as a status).
struct Res { bool err; int id; int value; };
Res model(const Prog& p, int n, std::vector<int>& log) {
  log.push_back(1000 + n);
  int sum = 0;
  const Node& me = p.nodes[size_t(n)];
  for (size_t i = 0; i < me.steps.size(); i++) {
    for (int rep = 0; rep < (me.steps[i].macro == 5 ? 2 : 1); rep++) {
      Res r = model(p, me.steps[i].child, log);
      if (r.err) { log.push_back(3000 + n); return r; }
      sum += me.steps[i].macro == 0 ? 1 : r.value;
    }
    log.push_back(2000 + n * 10 + int(i));
  }
  log.push_back(3000 + n);
  if (me.result < 0) return {true, -me.result, 0};
  return {false, 0, me.result + sum};
}
}  // namespace

SCENARIO(macros, 100000, 3000000, false,
         "random call trees whose functions propagate results with each of the early-return macros, in four return types, against an interpreter: same calls in the "
         "same order, same result, nothing leaked; non-trivial: an error crosses at least two calls, or three macros succeed") {
  live_errors = live_objs = 0;
  Prog p;
  size_t n = c.size(2, 7);
  p.nodes.resize(n);
  for (size_t i = 0; i < n; i++) {
    p.nodes[i].result = int(c.draw(20)) + 1;
    if (c.draw(4) == 3) p.nodes[i].result = -int(c.draw(50)) - 1;
    if (i + 1 < n) {
      size_t k = c.size(0, 3);
      for (size_t j = 0; j < k; j++) p.nodes[i].steps.push_back({int(c.draw(6)), int(c.size(i + 1, n - 1)), c.flip()});
    }
  }
  std::vector<int> want_log;
  Res want = model(p, 0, want_log);
  if (want_log.size() > 3000) { c.label("too long"); return; }
  World w{&p, {}};
  W = &w;
  int form = int(c.draw(4));
  for (size_t i = 0; i < n; i++) {
    c.trace("f%zu (%d):", i, p.nodes[i].result);
    for (auto& s : p.nodes[i].steps) c.trace(" macro%d f%d", s.macro, s.child);
    c.trace("\n");
  }
  bool err = false;
  int id = 0, value = 0;
  auto take = [&](auto s) {
    err = s.err();
    if (err) { auto t = std::move(s).TakeStatus(); (void)t.err(); id = static_cast<const ErrA*>(t.GetError().get())->n; }
    else if constexpr (std::is_same_v<std::decay_t<decltype(*s)>, int>) value = *s;
    else value = id_of(*s);
  };
  switch (form) {
    case 0: { auto s = as_status(0); err = s.err(); if (err) id = static_cast<const ErrA*>(s.GetError().get())->n; value = want.value; break; }
    case 1: take(as_obj(0)); break;
    case 2: take(as_int(0)); break;
    default: take(as_ptr(0)); break;
  }
  PBT_CHECK(c, err == want.err, "err() is %d, expected %d", err, want.err);
  if (err) PBT_CHECK(c, id == want.id, "error %d, expected %d", id, want.id);
  else PBT_CHECK(c, value == want.value, "value %d, expected %d", value, want.value);
  PBT_CHECK(c, w.log == want_log, "calls made differ: %zu events, expected %zu", w.log.size(), want_log.size());
  PBT_CHECK(c, live_errors == 0 && live_objs == 0, "%d errors and %d values left alive", live_errors, live_objs);
  size_t done = 0;
  for (int e : want_log) done += e >= 2000 && e < 3000;
  if ((want.err && want_log.size() >= 4) || done >= 3) c.nontrivial();
  c.label(want.err ? "error" : "value");
}

namespace {
struct Built : rst::ErrorInfo<Built>, cf::Probe {
  using Probe::Probe;
  Built() = default;
  Built(const Built&) = delete;
  const std::string& AsString() const override { return how; }
  static char id_;
};
char Built::id_ = 0;
}  // namespace

SCENARIO(make_status, 40000, 500000, false,
         "error objects built from arguments of every kind (none, several, references that are changed or taken, lists) by explicit and overloaded constructors; "
         "non-trivial: always") {
  c.nontrivial();
  const bool or_ = c.flip();
  cf::all_forms(c, [&](auto&&... a) -> std::string {
    if (or_) {
      rst::StatusOr<int> s = rst::MakeStatus<Built>(std::forward<decltype(a)>(a)...);
      return s.err() ? s.status().GetError()->AsString() : "OK";
    }
    rst::Status s = rst::MakeStatus<Built>(std::forward<decltype(a)>(a)...);
    if (!s.err()) return "OK";
    auto e = rst::dyn_cast<Built>(s.GetError());
    return e == nullptr ? "other class" : e->how;
  });
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of transport, macros; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    switch (t.draw(2)) {
      case 0: scenario_transport(t); break;
      default: scenario_macros(t); break;
    }
  });
}
