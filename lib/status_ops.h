// Histories of statuses and status-ors with a model of what each one holds.
#ifndef VERIF_LIB_STATUS_OPS_H_
#define VERIF_LIB_STATUS_OPS_H_

#include <memory>
#include <unistd.h>

#include <new>
#include <string>
#include <vector>

#include "pbt.h"
#include "rst/not_null/not_null.h"
#include "rst/status/status.h"
#include "rst/status/status_or.h"

namespace so {

using pbt::Ctx;

inline PBT_THREAD_LOCAL int live_errors = 0, live_objs = 0;

template <class T, class P = rst::ErrorInfoBase>
using EI = rst::ErrorInfo<T, P>;

class ErrA : public EI<ErrA> {
 public:
  explicit ErrA(int id) : n(id), text_("error " + std::to_string(id)) { live_errors++; }
  ~ErrA() override { n = -77; live_errors--; }
  const std::string& AsString() const override { return text_; }
  static char id_;
  int n;
 private:
  std::string text_;
};
class ErrB : public EI<ErrB, ErrA> {
 public:
  explicit ErrB(int id) : EI<ErrB, ErrA>(id), pad(1000, 'b') {}
  static char id_;
  std::string pad;
};
inline char ErrA::id_ = 0;
inline char ErrB::id_ = 0;

// Move-only value that knows its lifetime.
struct Obj {
  explicit Obj(int v) : id(v), alive(0x600dcafe) { live_objs++; }
  Obj(Obj&& o) noexcept : id(o.id), alive(0x600dcafe) { o.check(); o.id = -1; live_objs++; }
  Obj& operator=(Obj&& o) noexcept { check(); o.check(); id = o.id; if (&o != this) o.id = -1; return *this; }
  ~Obj() { check(); alive = 0xdead; live_objs--; }
  void check() const { if (alive != 0x600dcafe) { fprintf(stderr, "Obj used outside its lifetime\n"); _exit(97); } }
  int id;
  uint32_t alive;
  // Large and over-aligned, so that placement matters.
  alignas(32) char pad[40] = {};
};

struct Pod { int a; double b; };

enum Kind { kStatus, kOrObj, kOrInt, kOrPtr, kOrPod, kOrString, kKinds };
inline const char* kind_name(int k) {
  static const char* const n[] = {"Status", "StatusOr<Obj>", "StatusOr<int>", "StatusOr<unique_ptr>", "StatusOr<Pod>", "StatusOr<string>"};
  return n[k];
}

template <class T> T make_value(int id);
template <> inline Obj make_value<Obj>(int id) { return Obj(id); }
template <> inline int make_value<int>(int id) { return id; }
template <> inline std::unique_ptr<Obj> make_value<std::unique_ptr<Obj>>(int id) { return std::make_unique<Obj>(id); }
template <> inline Pod make_value<Pod>(int id) { return Pod{id, id / 4.0}; }
template <> inline std::string make_value<std::string>(int id) { return std::string(size_t(id % 50), 'v') + std::to_string(id); }
inline int id_of(Obj& o) { o.check(); return o.id; }
inline int id_of(int& i) { return i; }
inline int id_of(std::unique_ptr<Obj>& p) { return p ? id_of(*p) : -2; }
inline int id_of(Pod& p) { return p.b == p.a / 4.0 ? p.a : -3; }
inline int id_of(std::string& s) { int n = atoi(s.c_str() + s.find_first_not_of('v')); return s == make_value<std::string>(n) ? n : -4; }

// Raw storage, so that destruction happens exactly when the history says so.
struct Slot {
  int kind = -1;  // -1: nothing constructed
  alignas(64) unsigned char mem[sizeof(rst::StatusOr<Obj>) + 64];
  // Model.
  bool moved = false, err = false, checked = false;
  int id = 0;
  const void* ptr = nullptr;  // identity of the error object
  template <class X> X& as() { return *std::launder(reinterpret_cast<X*>(mem)); }
  rst::Status& st() { return as<rst::Status>(); }
};

inline rst::Status make_err(int id) {
  if (id % 2) return rst::MakeStatus<ErrA>(id);
  return rst::MakeStatus<ErrB>(id);
}

inline rst::Status pass(rst::Status s) { return s; }
template <class T> rst::StatusOr<T> pass_or(rst::StatusOr<T> s) { return s; }
inline rst::Status pass_deep(rst::Status s, int n) { if (n == 0) return s; return pass_deep(std::move(s), n - 1); }
template <class T> rst::StatusOr<T> wrap(rst::Status s) { return s; }
template <class T> rst::StatusOr<T> wrap_value(T v) { return v; }

// Calls f(StatusOr<T>&) or f(Status&) with the slot's object.
template <class F>
auto visit(Slot& s, F&& f) {
  switch (s.kind) {
    case kStatus: return f(s.st());
    case kOrObj: return f(s.as<rst::StatusOr<Obj>>());
    case kOrInt: return f(s.as<rst::StatusOr<int>>());
    case kOrPtr: return f(s.as<rst::StatusOr<std::unique_ptr<Obj>>>());
    case kOrPod: return f(s.as<rst::StatusOr<Pod>>());
    default: return f(s.as<rst::StatusOr<std::string>>());
  }
}
template <class F>
void visit_or(Slot& s, F&& f) {
  switch (s.kind) {
    case kOrObj: f(s.as<rst::StatusOr<Obj>>(), static_cast<Obj*>(nullptr)); break;
    case kOrInt: f(s.as<rst::StatusOr<int>>(), static_cast<int*>(nullptr)); break;
    case kOrPtr: f(s.as<rst::StatusOr<std::unique_ptr<Obj>>>(), static_cast<std::unique_ptr<Obj>*>(nullptr)); break;
    case kOrPod: f(s.as<rst::StatusOr<Pod>>(), static_cast<Pod*>(nullptr)); break;
    default: f(s.as<rst::StatusOr<std::string>>(), static_cast<std::string*>(nullptr)); break;
  }
}
template <class F>
void with_type(int kind, F&& f) {
  switch (kind) {
    case kOrObj: f(static_cast<Obj*>(nullptr)); break;
    case kOrInt: f(static_cast<int*>(nullptr)); break;
    case kOrPtr: f(static_cast<std::unique_ptr<Obj>*>(nullptr)); break;
    case kOrPod: f(static_cast<Pod*>(nullptr)); break;
    default: f(static_cast<std::string*>(nullptr)); break;
  }
}

struct Op { int code, a, b, kind, id, how; };
enum Code { kCreateOk, kCreateErr, kFromStatus, kMoveNew, kMoveAssign, kAssignValue, kAssignStatus, kExamine, kIgnore, kRead, kTake, kDestroy, kCodes };
constexpr int kSlots = 5;

inline std::string show(const Op& o) {
  static const char* const n[] = {"create ok", "create error", "status-or from status", "move construct", "move assign", "assign value", "assign status", "examine", "ignore", "read", "take status", "destroy"};
  return pbt::strf("%s a=%d b=%d %s id=%d how=%d", n[o.code], o.a, o.b, kind_name(o.kind), o.id, o.how);
}

inline Op gen_op(Ctx& c, int n) {
  Op o;
  o.code = int(c.weighted({3, 3, 2, 3, 4, 2, 3, 6, 1, 4, 2, 3}));
  o.a = int(c.draw(kSlots));
  o.b = int(c.draw(kSlots));
  o.kind = int(c.draw(kKinds));
  o.id = n * 7 + int(c.draw(7)) + 1;
  o.how = int(c.draw(6));
  return o;
}

// What the model says about doing |o| now.
enum Verdict { kSkip, kLegal, kStops };
inline Verdict judge(const Slot* s, const Op& o) {
  const Slot &a = s[o.a], &b = s[o.b];
  const bool have_a = a.kind >= 0, have_b = b.kind >= 0;
  switch (o.code) {
    case kCreateOk: case kCreateErr: return have_a ? kSkip : kLegal;
    case kFromStatus:  // a := StatusOr<kind>(move(b)), b a Status with an error
      if (have_a || !have_b || b.kind != kStatus || b.moved || !b.err || o.kind == kStatus) return kSkip;
      return kLegal;
    case kMoveNew: return !have_a && have_b && !b.moved ? kLegal : kSkip;
    case kMoveAssign:
      if (!have_a || !have_b || o.a == o.b || a.kind != b.kind || b.moved) return kSkip;
      return a.checked ? kLegal : kStops;
    case kAssignValue:
      if (!have_a || a.kind == kStatus) return kSkip;
      return a.checked ? kLegal : kStops;
    case kAssignStatus:  // a (status-or or status) = error
      if (!have_a) return kSkip;
      return a.checked ? kLegal : kStops;
    case kExamine: case kIgnore: return have_a ? kLegal : kSkip;
    case kRead:
      if (!have_a || a.moved) return kSkip;
      if (a.kind == kStatus && !a.err) return kSkip;
      return a.checked ? kLegal : kStops;
    case kTake:  // b := move(a).TakeStatus()
      if (!have_a || have_b || a.kind == kStatus || a.moved || !a.err) return kSkip;
      return a.checked ? kLegal : kStops;
    case kDestroy:
      if (!have_a) return kSkip;
      return a.checked ? kLegal : kStops;
  }
  return kSkip;
}

inline const void* error_ptr(rst::Status& s) { return s.GetError().get(); }

// Does |o|; returns a complaint or the empty string.
inline std::string run(Slot* s, const Op& o) {
  Slot &a = s[o.a], &b = s[o.b];
  auto moved_from = [](Slot& x) { x.moved = true; x.checked = true; };
  auto copy_model = [](Slot& to, const Slot& from) { to.moved = false; to.err = from.err; to.checked = false; to.id = from.id; to.ptr = from.ptr; };
  std::string bad;
  switch (o.code) {
    case kCreateOk:
      a.kind = o.kind;
      if (o.kind == kStatus) {
        switch (o.how) {
          case 0: new (a.mem) rst::Status(rst::Status::OK()); break;
          case 1: new (a.mem) rst::Status(pass(rst::Status::OK())); break;
          default: new (a.mem) rst::Status(pass_deep(rst::Status::OK(), o.how)); break;
        }
      } else {
        with_type(o.kind, [&](auto* t) {
          using X = std::remove_pointer_t<decltype(t)>;
          switch (o.how) {
            case 0: new (a.mem) rst::StatusOr<X>(make_value<X>(o.id)); break;
            case 1: new (a.mem) rst::StatusOr<X>(pass_or<X>(make_value<X>(o.id))); break;
            case 2: { X v = make_value<X>(o.id); new (a.mem) rst::StatusOr<X>(std::move(v)); break; }
            case 3:
              if constexpr (std::is_trivially_copyable_v<X>) { const X v = make_value<X>(o.id); new (a.mem) rst::StatusOr<X>(v); break; }
              [[fallthrough]];
            default: new (a.mem) rst::StatusOr<X>(wrap_value<X>(make_value<X>(o.id))); break;
          }
        });
      }
      a.moved = false; a.err = false; a.checked = false; a.id = o.id; a.ptr = nullptr;
      break;
    case kCreateErr: {
      a.kind = o.kind;
      if (o.kind == kStatus) {
        if (o.how < 2) new (a.mem) rst::Status(make_err(o.id));
        else new (a.mem) rst::Status(pass_deep(make_err(o.id), o.how));
      } else {
        with_type(o.kind, [&](auto* t) {
          using X = std::remove_pointer_t<decltype(t)>;
          if (o.how < 2) new (a.mem) rst::StatusOr<X>(make_err(o.id));
          else if (o.how < 4) new (a.mem) rst::StatusOr<X>(wrap<X>(make_err(o.id)));
          else new (a.mem) rst::StatusOr<X>(pass_or<X>(make_err(o.id)));
        });
      }
      a.moved = false; a.err = true; a.checked = false; a.id = o.id; a.ptr = nullptr;
      break;
    }
    case kFromStatus:
      a.kind = o.kind;
      with_type(o.kind, [&](auto* t) {
        using X = std::remove_pointer_t<decltype(t)>;
        if (o.how < 3) new (a.mem) rst::StatusOr<X>(std::move(b.st()));
        else new (a.mem) rst::StatusOr<X>(pass_or<X>(std::move(b.st())));
      });
      copy_model(a, b);
      moved_from(b);
      break;
    case kMoveNew:
      a.kind = b.kind;
      visit(b, [&](auto& x) {
        using X = std::remove_reference_t<decltype(x)>;
        new (a.mem) X(std::move(x));
      });
      copy_model(a, b);
      moved_from(b);
      break;
    case kMoveAssign:
      visit(a, [&](auto& x) {
        using X = std::remove_reference_t<decltype(x)>;
        x = std::move(b.as<X>());
      });
      copy_model(a, b);
      moved_from(b);
      break;
    case kAssignValue:
      visit_or(a, [&](auto& x, auto* t) {
        using X = std::remove_pointer_t<decltype(t)>;
        switch (o.how) {
          case 0: x = make_value<X>(o.id); break;
          case 1: { X v = make_value<X>(o.id); x = std::move(v); break; }
          case 2: x = rst::StatusOr<X>(make_value<X>(o.id)); break;
          default:
            if constexpr (std::is_trivially_copyable_v<X>) { const X v = make_value<X>(o.id); x = v; }
            else x = make_value<X>(o.id);
        }
      });
      a.moved = false; a.err = false; a.checked = false; a.id = o.id; a.ptr = nullptr;
      break;
    case kAssignStatus:
      if (a.kind == kStatus) {
        const bool ok = o.how == 5;
        if (ok) a.st() = rst::Status::OK(); else a.st() = make_err(o.id);
        a.err = !ok;
        a.moved = false; a.checked = false; a.id = o.id; a.ptr = nullptr;
      } else if (o.how < 4) {
        visit_or(a, [&](auto& x, auto* t) {
          using X = std::remove_pointer_t<decltype(t)>;
          if (o.how < 3) x = make_err(o.id); else x = rst::StatusOr<X>(make_err(o.id));
        });
        a.moved = false; a.err = true; a.checked = false; a.id = o.id; a.ptr = nullptr;
      } else {
        // From an error Status slot, if there is one.
        Slot* from = nullptr;
        for (int i = 0; i < kSlots; i++) if (s[i].kind == kStatus && !s[i].moved && s[i].err) from = &s[i];
        if (from) {
          visit_or(a, [&](auto& x, auto*) { x = std::move(from->st()); });
          copy_model(a, *from);
          moved_from(*from);
        } else {
          visit_or(a, [&](auto& x, auto*) { x = make_err(o.id); });
          a.moved = false; a.err = true; a.checked = false; a.id = o.id; a.ptr = nullptr;
        }
      }
      break;
    case kExamine: {
      const bool e = visit(a, [&](auto& x) -> bool { return x.err(); });
      a.checked = true;
      if (!a.moved && e != a.err) bad = pbt::strf("err() is %d, expected %d", e, a.err);
      break;
    }
    case kIgnore:
      visit(a, [&](auto& x) { x.Ignore(); });
      a.checked = true;
      break;
    case kRead: {
      const rst::ErrorInfoBase* e = nullptr;
      int got = -9, got2 = -9;
      if (a.kind == kStatus) {
        e = a.st().GetError().get();
      } else if (a.err) {
        visit_or(a, [&](auto& x, auto*) { e = x.status().GetError().get(); });
      } else {
        visit_or(a, [&](auto& x, auto*) {
          if (o.how % 2 == 0) { got = id_of(*x); got2 = id_of(*x.operator->()); }
          else { got2 = id_of(*x.operator->()); got = id_of(*x); }
        });
      }
      if (a.err) {
        auto* ea = static_cast<const ErrA*>(e);
        if (a.ptr && a.ptr != e) bad = "the error object is not the one stored";
        else if (ea->n != a.id) bad = pbt::strf("error %d, expected %d", ea->n, a.id);
        else if (ea->AsString() != "error " + std::to_string(a.id)) bad = "wrong message";
        a.ptr = e;
      } else if (got != a.id || got2 != a.id) {
        bad = pbt::strf("value %d / %d, expected %d", got, got2, a.id);
      }
      break;
    }
    case kTake:
      b.kind = kStatus;
      visit_or(a, [&](auto& x, auto*) { new (b.mem) rst::Status(std::move(x).TakeStatus()); });
      copy_model(b, a);
      moved_from(a);
      break;
    case kDestroy: {
      visit(a, [&](auto& x) {
        using X = std::remove_reference_t<decltype(x)>;
        x.~X();
      });
      a.kind = -1;
      break;
    }
  }
  return bad;
}

}  // namespace so
#endif
