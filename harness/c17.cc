// C17: casts of error objects follow the declared class tree.
#include "rst/files/file_utils.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_or.h"
#include "pbt.h"
using pbt::Ctx;

namespace {
using Base = rst::ErrorInfoBase;

// A tree of error classes: node I with parent class P.
template <int I, class P>
class E : public rst::ErrorInfo<E<I, P>, P> {
 public:
  using rst::ErrorInfo<E<I, P>, P>::ErrorInfo;
  explicit E(int n) : text_("e" + std::to_string(n)) {}
  E() : text_("e") {}
  const std::string& AsString() const override { return text_; }
  static char id_;
 private:
  std::string text_;
};
template <int I, class P> char E<I, P>::id_ = 0;

using C0 = E<0, Base>;
using C1 = E<1, C0>;
using C2 = E<2, C1>;
using C3 = E<3, C2>;
using C4 = E<4, C3>;
using C5 = E<5, C4>;
using C6 = E<6, C5>;
using C7 = E<7, C1>;
using C8 = E<8, C7>;
using C9 = E<9, C7>;
using C10 = E<10, C0>;
using C11 = E<11, C10>;
using C12 = E<12, Base>;
using C13 = E<13, C12>;
using C14 = E<14, C13>;
using C15 = E<15, C12>;
using C16 = E<16, Base>;
using C17 = E<17, C16>;
using C18 = E<18, C2>;
using C19 = E<19, C5>;
// 20 FileError, 21 FileOpenError, 22 LogError, 23 a user class below FileError.
class UserFileError : public rst::ErrorInfo<UserFileError, rst::FileError> {
 public:
  explicit UserFileError(std::string&& m) : ErrorInfo(std::move(m)) {}
  static char id_;
};
char UserFileError::id_ = 0;

// 24 and 26: classes with other bases in front of and behind the error base,
// so that the object and its parts have different addresses; 25: below 24.
struct Mixin {
  virtual ~Mixin() = default;
  virtual int mixed() const { return 77; }
  long pad[3] = {1, 2, 3};
};
struct Plain { char c[5] = {'a', 'b', 'c', 'd', 'e'}; };
class C24 : public Mixin, public rst::ErrorInfo<C24, C1> {
 public:
  C24() : ErrorInfo(24) {}
  static char id_;
  int own = 2424;
};
char C24::id_ = 0;
class C25 : public Plain, public rst::ErrorInfo<C25, C24> {
 public:
  static char id_;
  int more = 2525;
};
char C25::id_ = 0;
class C26 : public Plain, public Mixin, public rst::ErrorInfo<C26> {
 public:
  static char id_;
  const std::string& AsString() const override { return text; }
  std::string text = "26";
};
char C26::id_ = 0;

constexpr int kClasses = 27;
const int kParent[kClasses] = {-1, 0, 1, 2, 3, 4, 5, 1, 7, 7, 0, 10, -1, 12, 13, 12, -1, 16, 2, 5, -1, 20, -1, 20, 1, 24, -1};

bool derived(int cls, int from) {
  for (int k = cls; k >= 0; k = kParent[k]) if (k == from) return true;
  return false;
}

template <class T>
rst::Status make() {
  if constexpr (std::is_constructible_v<T, std::string&&>) return rst::MakeStatus<T>(std::string("m"));
  else return rst::MakeStatus<T>();
}
using Make = rst::Status (*)();
const Make kMake[kClasses] = {make<C0>, make<C1>, make<C2>, make<C3>, make<C4>, make<C5>, make<C6>, make<C7>, make<C8>, make<C9>, make<C10>, make<C11>, make<C12>,
                              make<C13>, make<C14>, make<C15>, make<C16>, make<C17>, make<C18>, make<C19>, make<rst::FileError>, make<rst::FileOpenError>, make<rst::LogError>, make<UserFileError>, make<C24>, make<C25>, make<C26>};

struct Answer { bool yes; bool same; };
// All ways of asking whether *p is a T; -1 if they disagree.
template <class T>
std::string ask(const Base* p, bool want, bool exact) {
  Base* q = const_cast<Base*>(p);
  auto judge = [&](const char* how, const void* r) -> std::string {
    const bool yes = r != nullptr;
    if (yes != want) return std::string(how) + (yes ? " succeeds" : " fails");
    if (yes && r != static_cast<const void*>(static_cast<const T*>(p))) return std::string(how) + " yields another object";
    return "";
  };
  std::string e;
  if (e.empty()) e = judge("cast of const pointer", rst::dyn_cast<T>(p).get());
  if (e.empty()) e = judge("cast of pointer", rst::dyn_cast<T>(q).get());
  if (e.empty()) e = judge("cast of const not-null", rst::dyn_cast<T>(rst::NotNull<const Base*>(p)).get());
  if (e.empty()) e = judge("cast of not-null", rst::dyn_cast<T>(rst::NotNull<Base*>(q)).get());
  if (e.empty() && p->IsA<T>() != want) e = "class test by type";
  if (e.empty() && p->IsA(T::GetClassID()) != want) e = "class test by id";
  if (e.empty() && (p->GetDynamicClassID() == T::GetClassID()) != exact) e = "comparison of class ids";
  return e;
}
using Ask = std::string (*)(const Base*, bool, bool);
const Ask kAsk[kClasses] = {ask<C0>, ask<C1>, ask<C2>, ask<C3>, ask<C4>, ask<C5>, ask<C6>, ask<C7>, ask<C8>, ask<C9>, ask<C10>, ask<C11>, ask<C12>, ask<C13>,
                            ask<C14>, ask<C15>, ask<C16>, ask<C17>, ask<C18>, ask<C19>, ask<rst::FileError>, ask<rst::FileOpenError>, ask<rst::LogError>, ask<UserFileError>, ask<C24>, ask<C25>, ask<C26>};

std::string ask_all(const Base* p, int cls) {
  for (int k = 0; k < kClasses; k++) {
    auto e = kAsk[k](p, derived(cls, k), cls == k);
    if (!e.empty()) return pbt::strf("object of class %d asked for class %d: ", cls, k) + e;
  }
  if (!p->IsA<Base>() || rst::dyn_cast<Base>(p).get() != p) return "not an error at all";
  return "";
}
}  // namespace

SCENARIO(class_matrix, 1, 1, false, "every object class against every target class and way of asking, enumerated (27 x 27 x 7); non-trivial: always") {
  c.nontrivial();
  for (int k = 0; k < kClasses; k++) {
    auto s = kMake[k]();
    PBT_CHECK(c, s.err(), "not an error");
    auto e = ask_all(s.GetError().get(), k);
    PBT_CHECK(c, e.empty(), "%s", e.c_str());
  }
}

SCENARIO(after_moves, 60000, 1500000, false,
         "error objects of random classes moved through random chains of statuses and status-ors, asked in between; non-trivial: two or more moves of a derived class") {
  int n = int(c.size(1, 4));
  std::vector<rst::Status> pool;
  pool.reserve(4);
  std::vector<int> cls;
  std::vector<const Base*> ptr;
  for (int i = 0; i < n; i++) {
    cls.push_back(int(c.draw(kClasses)));
    pool.push_back(kMake[cls.back()]());
    (void)pool.back().err();
    ptr.push_back(pool.back().GetError().get());
    c.trace("status %d: class %d\n", i, cls.back());
  }
  size_t ops = c.size(1, 10), moves = 0;
  auto asks = [&](int i) {
    auto* p = pool[size_t(i)].GetError().get();
    PBT_CHECK(c, p == ptr[size_t(i)], "the error object changed");
    for (int k = 0; k < 6; k++) {
      int t = int(c.draw(kClasses));
      auto e = kAsk[t](p, derived(cls[size_t(i)], t), cls[size_t(i)] == t);
      PBT_CHECK(c, e.empty(), "object of class %d asked for class %d after %zu moves: %s", cls[size_t(i)], t, moves, e.c_str());
    }
  };
  for (size_t k = 0; k < ops; k++) {
    size_t i = c.draw(uint64_t(n)), j = c.draw(uint64_t(n));
    switch (c.draw(4)) {
      case 0: { rst::Status t = std::move(pool[i]); pool[i] = std::move(t); (void)pool[i].err(); moves += 2; break; }
      case 1: { rst::StatusOr<int> so = std::move(pool[i]); PBT_CHECK(c, so.err(), "lost"); auto* p = so.status().GetError().get();
                auto e = ask_all(p, cls[i]); PBT_CHECK(c, e.empty(), "%s", e.c_str());
                pool[i] = std::move(so).TakeStatus(); (void)pool[i].err(); moves += 2; break; }
      case 2: { if (i == j) break; std::swap(pool[i], pool[j]); (void)pool[i].err(); (void)pool[j].err(); std::swap(cls[i], cls[j]); std::swap(ptr[i], ptr[j]); moves++; break; }
      default: asks(int(i)); break;
    }
    c.trace("op on %zu, %zu\n", i, j);
  }
  for (int i = 0; i < n; i++) { asks(i); if (moves >= 2 && kParent[cls[size_t(i)]] >= 0) c.nontrivial(); }
}

SCENARIO(library_errors, 200, 4000, false, "errors returned by the file functions for missing files and directories: class, casts; non-trivial: always") {
  c.nontrivial();
  std::string dir = pbt::scratch();
  std::string path = dir + "/none" + std::to_string(c.draw(1000)) + "/x";
  c.trace("%s\n", path.c_str());
  auto s = rst::WriteFile(path.c_str(), "x");
  PBT_CHECK(c, s.err(), "write into a missing directory succeeded");
  auto e = ask_all(s.GetError().get(), 21);
  PBT_CHECK(c, e.empty(), "write: %s", e.c_str());
  auto r = rst::ReadFile(path);
  PBT_CHECK(c, r.err(), "read of a missing file succeeded");
  e = ask_all(r.status().GetError().get(), 21);
  PBT_CHECK(c, e.empty(), "read: %s", e.c_str());
  auto d = rst::ReadFile(dir);
  PBT_CHECK(c, d.err(), "read of a directory succeeded");
  e = ask_all(d.status().GetError().get(), 20);
  PBT_CHECK(c, e.empty(), "directory: %s", e.c_str());
}

SCENARIO(threads, 300, 10000, false,
         "2 to 4 threads at the same time, each with cases of its own of after_moves; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  pbt::in_threads(c, 8, [](Ctx& t) {
    scenario_after_moves(t);
  });
}

SCENARIO(shared, 200, 6000, false,
         "one error object of every class that 2 to 4 threads ask about at the same time; data races found by TSan; non-trivial: always") {
  c.nontrivial();
  std::vector<rst::Status> all;
  all.reserve(kClasses);
  for (int k = 0; k < kClasses; k++) all.push_back(kMake[k]());
  for (auto& s : all) (void)s.err();
  pbt::in_threads_i(c, 6, [&](Ctx& t, int) {
    const int k = int(t.draw(kClasses));
    auto e = ask_all(all[size_t(k)].GetError().get(), k);
    PBT_CHECK(t, e.empty(), "%s", e.c_str());
  });
}
