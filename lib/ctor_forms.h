// Ways of constructing an object through a function that forwards arguments.
#ifndef VERIF_LIB_CTOR_FORMS_H_
#define VERIF_LIB_CTOR_FORMS_H_

#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

namespace cf {

// Remembers which constructor built it, and that it was never moved or copied
// on the way unless the forwarder may do so.
struct Probe {
  std::string how;
  Probe() : how("none") {}
  explicit Probe(int a) : how(pbt::strf("int %d", a)) {}
  explicit Probe(double a) : how(pbt::strf("double %g", a)) {}
  explicit Probe(bool a) : how(pbt::strf("bool %d", a)) {}
  Probe(int a, int b) : how(pbt::strf("ints %d %d", a, b)) {}
  Probe(std::initializer_list<int> l) : how("list") { for (int i : l) how += pbt::strf(" %d", i); }
  explicit Probe(std::string& s) : how("lvalue " + s) { s += "!"; }
  explicit Probe(const std::string& s) : how("const " + s) {}
  explicit Probe(std::string&& s) : how("rvalue " + s) { s = "taken"; }
  explicit Probe(const char* s) : how(std::string("chars ") + (s ? s : "null")) {}
  explicit Probe(std::unique_ptr<int> p) : how(p ? pbt::strf("owner %d", *p) : "empty owner") {}
  Probe(int& a, const int& b, int&& d) : how(pbt::strf("refs %d %d %d", a, b, d)) { a++; d = 0; }
  Probe(std::nullptr_t, const void* p) : how(pbt::strf("null %d", p == nullptr)) {}
};

// |make| gets the arguments and returns Probe::how of what was built.
template <class Make>
void all_forms(pbt::Ctx& c, Make make) {
  const int a = int(c.range(-50, 50)), b = int(c.range(0, 9));
  const size_t form = c.draw(14);
  c.trace("form %zu with %d and %d\n", form, a, b);
  auto eq = [&](const std::string& got, const std::string& want) {
    PBT_CHECK(c, got == want, "constructed as '%s' instead of '%s'", got.c_str(), want.c_str());
  };
  std::string s = "s" + std::to_string(a);
  const std::string s0 = s;
  switch (form) {
    case 0: eq(make(), "none"); break;
    case 1: eq(make(a), pbt::strf("int %d", a)); break;
    case 2: eq(make(a, b), pbt::strf("ints %d %d", a, b)); break;
    case 3: eq(make(double(a) / 2), pbt::strf("double %g", double(a) / 2)); break;
    case 4: eq(make(b > 4), pbt::strf("bool %d", b > 4)); break;
    case 5: eq(make(s), "lvalue " + s0); eq(s, s0 + "!"); break;
    case 6: eq(make(std::as_const(s)), "const " + s0); eq(s, s0); break;
    case 7: eq(make(std::move(s)), "rvalue " + s0); eq(s, "taken"); break;
    case 8: eq(make(s.c_str()), "chars " + s0); break;
    case 9: eq(make(std::make_unique<int>(a)), pbt::strf("owner %d", a)); break;
    case 10: eq(make(std::unique_ptr<int>()), "empty owner"); break;
    case 11: {
      int x = a, z = b;
      eq(make(x, b, std::move(z)), pbt::strf("refs %d %d %d", a, b, b));
      eq(std::to_string(x) + " " + std::to_string(z), std::to_string(a + 1) + " 0");
      break;
    }
    case 12: eq(make(nullptr, static_cast<const void*>(&a)), "null 0"); break;
    default: eq(make(std::initializer_list<int>{a, b, a}), pbt::strf("list %d %d %d", a, b, a)); break;
  }
}

}  // namespace cf
#endif
