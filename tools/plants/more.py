CK = r'''
#include <cstdio>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s line %d\n", #x, __LINE__); return 1; } } while (0)
'''
FPM = r'''#pragma once
namespace fpm {
template <typename T1, typename T2, unsigned B>
class fixed {
 public:
  explicit fixed(double d) : raw_(static_cast<T1>(d * (1u << B))) {}
  explicit operator double() const { return static_cast<double>(raw_) / (1u << B); }
  T1 raw_value() const { return raw_; }
 private:
  T1 raw_;
};
}
'''
OS = "include/embedded/ostream_ops.h"
PLANTS = [
    dict(id="p01-zero-sign", property="P01", file=OS,
         edits=[("  os << z.real();\n  if (z.imag() >= 0) {\n    os << \"+\";\n  }\n  os << z.imag() << \"j\";", "  os << z.real();\n  // a negative number brings its own sign\n  if (z.imag() != 0 && !(z.imag() < 0)) {\n    os << \"+\";\n  }\n  os << z.imag() << \"j\";")],
         needs="a complex number whose imaginary part is zero", breaks="1+0j is printed as 10j",
         flags='-I"$here"', files={"fpm/fixed.hpp": FPM},
         demo=CK + r'''
#include <sstream>
#include <embedded/ostream_ops.h>
int main() {
  std::ostringstream a, b;
  a << embedded::cmath::complex<double>(1.0, 2.0);
  b << embedded::cmath::complex<double>(1.0);
  CHECK(a.str() == "1+2j");
  CHECK(b.str() == "1+0j");
  return 0;
}
'''),
    dict(id="m01-move-if-noexcept", property="M01", file="include/embedded/move_wrapper.h",
         edits=[("      : val_(std::move(other.val_)) {}", "      : val_(std::move_if_noexcept(other.val_)) {}")],
         needs="a wrapped type that can be copied and whose move constructor is not noexcept", breaks="moving the wrapper copies the value",
         demo=CK + r'''
#include <utility>
#include <embedded/move_wrapper.h>
struct T {
  int copies = 0, moves = 0;
  T() {}
  T(T const& o) : copies(o.copies + 1), moves(o.moves) {}
  T(T&& o) : copies(o.copies), moves(o.moves + 1) {}
};
int main() {
  embedded::move_wrapper<T> a{T()};
  embedded::move_wrapper<T> b(std::move(a));
  CHECK(b->copies == 0 && b->moves == 2);
  return 0;
}
'''),
    dict(id="l01-unlock-on-failure", property="L01", file="include/embedded/mutex.h",
         edits=[("""  explicit lock_guard(Mutex& m)
      : m_(m) {
    m_.lock();
  }
  ~lock_guard() { m_.unlock(); }
""", """  explicit lock_guard(Mutex& m)
      : lock_guard(m, 0) {
    m_.lock();
  }
  ~lock_guard() { m_.unlock(); }
"""), (" private:\n  Mutex& m_;", " private:\n  lock_guard(Mutex& m, int)\n      : m_(m) {}\n\n  Mutex& m_;")],
         needs="a mutex whose lock() throws", breaks="the delegating constructor makes the guard complete, so that unlock() is called for a lock that was never taken",
         demo=CK + r'''
#include <embedded/mutex.h>
struct M { int u = 0; void lock() { throw 1; } void unlock() { ++u; } };
int main() {
  M m;
  try { embedded::lock_guard<M> g(m); } catch (int) {}
  CHECK(m.u == 0);
  return 0;
}
'''),
    dict(id="v01-lone-bit", property="V01", file="include/embedded/varint.h",
         edits=[("      *it++ = 0x80 | (value & 0x7f);\n      value >>= 7;", "      *it++ = 0x80 | (value & 0x7f);\n      value >>= 7;\n      // a lone carry out of the low chunk is no payload\n      if (sizeof(T) > 4 && value == T{1} << (8 * sizeof(T) - 14)) {\n        value = 0;\n      }")],
         needs="a 64-bit value with bit 57 set and no other bit above bit 6", breaks="its encoding loses the top bit",
         demo=CK + r'''
#include <cstdint>
#include <iterator>
#include <vector>
#include <embedded/varint.h>
int main() {
  std::vector<std::uint8_t> b;
  std::uint64_t v = (std::uint64_t(1) << 57) | 5;
  embedded::varint::encode(v, std::back_inserter(b));
  std::uint64_t w = 0;
  CHECK(embedded::varint::decode(w, b.begin(), b.end()) == b.end() && w == v);
  return 0;
}
'''),
    dict(id="d01-name-limit", property="D01", file="include/embedded/signal/detail/debug_filter_coefs.h",
         edits=[("                sizeof(filter_debug_header::name) - 1, S)>{}) {}", "                sizeof(filter_debug_header::name) - sizeof(length), S)>{}) {}")],
         needs="a name of 118 characters or more", breaks="the last character of the name that fits is dropped",
         flags="-std=c++17",
         demo=CK + r'''
#include <cstring>
#include <embedded/signal/detail/debug_filter_coefs.h>
namespace dt = embedded::signal::detail;
#define A10 "0123456789"
int main() {
  char const n[] = A10 A10 A10 A10 A10 A10 A10 A10 A10 A10 A10 "abcdefgh";
  static_assert(sizeof(n) == 119, "");
  dt::filter_debug_header h(128, dt::filter_debug_structure::POLY, dt::filter_debug_value_type::FLOAT, n);
  CHECK(std::strcmp(h.name, n) == 0);
  return 0;
}
'''),
    dict(id="x06-divide-functor", property="X06", file="include/embedded/constexpr_math/vector.h",
         edits=[("""  template <typename T>
  constexpr auto operator()(T const& v) const noexcept -> T {
    return v / x_;
  }""", """  template <typename T>
  auto operator()(T const& v) const noexcept -> T {
    return v / x_;
  }""")],
         needs="dividing a vector by a number in a constant expression", breaks="vector / number is no longer a constant expression",
         demo=CK + r"""
#include <embedded/constexpr_math/vector.h>
namespace cm = embedded::cmath;
constexpr cm::vector<double, 2> v = cm::vector<double, 2>{1.0, 3.0} / 2.0;
static_assert(v[1] == 1.5, "");
int main() { CHECK(v[0] == 0.5); return 0; }
"""),
]
