V = "include/embedded/varint.h"
FN = "include/embedded/function.h"
CK = r'''
#include <cstdio>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s line %d\n", #x, __LINE__); return 1; } } while (0)
'''
VH = CK + r'''
#include <cstdint>
#include <vector>
#include <iterator>
#include <limits>
#include <embedded/varint.h>
using embedded::varint;
'''
FH = CK + r'''
#include <functional>
#include <utility>
#include <stdexcept>
#include <embedded/function.h>
using embedded::function;
'''
PLANTS = [
    dict(id="v02-size-threshold", property="V02", file=V,
         edits=[("    return value < 128 ? 1 : 1 + size<T>(value >> 7);",
                 "    // anything up to 36 bits is common, avoid most of the recursion for it\n    return value < 128                                  ? 1\n           : sizeof(T) > 4 && value >> 16 >> 12 == 128 ? 5\n                                                        : 1 + size<T>(value >> 7);")],
         needs="a 64-bit value between 2^35 and 2^35 + 2^28 - 1",
         breaks="size() returns 5 for values whose encoding has 6 bytes",
         demo=VH + r'''
int main() {
  std::uint64_t v = (std::uint64_t(1) << 35) + 12345;
  std::vector<std::uint8_t> b;
  varint::encode(v, std::back_inserter(b));
  CHECK(b.size() == varint::size(v));
  return 0;
}
'''),
    dict(id="v04-single-overflow-bit", property="V04", file=V,
         edits=[("(byte >> (type_bits - shift)) != 0) {", "(byte & (1 << (type_bits - shift))) != 0) {")],
         needs="an encoding of a value that exceeds the target type by two or more bits, leaving the lowest excess bit clear",
         breaks="decode accepts encodings the type cannot represent and drops their top bits",
         demo=VH + r'''
int main() {
  std::uint8_t ok[2] = {0x80, 0x01}, bad[2] = {0x80, 0x04};
  std::uint8_t v = 0;
  CHECK(varint::decode(v, ok + 0, ok + 2) == ok + 2 && v == 128);
  CHECK(varint::decode(v, bad + 0, bad + 2) == bad + 0);
  return 0;
}
'''),
    dict(id="v03-short-buffer", property="V03", file=V,
         edits=[("      *it++ = static_cast<uint8_t>(value);\n      return it;\n    }\n\n    return begin;", "      *it++ = static_cast<uint8_t>(value);\n      return it;\n    }\n\n    // out of space: one more byte was needed\n    return value < 128 ? begin : it;")],
         needs="a buffer that is at least two bytes too short",
         breaks="encode returns the end of the buffer instead of begin although the encoding does not fit",
         demo=VH + r'''
int main() {
  std::uint8_t b[3] = {0, 0, 0};
  CHECK(varint::encode(16384u, b + 0, b + 3) == b + 3);
  CHECK(varint::encode(16384u, b + 0, b + 2) == b + 0);
  CHECK(varint::encode(16384u, b + 0, b + 1) == b + 0);
  return 0;
}
'''),
    dict(id="v05-negate-min", property="V05", file=V,
         edits=[("    return static_cast<S>((value >> 1) ^ -(value & 1));", "    return value & 1 ? -static_cast<S>((value >> 1) + 1) : static_cast<S>(value >> 1);")],
         needs="decoding the most negative value of int or a wider type",
         breaks="the decoded value is computed by negating the minimum: signed overflow, undefined (and not a constant expression)",
         flags="-std=c++17 -O2 -fsanitize=undefined -fno-sanitize-recover=all",
         demo=VH + r'''
int main() {
  volatile unsigned m = 0xffffffffu, n = 1;
  CHECK(varint::zig_zag_decode(unsigned(n)) == -1);
  CHECK(varint::zig_zag_decode(unsigned(m)) == std::numeric_limits<int>::min());
  return 0;
}
'''),
    dict(id="f01-empty-class-skip", property="F01", file=FN,
         edits=[("      static_cast<T*>(src)->~T();", "      // nothing to clean up in objects without state\n      if (!std::is_empty<T>::value) {\n        static_cast<T*>(src)->~T();\n      }")],
         needs="a stateless callable with a non-trivial destructor",
         breaks="the callable's destructor never runs",
         demo=FH + r'''
static int live = 0;
struct E {
  E() { ++live; }
  E(E&&) noexcept { ++live; }
  E(E const&) { ++live; }
  ~E() { --live; }
  int operator()() const { return 3; }
};
int main() {
  {
    function<int()> f{E()};
    CHECK(f() == 3 && live == 1);
    function<int()> g(std::move(f));
    CHECK(live == 1);
  }
  CHECK(live == 0);
  return 0;
}
'''),
    dict(id="f01-nullptr-leak", property="F01", file=FN,
         edits=[("  function& operator=(std::nullptr_t) noexcept {\n    *this = function();\n    return *this;", "  function& operator=(std::nullptr_t) noexcept {\n    vtbl_ = &empty_vtbl::value;\n    return *this;")],
         needs="assigning nullptr to a wrapper whose callable has a non-trivial destructor",
         breaks="the callable is abandoned without being destroyed",
         demo=FH + r'''
static int live = 0;
struct E {
  int v = 1;
  E() { ++live; }
  E(E&&) noexcept { ++live; }
  ~E() { --live; }
  int operator()() const { return v; }
};
int main() {
  function<int()> f{E()};
  CHECK(live == 1);
  f = nullptr;
  CHECK(!f && live == 0);
  return 0;
}
'''),
    dict(id="f02-null-member", property="F02", file=FN,
         edits=[("      *this = std::mem_fn(pm);\n    } else {\n      *this = function();\n    }\n    return *this;", "      *this = std::mem_fn(pm);\n    }\n    return *this;")],
         needs="assigning a null pointer to member to a wrapper that holds a callable",
         breaks="the wrapper keeps its previous callable and tests true",
         demo=FH + r'''
struct S { int f() { return 1; } };
int main() {
  function<int(S&)> f;
  f = &S::f;
  S s;
  CHECK(f(s) == 1);
  int (S::*p)() = nullptr;
  f = p;
  CHECK(!f);
  return 0;
}
'''),
    dict(id="f04-size-of-wrapper", property="F04", file=FN,
         edits=[("    static_assert(sizeof(C) <= Capacity,", "    static_assert(sizeof(C) <= sizeof(*this),")],
         needs="a callable larger than the capacity by no more than the wrapper's own pointer",
         breaks="callables that do not fit are accepted and overwrite what follows the wrapper",
         run='''printf '#include <embedded/function.h>\\nstruct C { char a[%s]; int operator()() const { return 1; } };\\nvoid use() { embedded::function<int(), 16> f{C()}; (void)f; }\\n' 16 > "$tmp/a.cpp"
printf '#include <embedded/function.h>\\nstruct C { char a[%s]; int operator()() const { return 1; } };\\nvoid use() { embedded::function<int(), 16> f{C()}; (void)f; }\\n' 17 > "$tmp/b.cpp"
g++ -std=c++17 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp" || exit 1
if g++ -std=c++17 -fsyntax-only -I"$PWD/include" "$tmp/b.cpp" 2>/dev/null; then echo "too large a callable was accepted"; exit 1; fi
exit 0
'''),
    dict(id="f05-const-overload", property="F05", file=FN,
         edits=[("  Return operator()(Args... args) {\n    auto fn = static_cast<Function*>(this);", "  Return operator()(Args... args) const {\n    auto fn = static_cast<Function const*>(this);")],
         needs="a const wrapper of a non-const signature",
         breaks="a wrapper with a non-const signature can be called through a const reference",
         run='''cat > "$tmp/a.cpp" <<'E'
#include <embedded/function.h>
#include <type_traits>
#include <utility>
template <typename F, typename = void> struct callable : std::false_type {};
template <typename F> struct callable<F, decltype(std::declval<F>()(), void())> : std::true_type {};
static_assert(callable<embedded::function<int()>&>::value, "");
static_assert(callable<embedded::function<int() const> const&>::value, "");
static_assert(!callable<embedded::function<int()> const&>::value, "");
E
g++ -std=c++14 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp"
'''),
    dict(id="f03-args-by-lvalue", property="F03", file=FN,
         edits=[("  Return operator()(Args... args) const {\n    auto fn = static_cast<Function const*>(this);\n    return fn->vtbl_->call(std::addressof(fn->storage_),\n                           std::forward<Args>(args)...);",
                 "  Return operator()(Args... args) const {\n    auto fn = static_cast<Function const*>(this);\n    // keep the caller's arguments alive for the whole call\n    return fn->vtbl_->call(std::addressof(fn->storage_),\n                           static_cast<Args>(args)...);")],
         needs="a const signature with a by-value parameter of a copyable class type",
         breaks="by-value arguments are copied on the way to the callable",
         demo=FH + r'''
static int copies = 0;
struct A {
  A() {}
  A(A const&) { ++copies; }
  A(A&&) noexcept {}
};
int main() {
  function<int(A) const> f{[](A&&) { return 2; }};
  CHECK(f(A()) == 2);
  CHECK(copies == 0);
  return 0;
}
'''),
    dict(id="m02-copy-trait", property="M02", file="include/embedded/move_wrapper.h",
         edits=[("  move_wrapper(move_wrapper const& other) noexcept(\n      std::is_nothrow_move_constructible<T>::value)", "  move_wrapper(move_wrapper const& other) noexcept(\n      std::is_nothrow_copy_constructible<T>::value)")],
         needs="a type whose copy constructor is noexcept but whose move constructor may throw",
         breaks="copying the wrapper is noexcept although it moves: a throwing move terminates the program",
         demo=CK + r'''
#include <embedded/move_wrapper.h>
#include <utility>
#include <cstdlib>
#include <exception>
struct T {
  bool t = false;
  T() {}
  T(T const& o) noexcept : t(o.t) {}
  T(T&& o) : t(o.t) { if (t) throw 1; }
};
int main() {
  std::set_terminate([] { std::puts("terminated"); std::_Exit(3); });
  embedded::move_wrapper<T> a{T()};
  (*a).t = true;
  try {
    embedded::move_wrapper<T> b(a);
    return 2;
  } catch (int) {
  }
  return 0;
}
'''),
    dict(id="l01-movable", property="L01", file="include/embedded/mutex.h",
         edits=[("  lock_guard(lock_guard const&) = delete;\n", "  lock_guard(lock_guard&& other)\n      : m_(other.m_) {}\n  lock_guard(lock_guard const&) = delete;\n")],
         needs="moving a guard",
         breaks="both guards unlock the mutex: it is unlocked early and twice",
         run='''cat > "$tmp/a.cpp" <<'E'
#include <embedded/mutex.h>
#include <type_traits>
struct M { void lock() {} void unlock() {} };
static_assert(!std::is_move_constructible<embedded::lock_guard<M>>::value, "");
static_assert(!std::is_copy_constructible<embedded::lock_guard<M>>::value, "");
static_assert(std::is_constructible<embedded::lock_guard<M>, M&>::value, "");
E
g++ -std=c++14 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp"
'''),
    dict(id="t01-size-type", property="T01", file="include/embedded/utility/integer_sequence.h",
         edits=[("  static constexpr std::size_t size() { return sizeof...(Ints); }", "  static constexpr value_type size() {\n    return static_cast<value_type>(sizeof...(Ints));\n  }")],
         needs="a sequence of a narrow type with more elements than the type can count",
         breaks="size() is reported in the value type and wraps (and has the wrong type)",
         demo=CK + r'''
#include <embedded/utility/integer_sequence.h>
int main() {
  using S = embedded::make_integer_range<signed char, -100, 100>;
  CHECK(S::size() == 200u);
  return 0;
}
'''),
    dict(id="t02-nonbool-value", property="T02", file="include/embedded/type_traits/conjunction.h",
         edits=[("    : std::conditional<bool(T1::value), conjunction<Tn...>, T1>::type {};", "    : std::conditional<T1::value == true, conjunction<Tn...>, T1>::type {};")],
         needs="a trait whose value is an integer other than 0 and 1",
         breaks="conjunction stops at a true trait and leaves the remaining ones out",
         demo=CK + r'''
#include <embedded/type_traits/conjunction.h>
int main() {
  using two = std::integral_constant<int, 2>;
  CHECK((embedded::conjunction<std::true_type, std::false_type>::value == false));
  CHECK(bool(embedded::conjunction<two, std::false_type>::value) == bool(std::conjunction<two, std::false_type>::value));
  return 0;
}
'''),
    dict(id="t02-lvalue-args", property="T02", file="include/embedded/type_traits/is_invocable.h",
         edits=[("struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),\n                                    void()),\n                           void, Fn, Args...> : std::true_type {};", "struct is_invocable_helper<decltype(std::declval<Fn&>()(std::declval<Args>()...),\n                                    void()),\n                           void, Fn, Args...> : std::true_type {};")],
         needs="C++11/14 and an rvalue function object callable only as an lvalue (or the reverse), result void",
         breaks="is_invocable_r answers for an lvalue function object instead of the given value category",
         flags="-std=c++14",
         demo=CK + r'''
#include <embedded/type_traits/is_invocable.h>
struct R { void operator()() &&; };
struct L { void operator()() &; };
int main() {
  CHECK((embedded::is_invocable_r<void, R>::value));
  CHECK(!(embedded::is_invocable_r<void, L>::value));
  CHECK((embedded::is_invocable_r<void, L&>::value));
  return 0;
}
'''),
    dict(id="c01-cxx14-only", property="C01", file=V,
         edits=[("  static constexpr std::size_t size(T value) {\n    return size(zig_zag_encode(value));\n  }", "  static constexpr auto size(T value) {\n    return size(zig_zag_encode(value));\n  }")],
         needs="compiling for C++11",
         breaks="varint.h no longer compiles in C++11",
         run='''printf '#include <embedded/varint.h>\\nstd::size_t f(int v) { return embedded::varint::size(v); }\\n' > "$tmp/a.cpp"
g++ -std=c++17 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp" || exit 1
g++ -std=c++11 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp"
'''),
    dict(id="c04-scratch", property="C04", file="include/embedded/signal/sos.h",
         edits=[("    value_type const y = b0_ * x + state.y1;", "    // keep the accumulator out of the stack frame on small targets\n    static value_type y;\n    y = b0_ * x + state.y1;")],
         needs="two filters running at the same time, one of them in an interrupt handler or another thread",
         breaks="all filters of a sample type share one accumulator: a filter that is interrupted by another one continues with that one's value",
         flags="-std=c++17 -O1",
         demo=CK + r'''
#include <embedded/signal/butterworth.h>
#include <embedded/signal/filter.h>
namespace sg = embedded::signal;
// a sample type through which the interruption is made to happen at one point
struct S;
static void (*irq)() = nullptr;
struct S {
  double v = 0;
  S() = default;
  constexpr S(double x) : v(x) {}
  constexpr operator double() const { return v; }
};
static S operator*(S const& a, S const& b) { return S(a.v * b.v); }
static S operator+(S const& a, S const& b) { return S(a.v + b.v); }
static int n = 0;
static S operator-(S const& a, S const& b) {
  if (irq && ++n == 3) { auto f = irq; irq = nullptr; f(); }
  return S(a.v - b.v);
}
static constexpr auto flt = sg::iirfilter<double>(1000.0);
static constexpr auto des = flt.lowpass(sg::butterworth<4>(), 100.0).sos<S>();
static double other = 0;
static sg::sos_instance<S, 4>* two;
int main() {
  double ref[8], got[8];
  { auto a = des.instance(); for (int i = 0; i < 8; ++i) ref[i] = a(S(i == 0)); }
  auto a = des.instance();
  auto b = des.instance();
  two = &b;
  n = 0;
  irq = [] { other = (*two)(S(100.0)); };
  for (int i = 0; i < 8; ++i) got[i] = a(S(i == 0));
  for (int i = 0; i < 8; ++i) CHECK(ref[i] == got[i]);
  return 0;
}
'''),
    dict(id="c02-temporary-copy", property="C02", file="include/embedded/circular_buffer_adapter.h",
         edits=[("#include <cstring>\n", "#include <cstring>\n#include <vector>\n"),
                ("    copy_in(first.it_, data, last - first);", "    if (last - first > 1 && index(first.it_) > index((last - 1).it_)) {\n      // cannot happen for a valid range\n      return;\n    }\n    if (first.it_ + (last - first) > end_) {\n      // data may point into this buffer, which would be overwritten in two steps\n      std::vector<value_type> tmp(data, data + (last - first));\n      copy_in(first.it_, tmp.data(), last - first);\n      return;\n    }\n    copy_in(first.it_, data, last - first);")],
         needs="copy_in over a range of elements that wraps around",
         breaks="copy_in allocates a temporary buffer for ranges that wrap around",
         demo=CK + r'''
#include <cstdlib>
#include <new>
#include <embedded/circular_buffer_adapter.h>
static int news = 0;
void* operator new(std::size_t n) { ++news; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  int mem[6] = {1, 2, 3, 4, 5, 6}, src[4] = {7, 8, 9, 10};
  embedded::circular_buffer_adapter<int> b(mem, 6, 4, 5);
  b.copy_in(b.begin(), b.begin() + 4, src);
  CHECK(b[0] == 7 && b[3] == 10);
  CHECK(news == 0);
  return 0;
}
'''),
    dict(id="c03-swallow", property="C03", file="include/embedded/mutex.h",
         edits=[("#pragma once\n", "#pragma once\n\n#include \"config.h\"\n"),
                ("  ~lock_guard() { m_.unlock(); }\n", "#if LIBEMB_HAS_EXCEPTIONS\n  ~lock_guard() {\n    // destructors must not throw\n    try {\n      m_.unlock();\n    } catch (...) {\n    }\n  }\n#else\n  ~lock_guard() { m_.unlock(); }\n#endif\n")],
         needs="a mutex whose unlock() reports an error by throwing",
         breaks="the failure to unlock is swallowed and the program carries on with the mutex locked",
         demo=CK + r'''
#include <embedded/mutex.h>
#include <cstdlib>
#include <exception>
struct M {
  void lock() {}
  void unlock() { throw 1; }
};
int main() {
  // unlock() throws out of a destructor: the program ends here
  std::set_terminate([] { std::_Exit(0); });
  M m;
  { embedded::lock_guard<M> g(m); }
  std::puts("the exception was swallowed");
  return 1;
}
'''),
]
