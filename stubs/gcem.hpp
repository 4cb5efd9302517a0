// Stand-in with gcem's interface (the real library is a submodule that is not
// available here): same names, same result types, values by the C library.
#pragma once
#include <math.h>
#include <type_traits>

namespace gcem {
template <typename T>
using return_t = typename std::conditional<std::is_integral<T>::value, double, T>::type;
template <typename... T>
using common_t = typename std::common_type<T...>::type;
template <typename... T>
using common_return_t = return_t<common_t<T...>>;
namespace stub {
#define STUB_1(n)                                                         \
  inline float n(float x) noexcept { return ::n##f(x); }                  \
  inline double n(double x) noexcept { return ::n(x); }                   \
  inline long double n(long double x) noexcept { return ::n##l(x); }
#define STUB_2(n)                                                                          \
  inline float n(float x, float y) noexcept { return ::n##f(x, y); }                       \
  inline double n(double x, double y) noexcept { return ::n(x, y); }                       \
  inline long double n(long double x, long double y) noexcept { return ::n##l(x, y); }
#define ALL_1(X) X(acos) X(acosh) X(asin) X(asinh) X(atan) X(atanh) X(ceil) X(cos) X(cosh) X(erf) X(exp) X(expm1) X(floor) \
  X(lgamma) X(log) X(log10) X(log1p) X(log2) X(round) X(sin) X(sinh) X(sqrt) X(tan) X(tanh) X(tgamma) X(trunc)
ALL_1(STUB_1)
STUB_2(pow) STUB_2(fmod) STUB_2(copysign) STUB_2(atan2)
} // namespace stub
#define GCEM_1(n)                                        \
  template <typename T>                                  \
  constexpr return_t<T> n(T const x) noexcept {          \
    return stub::n(static_cast<return_t<T>>(x));         \
  }
ALL_1(GCEM_1)
#define GCEM_2(n)                                                                                               \
  template <typename A, typename B>                                                                             \
  constexpr common_return_t<A, B> n(A const x, B const y) noexcept {                                            \
    return stub::n(static_cast<common_return_t<A, B>>(x), static_cast<common_return_t<A, B>>(y));               \
  }
GCEM_2(pow) GCEM_2(atan2)
template <typename T>
constexpr T fmod(T const x, T const y) noexcept { return stub::fmod(x, y); }
template <typename T>
constexpr T copysign(T const x, T const y) noexcept { return stub::copysign(x, y); }
template <typename T>
constexpr T abs(T const x) noexcept { return x == T(0) ? T(0) : x < T(0) ? -x : x; }
template <typename T>
constexpr bool signbit(T const x) noexcept { return x < T(0); }
template <typename A, typename B>
constexpr common_t<A, B> max(A const x, B const y) noexcept { return y < x ? x : y; }
template <typename A, typename B>
constexpr common_t<A, B> min(A const x, B const y) noexcept { return y > x ? x : y; }
template <typename A, typename B>
constexpr return_t<A> lmgamma(A const a, B const) noexcept { return stub::lgamma(static_cast<return_t<A>>(a)); }
} // namespace gcem
