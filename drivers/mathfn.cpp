// Every name of the math layer refers to the function of that name.
#include "ai.h"
#include <cmath>
#include <embedded/constexpr_math/functions.h>
#include <embedded/constexpr_math/constants.h>
namespace cm = embedded::cmath;

#define F1(n)                                                    \
  {                                                              \
    double x = ai_real("x");                                     \
    ai_req(cm::n(x), ::n(x), "X05:" #n);                         \
    float f = static_cast<float>(ai_real("f"));                  \
    ai_req(static_cast<double>(cm::n(f)), static_cast<double>(::n##f(f)), "X05:" #n); \
    long double l = ai_real("l");                                \
    ai_req(static_cast<double>(cm::n(l)), static_cast<double>(::n##l(l)), "X05:" #n); \
  }
#define F2(n)                                                    \
  {                                                              \
    double x = ai_real("x"), y = ai_real("y");                   \
    ai_req(cm::n(x, y), ::n(x, y), "X05:" #n);                   \
    float f = static_cast<float>(ai_real("f")), g = static_cast<float>(ai_real("g")); \
    ai_req(static_cast<double>(cm::n(f, g)), static_cast<double>(::n##f(f, g)), "X05:" #n); \
    long double l = ai_real("l"), m = ai_real("m");              \
    ai_req(static_cast<double>(cm::n(l, m)), static_cast<double>(::n##l(l, m)), "X05:" #n); \
  }

extern "C" void drv_functions() {
  F1(acos) F1(acosh) F1(asin) F1(asinh) F1(atan) F1(atanh) F1(ceil) F1(cos) F1(cosh)
  F1(erf) F1(exp) F1(expm1) F1(floor) F1(lgamma) F1(log) F1(log10) F1(log1p) F1(log2)
  F1(round) F1(sin) F1(sinh) F1(sqrt) F1(tan) F1(tanh) F1(tgamma) F1(trunc)
  F2(atan2) F2(copysign) F2(fmod) F2(pow)
  ai_reach("functions");
}
extern "C" void drv_signs() {
  double x = ai_real("x");
  ai_assume(x != 0.0);
  double a = cm::abs(x);
  ai_prove(a >= 0.0, "X05:abs");
  if (x > 0.0)
    ai_req(a, x, "X05:abs");
  else
    ai_req(a, -x, "X05:abs");
  std::ptrdiff_t i = ai_sint("i", -1000, 1000);
  std::ptrdiff_t b = cm::abs(i);
  ai_prove(b == (i < 0 ? -i : i), "X05:abs");
  ai_reach("signs");
}
#if defined(__clang__) || defined(LIBEMB_DISABLE_GLIBCXX_CONSTEXPR)
extern "C" void drv_signbit() {
  double x = ai_real("x");
  ai_assume(x != 0.0);
  ai_prove(cm::signbit(x) == (x < 0.0), "X05:signbit");
  ai_reach("signbit");
}
#endif
template <typename T>
static void minmax(T a, T b) {
  T lo = cm::min(a, b), hi = cm::max(a, b);
  ai_prove(lo == (b < a ? b : a), "X05:min");
  ai_prove(hi == (a < b ? b : a), "X05:max");
}
extern "C" void drv_minmax() {
  minmax<std::size_t>(ai_uint("a", 0, 100000), ai_uint("b", 0, 100000));
  minmax<std::ptrdiff_t>(ai_sint("c", -100000, 100000), ai_sint("d", -100000, 100000));
  minmax<int>(static_cast<int>(ai_sint("e", -1000, 1000)), static_cast<int>(ai_sint("f", -1000, 1000)));
  ai_reach("minmax");
}
extern "C" void drv_minmax_real() {
  double a = ai_real("x"), b = ai_real("y");
  ai_assume(a != b);
  bool lt = a < b;
  ai_req(cm::min(a, b), lt ? a : b, "X05:min");
  ai_req(cm::max(a, b), lt ? b : a, "X05:max");
  ai_reach("minmax_real");
}
extern "C" void drv_pi() {
  ai_req(cm::pi<double>(), 3.141592653589793238462643383279502884197, "X05:pi");
  ai_reach("pi");
}
