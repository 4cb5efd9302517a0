// What filtering a sample executes at run time, for every sample type.
#include "ai.h"
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
namespace sg = embedded::signal;

// sample types of a user, whose arithmetic is opaque; U converts from numbers
// explicitly, V implicitly
#define USER(U, EXPL)                                     \
  struct U {                                              \
    int raw;                                              \
    constexpr U() : raw(0) {}                             \
    EXPL constexpr U(double d) : raw(static_cast<int>(d * 65536)) {} \
    constexpr U(U const&) = default;                      \
    U& operator=(U const&) = default;                     \
  };                                                      \
  U operator+(U const& a, U const& b);                    \
  U operator-(U const& a, U const& b);                    \
  U operator-(U const& a);                                \
  U& operator+=(U& a, U const& b);                        \
  U& operator-=(U& a, U const& b);                        \
  U& operator*=(U& a, U const& b);                        \
  U operator*(U const& a, U const& b);
namespace user_ops {
USER(xsample, explicit)
USER(isample, )
}
using user_ops::xsample;
using user_ops::isample;

#define RUN(t, T, n)                                                                                                        \
  extern "C" T run_poly_##t##_##n(sg::poly_instance<T, n>& i, T const& x) { return i(x); }                                   \
  extern "C" T run_polyd_##t##_##n(sg::poly_design<T, n> const& d, std::array<T, n>& s, T const& x) { return d.filter(s, x); }
#define RUNS(t, T, n)                                                                                                       \
  extern "C" T run_sos_##t##_##n(sg::sos_instance<T, n>& i, T const& x) { return i(x); }
#define BOTH(t, T) RUN(t, T, 1) RUN(t, T, 2) RUN(t, T, 3) RUN(t, T, 4) RUN(t, T, 5) RUN(t, T, 6) RUN(t, T, 9) RUN(t, T, 12) SOS(t, T)
#define SOS(t, T) RUNS(t, T, 1) RUNS(t, T, 2) RUNS(t, T, 3) RUNS(t, T, 4) RUNS(t, T, 5) RUNS(t, T, 6) RUNS(t, T, 9) RUNS(t, T, 12) \
  extern "C" T run_section_##t##_0(sg::sos_section<T> const& d, sg::sos_state<T>& s, T const& x) { return d.filter(s, x); }
BOTH(f, float)
BOTH(d, double)
BOTH(l, long double)
BOTH(i, isample)
SOS(x, xsample)
