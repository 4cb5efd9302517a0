// The Bessel prototype for every order of the table.
#include "ai.h"
#include <cmath>
#include <embedded/signal/bessel.h>
namespace cm = embedded::cmath;
namespace sg = embedded::signal;
template <typename T>
static double D(T v) { return static_cast<double>(v); }
template <std::size_t N, typename F>
static void bes() {
  auto const s = sg::bessel<N>().template spec<F>();
  auto const h = s.zpk();
  auto const p = s.poles();
  ai_prove(sg::bessel<N>::order() == N && h.poles().size() == N && p.size() == N, "S06:number of poles");
  ai_prove(h.zeros().size() == 0 && s.zeros().size() == 0, "S06:no zeros");
  ai_req(D(h.gain()), 1.0, "S06:gain");
  ai_req(D(s.gain()), 1.0, "S06:gain");
  for (std::size_t i = 0; i < N; ++i) {
    ai_req(D(h.poles()[i].real()), D(p[i].real()), "S06:zpk");
    ai_req(D(h.poles()[i].imag()), D(p[i].imag()), "S06:zpk");
    ai_out("re", static_cast<int>(i), D(p[i].real()));
    ai_out("im", static_cast<int>(i), D(p[i].imag()));
  }
  ai_reach("bessel");
}
#ifndef TYPE
#define TYPE double
#endif
#define B(n) extern "C" void drv_b_##n() { bes<n, TYPE>(); }
#define B10(a) B(a##0) B(a##1) B(a##2) B(a##3) B(a##4) B(a##5) B(a##6) B(a##7) B(a##8) B(a##9)
B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9)
B10(1) B10(2) B10(3) B10(4) B10(5) B10(6) B10(7) B10(8) B10(9) B(100)
