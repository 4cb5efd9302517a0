// P01: what the stream operators print.
#include "ai.h"
#include <ostream>
#include <embedded/ostream_ops.h>
#include <embedded/signal/filter.h>
namespace cm = embedded::cmath;
namespace sg = embedded::signal;
namespace dt = embedded::signal::detail;

// the expected text, written here
struct want {
  std::ostream os;
  want& s(char const* t) {
    os << t;
    return *this;
  }
  template <typename T>
  want& v(T x) {
    os << x;
    return *this;
  }
  template <typename T>
  want& c(T re, T im) {
    os << re;
    if (im >= 0) os.put('+');
    os << im;
    os.put('j');
    return *this;
  }
};
static void same(std::ostream const& a, want const& w) {
  std::ostream const& b = w.os;
  ai_prove(a.n == b.n, "P01:text");
  if (a.n != b.n) return;
  for (int i = 0; i < b.n; ++i) {
    ai_prove(a.is_num[i] == b.is_num[i], "P01:text");
    if (b.is_num[i])
      ai_req(a.num[i], b.num[i], "P01:values");
    else
      ai_prove(a.text[i] == b.text[i], "P01:text");
  }
}
template <typename T>
static void printed(T const& v, want const& w) {
  std::ostream os;
  std::ostream& r = (os << v);
  ai_prove(&r == &os, "P01:stream");
  same(os, w);
}
static int nth = 0;
template <typename F>
static F rv() {
  return static_cast<F>(ai_reali("x", ++nth));
}
template <typename F>
static void complexes() {
  precise<F>("P01:precision");
  F const re = rv<F>(), im = rv<F>();
  want w;
  w.c(re, im);
  printed(cm::complex<F>(re, im), w);
  want u;
  u.v(re).s("+").v(F{0}).s("j");
  printed(cm::complex<F>(re), u);
  want z;
  z.v(F{-1}).s("").v(F{-2}).s("j");
  printed(cm::complex<F>(F{-1}, F{-2}), z);
}
extern "C" void drv_complex() {
  complexes<float>();
  complexes<double>();
  complexes<long double>();
  ai_reach("complex");
}
template <typename F, std::size_t N>
struct arr {
  F x[N];
  constexpr F operator()(std::size_t i) const { return x[i]; }
};
template <typename F, std::size_t N>
static void vectors() {
  precise<F>("P01:precision");
  arr<F, N> a;
  std::array<F, N> s;
  want w;
  w.s("[");
  for (std::size_t i = 0; i < N; ++i) {
    a.x[i] = rv<F>();
    s[i] = a.x[i];
    if (i) w.s(", ");
    w.v(a.x[i]);
  }
  w.s("]");
  printed(cm::vector<F, N>::create(a), w);
  printed(s, w);
}
template <std::size_t N>
static void ints() {
  arr<int, N> a;
  want w;
  w.s("[");
  for (std::size_t i = 0; i < N; ++i) {
    a.x[i] = static_cast<int>(i * 7) - 9;
    if (i) w.s(", ");
    w.v(a.x[i]);
  }
  w.s("]");
  printed(cm::vector<int, N>::create(a), w);
}
extern "C" void drv_vector() {
  vectors<float, 1>();
  vectors<double, 2>();
  vectors<float, 3>();
  vectors<long double, 4>();
  vectors<double, 9>();
  vectors<double, 40>();
  ints<1>();
  ints<2>();
  ints<17>();
  ai_reach("vector");
}
extern "C" void drv_nested() {
  precise<double>("P01:precision");
  double const p = rv<double>(), q = rv<double>(), r = rv<double>(), s = rv<double>();
  using C = cm::complex<double>;
  want w;
  w.s("[").c(p, q).s(", ").c(r, s).s("]");
  printed(cm::vector<C, 2>{C(p, q), C(r, s)}, w);
  std::array<C, 2> const a{{C(p, q), C(r, s)}};
  printed(a, w);
  using V = cm::vector<double, 2>;
  want v;
  v.s("[[").v(p).s(", ").v(q).s("], [").v(r).s(", ").v(s).s("]]");
  std::array<V, 2> const b{{V{p, q}, V{r, s}}};
  printed(b, v);
  std::array<std::array<double, 2>, 2> const e{{{{p, q}}, {{r, s}}}};
  printed(e, v);
  // two values on one stream
  std::ostream os;
  os << a << b;
  want both;
  both.s("[").c(p, q).s(", ").c(r, s).s("]").s("[[").v(p).s(", ").v(q).s("], [").v(r).s(", ").v(s).s("]]");
  same(os, both);
  ai_reach("nested");
}
template <typename F, std::size_t Z, std::size_t P>
static void zpks() {
  precise<F>("P01:precision");
  using C = cm::complex<F>;
  arr<C, Z> z;
  arr<C, P> p;
  want w;
  w.s("{zeros=[");
  for (std::size_t i = 0; i < Z; ++i) {
    F const a = rv<F>(), b = i % 2 ? -static_cast<F>(i) : static_cast<F>(i + 1);
    z.x[i] = C(a, b);
    if (i) w.s(", ");
    w.c(a, b);
  }
  w.s("], poles=[");
  for (std::size_t i = 0; i < P; ++i) {
    F const a = rv<F>(), b = i % 2 ? static_cast<F>(i) : -static_cast<F>(i + 1);
    p.x[i] = C(a, b);
    if (i) w.s(", ");
    w.c(a, b);
  }
  F const k = rv<F>();
  w.s("], gain=").v(k).s("}");
  printed(dt::zpk_value<Z, P, F>(cm::vector<C, Z>::create(z), cm::vector<C, P>::create(p), k), w);
}
extern "C" void drv_zpk() {
  zpks<float, 1, 1>();
  zpks<double, 2, 2>();
  zpks<double, 1, 3>();
  zpks<long double, 5, 4>();
  ai_reach("zpk");
}
template <typename F>
static void sections() {
  precise<F>("P01:precision");
  using C = cm::complex<F>;
  F const a = rv<F>(), b = rv<F>(), c = rv<F>(), d = rv<F>(), k = rv<F>();
  sg::sos_section<F> const s(cm::vector<C, 2>{C(a), C(b)}, cm::vector<C, 2>{C(c), C(d)}, k);
  want w;
  w.s("{b=[").v(k).s(", ").v(-k * (a + b)).s(", ").v(k * a * b).s("], a=[").v(F{1}).s(", ").v(-(c + d)).s(", ").v(c * d).s("]}");
  printed(s, w);
  cm::vector<sg::sos_section<F>, 2> const two{s, s};
  want v;
  v.s("[");
  for (int i = 0; i < 2; ++i) v.s(i ? ", " : "").s("{b=[").v(k).s(", ").v(-k * (a + b)).s(", ").v(k * a * b).s("], a=[").v(F{1}).s(", ").v(-(c + d)).s(", ").v(c * d).s("]}");
  v.s("]");
  printed(two, v);
}
extern "C" void drv_section() {
  sections<float>();
  sections<double>();
  ai_reach("section");
}
extern "C" void drv_fixed() {
  using X = fpm::fixed_16_16;
  double const vs[] = {0, 1, -1, 0.5, -2.25, 1000.125};
  for (double d : vs) {
    X const x(d);
    want w;
    w.v(d).s(" (").v(static_cast<int>(d * 65536)).s(")");
    printed(x, w);
  }
  want w;
  w.s("[").v(0.5).s(" (").v(32768).s("), ").v(-1.0).s(" (").v(-65536).s(")]");
  printed(cm::vector<X, 2>{X(0.5), X(-1.0)}, w);
  ai_reach("fixed");
}
