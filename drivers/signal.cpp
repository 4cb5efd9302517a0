// Filters: difference equations, sections, transforms and prototypes.
#include "ai.h"
#include <array>
#include <cmath>
#include <type_traits>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
namespace cm = embedded::cmath;
namespace sg = embedded::signal;
using embedded::index_sequence;
using embedded::make_index_sequence;

template <typename T>
static double D(T v) { return static_cast<double>(v); }
template <typename T>
static T R(char const* n, int i = 0) { return static_cast<T>(ai_reali(n, i)); }

// a sample type of the user: nothing but +, -, * and conversion from numbers
struct fx {
  double v;
  fx() = default;
  constexpr explicit fx(double d) : v(d) {}
  constexpr explicit fx(long double d) : v(static_cast<double>(d)) {}
  constexpr explicit fx(float d) : v(d) {}
  constexpr explicit fx(int d) : v(d) {}
  constexpr explicit operator double() const { return v; }
  friend constexpr fx operator+(fx a, fx b) { return fx(a.v + b.v); }
  friend constexpr fx operator-(fx a, fx b) { return fx(a.v - b.v); }
  friend constexpr fx operator*(fx a, fx b) { return fx(a.v * b.v); }
};

// plain complex arithmetic of the statements
struct cx {
  double re, im;
};
static cx operator*(cx a, cx b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static cx operator-(cx a, cx b) { return {a.re - b.re, a.im - b.im}; }
static cx operator/(cx a, cx b) {
  double n = b.re * b.re + b.im * b.im;
  return {(a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n};
}
template <typename F>
static cx C(cm::complex<F> const& z) { return {D(z.real()), D(z.imag())}; }

// ----------------------------------------------------------------- prototypes
enum style { mirrored, adjacent, grouped };
// how the i-th of n numbers with c conjugate pairs is made up:
// sym 0: real number k; +1 / -1: upper / lower half of pair k
struct slot {
  int sym, k;
};
static constexpr slot place(int i, int n, int c, int st) {
  return st == mirrored ? (i < c ? slot{1, i} : i >= n - c ? slot{-1, n - 1 - i} : slot{0, i - c})
         : st == adjacent ? (i < n - 2 * c ? slot{0, i} : (i - (n - 2 * c)) % 2 == 0 ? slot{-1, (i - (n - 2 * c)) / 2} : slot{1, (i - (n - 2 * c)) / 2})
                          : (i < c ? slot{1, i} : i < 2 * c ? slot{-1, i - c} : slot{0, i - 2 * c});
}
enum kind { symbols, same, numbers, minus_one, sameim, samere, circle, twice };
// the numbers of a set: distinct symbols, one repeated symbol per class,
// distinct constants, or all -1
template <typename F, int K>
static cm::complex<F> member(char const* re, char const* im, slot s, int salt) {
  if (K == minus_one) return cm::complex<F>(F(-1));
  if (K == sameim || K == samere || K == circle || K == twice) {
    // members that agree in one respect
    static constexpr int tri[8][2] = {{16, 63}, {-25, 60}, {33, 56}, {-39, 52}, {52, 39}, {-56, 33}, {60, 25}, {-63, 16}};
    int const k = (s.k + 3 * salt) % 8;
    F const u = K == circle ? F(1) / F(65) : F(1) / F(80);
    if (s.sym == 0) return cm::complex<F>(F(K == samere || K == circle ? 33 - 2 * k : tri[k][0]) * u);
    int const a = K == sameim ? tri[k][0] : K == samere ? 33 : tri[K == twice ? k / 2 : k][0];
    int const b = K == sameim ? 56 : tri[K == twice ? k / 2 : k][1];
    return cm::complex<F>(F(a) * u, F(s.sym) * F(b) * u);
  }
  if (K == numbers) {
    // constants: anything goes as long as they differ
    int h = (s.k * 37 + salt * 11 + 5) % 101;
    if (s.sym == 0) return cm::complex<F>(F(h + 3) / F(-131));
    return cm::complex<F>(F(h - 60) / F(127), F(s.sym) * F((s.k * 53 + salt * 17 + 9) % 97 + 2) / F(113));
  }
  int k = K == same ? 0 : s.k;
  if (s.sym == 0) return cm::complex<F>(R<F>(re, 100 + k));
  F i = R<F>(im, k);
  return cm::complex<F>(R<F>(re, k), s.sym > 0 ? i : -i);
}
template <typename F, int K, int CPX, int ST, std::size_t... I>
static cm::vector<cm::complex<F>, sizeof...(I)> members(char const* re, char const* im, int salt, index_sequence<I...>) {
  return cm::vector<cm::complex<F>, sizeof...(I)>{member<F, K>(re, im, place(static_cast<int>(I), static_cast<int>(sizeof...(I)), CPX, ST), salt)...};
}
template <typename F, std::size_t N, int K, int CPX, int ST>
static cm::vector<cm::complex<F>, N> zset(int salt = 0) { return members<F, K, CPX, ST>("zr", "zi", salt, make_index_sequence<N>{}); }
template <typename F, std::size_t N, int K, int CPX, int ST>
static cm::vector<cm::complex<F>, N> pset(int salt = 1) { return members<F, K, CPX, ST>("pr", "pi", salt, make_index_sequence<N>{}); }
// imaginary parts are not zero (complex members are not real)
static void proper(char const* im, int n) {
  for (int i = 0; i < n; ++i) ai_nonzero(ai_reali(im, i));
}

// an analogue prototype of the user
template <std::size_t Zn, int Zc, std::size_t Pn, int Pc, int K = symbols, int ST = mirrored>
struct proto {
  static constexpr std::size_t order() { return Pn; }
  template <typename F>
  struct specification {
    using value_type = F;
    cm::vector<cm::complex<F>, Zn> zeros() const { return zset<F, Zn, K, Zc, ST>(); }
    cm::vector<cm::complex<F>, Pn> poles() const { return pset<F, Pn, K, Pc, ST>(); }
    F gain() const { return R<F>("gain"); }
    sg::detail::zpk_value<Zn, Pn, F> zpk() const { return sg::detail::zpk_value<Zn, Pn, F>(zeros(), poles(), gain()); }
  };
  template <typename F>
  specification<F> spec() const { return specification<F>(); }
};

// ----------------------------------------------------------------- S01, S08 (poly)
// the step is linear and time-invariant in state and input, so that agreement
// over as many steps as there are state variables is agreement for ever
template <typename I, typename F>
static bool lti(I const& inst, char const* id) {
  for (int T = 1; T <= 12; ++T) {  // (periodically time-varying for T > 1)
    I a(inst), b(inst), c(inst), snap(inst);
    if (ai_havoc_reals(&a, sizeof a, "ua") != ai_havoc_reals(&b, sizeof b, "ub")) return false;
    ai_sum_reals(&c, &a, &b, sizeof c);
    for (int t = 0; t < T; ++t) {
      double xa = ai_reali("xa", t), xb = ai_reali("xb", t);
      F ya = a(F(xa)), yb = b(F(xb)), yc = c(F(xa + xb));
      ai_req(D(yc), D(ya) + D(yb), id);
    }
    if (ai_is_sum(&c, &a, &b, &snap, sizeof c)) return true;
  }
  return false;
}
template <typename F, typename DS>
static typename std::decay<decltype(std::declval<DS const&>().instance())>::type difference(DS const& d, int n, int cells) {
  auto const b = d.b();
  auto const a = d.a();
  ai_prove(b.size() == static_cast<std::size_t>(n + 1) && a.size() == static_cast<std::size_t>(n + 1) && d.order() == static_cast<std::size_t>(n), "S01:order");
  ai_req(D(a[0]), 1.0, "S01:a[0]");
  auto inst = d.instance();
  double xs[128], ys[128];
  int const L = cells + 2 * n + 2;
  for (int i = 0; i < L; ++i) {
    xs[i] = ai_reali("x", i);
    F y = inst(static_cast<F>(xs[i]));
    ys[i] = D(y);
    double e = 0;
    for (int k = 0; k <= n && k <= i; ++k) e += D(b[static_cast<std::size_t>(k)]) * xs[i - k];
    for (int k = 1; k <= n && k <= i; ++k) e -= D(a[static_cast<std::size_t>(k)]) * ys[i - k];
    ai_req(ys[i], e, "S01:difference equation");
  }
  ai_reach("difference");
  return inst;
}
template <typename F, typename DF, std::size_t N, bool HP>
static void poly_eq() {
  precise<F, DF>("S01:precision");
  DF const fs = R<DF>("fs"), f = R<DF>("f");
  sg::iirfilter<DF> const flt(fs);
  proto<N / 2, 0, N, 0, (N > 6 ? numbers : symbols)> const p;
  auto const d = (HP ? flt.highpass(p, f) : flt.lowpass(p, f)).template poly<F>();
  using I = typename std::decay<decltype(d.instance())>::type;
  I const inst = difference<F>(d, static_cast<int>(N), static_cast<int>((sizeof(I) + sizeof(F) - 1) / sizeof(F)));
  ai_prove(lti<I, F>(inst, "S01:linear"), "S01:linear time-invariant");
}
#define POLY(n)                                                          \
  extern "C" void drv_poly_d_##n() { poly_eq<double, double, n, false>(); } \
  extern "C" void drv_poly_f_##n() { poly_eq<float, double, n, true>(); }   \
  extern "C" void drv_poly_l_##n() { poly_eq<long double, long double, n, false>(); } \
  extern "C" void drv_poly_g_##n() { poly_eq<float, float, n, false>(); }
#ifndef LARGE
POLY(1) POLY(2) POLY(3) POLY(4) POLY(5) POLY(6) POLY(7) POLY(8) POLY(9) POLY(10)
#ifdef DEEP
POLY(11) POLY(12) POLY(13) POLY(15) POLY(16)
#endif
#endif

// ----------------------------------------------------------------- S02
template <typename F, typename DS>
static typename std::decay<decltype(std::declval<DS const&>().instance())>::type cascade(DS const& d, std::size_t n, int cells) {
  std::size_t const S = (n + 1) / 2;
  auto const& sec = d.sos();
  ai_prove(sec.size() == S && d.size() == S && d.order() == n, "S02:sections");
  auto inst = d.instance();
  for (std::size_t s = 0; s < S; ++s) {
    ai_req(D(inst.state()[s].y1), 0.0, "S08:initial state");
    ai_req(D(inst.state()[s].y2), 0.0, "S08:initial state");
  }
  double h[16][2 + 128];  // signal before section s, from time -2
  for (std::size_t s = 0; s <= S; ++s) h[s][0] = h[s][1] = 0;
  int const L = cells + 2 * static_cast<int>(S) + 2;
  for (int i = 0; i < L; ++i) {
    h[0][i + 2] = ai_reali("x", i);
    for (std::size_t s = 0; s < S; ++s) {
      auto const b = sec[s].b();
      auto const a = sec[s].a();
      double const* x = h[s] + i + 2;
      double* y = h[s + 1] + i + 2;
      *y = D(b[0]) * x[0] + D(b[1]) * x[-1] + D(b[2]) * x[-2] - D(a[1]) * y[-1] - D(a[2]) * y[-2];
    }
    F y = inst(static_cast<F>(h[0][i + 2]));
    ai_req(D(y), h[S][i + 2], "S02:cascade");
  }
  for (std::size_t s = 0; s < S; ++s) ai_req(D(sec[s].a()[0]), 1.0, "S02:a[0]");
  ai_reach("cascade");
  return inst;
}
// one section on its own
template <typename F, typename SEC>
static void single(SEC const& sec) {
  typename SEC::state_type st;
  ai_req(D(st.y1), 0.0, "S08:initial state");
  ai_req(D(st.y2), 0.0, "S08:initial state");
  auto const b = sec.b();
  auto const a = sec.a();
  double x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
  for (int i = 0; i < 8; ++i) {
    x[2] = x[1], x[1] = x[0], y[2] = y[1], y[1] = y[0];
    x[0] = ai_reali("x", i);
    y[0] = D(b[0]) * x[0] + D(b[1]) * x[1] + D(b[2]) * x[2] - D(a[1]) * y[1] - D(a[2]) * y[2];
    F o = sec.filter(st, static_cast<F>(x[0]));
    ai_req(D(o), y[0], "S02:section");
  }
}
template <typename F, typename DF, std::size_t N, bool HP>
static void sos_eq(sg::sos_gain mode) {
  precise<F, DF>("S02:precision");
  ai_merge(true);
  DF const fs = R<DF>("fs"), f = R<DF>("f");
  ai_positive(ai_reali("gain", 0));
  sg::iirfilter<DF> const flt(fs);
  proto<0, 0, N, 0, (N > 2 ? numbers : symbols)> const p;
  // the cut-off is a number too where sections have to be ordered
  sg::iirfilter<DF> const fltn(DF(1000));
  (void)flt;
  (void)f;
  auto const d = (N > 2 ? (HP ? fltn.highpass(p, DF(250)) : fltn.lowpass(p, DF(250))) : (HP ? flt.highpass(p, f) : flt.lowpass(p, f))).template sos<F>(mode);
  using I = typename std::decay<decltype(d.instance())>::type;
  I const inst = cascade<F>(d, N, static_cast<int>((sizeof(I) + sizeof(F) - 1) / sizeof(F)));
  single<F>(d.sos()[0]);
  ai_prove(lti<I, F>(inst, "S02:linear"), "S02:linear time-invariant");
}
#define SOSQ(n)                                                                                              \
  extern "C" void drv_sos_d_##n() { sos_eq<double, double, n, false>(sg::sos_gain::first_section); }          \
  extern "C" void drv_sos_f_##n() { sos_eq<float, double, n, true>(sg::sos_gain::distribute); }               \
  extern "C" void drv_sos_l_##n() { sos_eq<long double, long double, n, false>(sg::sos_gain::first_section); } \
  extern "C" void drv_sos_x_##n() { sos_eq<fx, double, n, false>(sg::sos_gain::first_section); }
#ifndef LARGE
SOSQ(1) SOSQ(2) SOSQ(3) SOSQ(4) SOSQ(5) SOSQ(6)
#ifdef DEEP
SOSQ(7) SOSQ(8) SOSQ(9) SOSQ(12) SOSQ(15)
#endif
#endif

// ----------------------------------------------------------------- S08
template <typename F, typename DS>
static void rest(DS const& d, char const* n) {
  // independent of each other: interleaved and alone give the same
  auto a = d.instance();
  auto b = d.instance();
  auto const idle = d.instance();
  auto c = d.instance();
  ai_freeze(&d, true);
  ai_freeze(&idle, true);
  for (int i = 0; i < 3; ++i) ai_req(D(c(static_cast<F>(0.0))), 0.0, "S08:starts at rest");
  double ya[6], yb[6];
  for (int i = 0; i < 6; ++i) {
    ai_freeze(&b, true);
    ya[i] = D(a(static_cast<F>(ai_reali("xa", i))));
    ai_freeze(&b, false);
    ai_freeze(&a, true);
    yb[i] = D(b(static_cast<F>(ai_reali("xb", i))));
    ai_freeze(&a, false);
  }
  ai_freeze(&a, true);
  ai_freeze(&b, true);
  auto a2 = d.instance();
  auto b2 = d.instance();
  for (int i = 0; i < 6; ++i) ai_req(D(a2(static_cast<F>(ai_reali("xa", i)))), ya[i], "S08:independent");
  for (int i = 0; i < 6; ++i) ai_req(D(b2(static_cast<F>(ai_reali("xb", i)))), yb[i], "S08:independent");
  ai_freeze(&a, false);
  ai_freeze(&b, false);
  // a copy carries on from where the original is, on its own
  auto k = a;
  b = a;
  double yk[6], yo[6];
  ai_freeze(&a, true);
  for (int i = 0; i < 6; ++i) yk[i] = D(k(static_cast<F>(ai_reali("xk", i))));
  ai_freeze(&k, true);
  ai_freeze(&a, false);
  for (int i = 0; i < 6; ++i) yo[i] = D(a(static_cast<F>(ai_reali("xk", i))));
  for (int i = 0; i < 6; ++i) ai_req(yk[i], yo[i], "S08:copy");
  for (int i = 0; i < 6; ++i) ai_req(D(b(static_cast<F>(ai_reali("xk", i)))), yo[i], "S08:assignment");
  // moved-to instances too
  auto m = d.instance();
  for (int i = 0; i < 6; ++i) m(static_cast<F>(ai_reali("xa", i)));
  auto w = std::move(m);
  for (int i = 0; i < 6; ++i) ai_req(D(w(static_cast<F>(ai_reali("xk", i)))), yo[i], "S08:copy");
  ai_reach(n);
}
template <typename F, typename DF, std::size_t N>
static void rest_poly() {
  DF const fs = R<DF>("fs"), f = R<DF>("f");
  proto<0, 0, N, 0> const p;
  auto const d = sg::iirfilter<DF>(fs).lowpass(p, f).template poly<F>();
  rest<F>(d, "poly");
}
template <typename F, typename DF, std::size_t N>
static void rest_sos(sg::sos_gain mode) {
  ai_positive(ai_reali("gain", 0));
  proto<0, 0, N, 0, numbers> const p;
  auto const d = sg::iirfilter<DF>(DF(1000)).highpass(p, DF(250)).template sos<F>(mode);
  rest<F>(d, "sos");
}
#define REST(n)                                                                              \
  extern "C" void drv_rest_pd_##n() { rest_poly<double, double, n>(); }                        \
  extern "C" void drv_rest_pf_##n() { rest_poly<float, double, n>(); }                         \
  extern "C" void drv_rest_sd_##n() { rest_sos<double, double, n>(sg::sos_gain::distribute); }  \
  extern "C" void drv_rest_sf_##n() { rest_sos<float, double, n>(sg::sos_gain::first_section); } \
  extern "C" void drv_rest_sx_##n() { rest_sos<fx, double, n>(sg::sos_gain::first_section); }
#ifndef LARGE
REST(1) REST(2) REST(3) REST(4) REST(5) REST(7)
#endif

// ----------------------------------------------------------------- S03
// product of (x - z) over a set, at the symbolic real x
template <typename V>
static cx product(V const& v, double x) {
  cx r{1, 0};
  for (std::size_t i = 0; i < V::size(); ++i) r = r * (cx{x, 0} - C(v[i]));
  return r;
}
template <std::size_t N, int Zc, int Pc, int ZK, int PK, int ST, typename F, typename DF>
static void sections_of(bool dist) {
  precise<F, DF>("S03:precision");
  ai_merge(true);
  constexpr std::size_t S = (N + 1) / 2;
  proper("zi", Zc);
  proper("pi", Pc);
  // the gain is g^S so that its root is g
  double const g = ai_real("g");
  ai_positive(g);
  double gain = 1;
  for (std::size_t i = 0; i < S; ++i) gain *= g;
  ai_define2("pow", gain, 1.0 / static_cast<double>(S), g);
  ai_define("log", gain, static_cast<double>(S) * ai_real("log g"));
  ai_define("exp", ai_real("log g"), g);
  ai_positive(gain);
  auto const z = zset<DF, N, ZK, Zc, ST>();
  auto const p = pset<DF, N, PK, Pc, ST>();
  sg::sos_design<F, N> const d(sg::detail::zpk_value<N, N, DF>(z, p, static_cast<DF>(gain)), dist ? sg::sos_gain::distribute : sg::sos_gain::first_section);
  ai_prove(d.size() == S && d.sos().size() == S, "S03:sections");
  double const x = ai_real("x");
  double nu = 1, de = 1, k = 1;
  for (std::size_t i = 0; i < S; ++i) {
    auto const b = d.sos()[i].b();
    auto const a = d.sos()[i].a();
    ai_req(D(a[0]), 1.0, "S03:a[0]");
    ai_req(D(b[0]), dist ? g : i == 0 ? gain : 1.0, dist ? "S03:gain spread evenly" : "S03:gain in the first section");
    nu *= (D(b[0]) * x + D(b[1])) * x + D(b[2]);
    de *= (D(a[0]) * x + D(a[1])) * x + D(a[2]);
    k *= D(b[0]);
  }
  ai_req(k, gain, "S03:product of gains");
  double const pad = N % 2 ? x : 1.0;  // odd orders: one more at the origin
  ai_req(nu, gain * pad * product(z, x).re, "S03:each zero exactly once, with its conjugate");
  ai_req(de, pad * product(p, x).re, "S03:each pole exactly once, with its conjugate");
  ai_reach("sections");
}
template <std::size_t N, int Zc, int Pc, int ST>
static void sections_sym() {
  if (ai_choice(2)) sections_of<N, Zc, Pc, symbols, symbols, ST, double, double>(false);
  else sections_of<N, Zc, Pc, symbols, symbols, ST, float, double>(true);
}
#define SEC(n, zc, pc)                                                                        \
  extern "C" void drv_sec_##n##_##zc##_##pc##_m() { sections_sym<n, zc, pc, mirrored>(); }      \
  extern "C" void drv_sec_##n##_##zc##_##pc##_a() { sections_sym<n, zc, pc, adjacent>(); }      \
  extern "C" void drv_sec_##n##_##zc##_##pc##_g() { sections_sym<n, zc, pc, grouped>(); }
#define SEC1(n) extern "C" void drv_sec_##n##_0_0_m() { sections_sym<n, 0, 0, mirrored>(); }
#ifndef LARGE
SEC1(1) SEC1(2) SEC1(3)
SEC(2, 0, 1) SEC(2, 1, 0) SEC(2, 1, 1)
SEC(3, 0, 1) SEC(3, 1, 0) SEC(3, 1, 1)
SEC(4, 0, 2) SEC(4, 1, 1) SEC(4, 1, 2) SEC(4, 2, 0) SEC(4, 2, 1) SEC(4, 2, 2)
#endif
// repeated members and the sets that designs produce
template <std::size_t N, int Zc, int Pc>
static void sections_rep() {
  switch (ai_choice(4)) {
    case 0: return sections_of<N, Zc, Pc, same, symbols, mirrored, double, double>(false);
    case 1: return sections_of<N, Zc, Pc, symbols, same, adjacent, double, double>(true);
    case 2: return sections_of<N, Zc, Pc, same, same, grouped, double, double>(false);
    default: return sections_of<N, 0, Pc, minus_one, symbols, mirrored, float, float>(true);
  }
}
#define REP(n, zc, pc) extern "C" void drv_rep_##n##_##zc##_##pc() { sections_rep<n, zc, pc>(); }
#ifndef LARGE
REP(2, 0, 0) REP(2, 1, 1) REP(3, 1, 1) REP(3, 0, 0) REP(3, 0, 1) REP(4, 0, 2) REP(4, 2, 2) REP(4, 1, 1) REP(4, 0, 0) REP(4, 2, 0)
#endif
template <std::size_t N, int Zc, int Pc>
static void sections_num() {
  switch (ai_choice(4)) {
    case 0: return sections_of<N, Zc, Pc, numbers, numbers, mirrored, double, double>(false);
    case 1: return sections_of<N, Zc, Pc, numbers, numbers, grouped, long double, long double>(true);
    case 2: return sections_of<N, Zc, Pc, numbers, numbers, adjacent, fx, double>(true);
    default: return sections_of<N, 0, Pc, minus_one, numbers, mirrored, float, double>(false);
  }
}
template <std::size_t N, int Zc, int Pc>
static void sections_alike() {
  switch (ai_choice(6)) {
    case 0: return sections_of<N, 0, Pc, minus_one, sameim, mirrored, double, double>(false);
    case 1: return sections_of<N, Zc, Pc, sameim, samere, adjacent, double, double>(true);
    case 2: return sections_of<N, Zc, Pc, circle, circle, grouped, double, double>(false);
    case 3: return sections_of<N, Zc, Pc, samere, sameim, grouped, fx, double>(true);
    case 4: return sections_of<N, Zc, Pc, twice, twice, adjacent, double, double>(false);
    default: return sections_of<N, Zc, Pc, circle, sameim, mirrored, float, float>(true);
  }
}
#define NUM(n, zc, pc)                                                                  \
  extern "C" void drv_num_##n##_##zc##_##pc() { sections_num<n, zc, pc>(); }            \
  extern "C" void drv_alike_##n##_##zc##_##pc() { sections_alike<n, zc, pc>(); }
#ifndef LARGE
NUM(3, 1, 1) NUM(4, 0, 2) NUM(4, 1, 2) NUM(4, 2, 1)
NUM(5, 0, 0) NUM(5, 1, 2) NUM(5, 2, 1) NUM(6, 0, 0) NUM(6, 3, 3) NUM(6, 2, 1) NUM(6, 1, 3) NUM(7, 3, 3) NUM(7, 1, 2) NUM(8, 4, 4) NUM(8, 3, 2) NUM(8, 0, 4) NUM(9, 4, 4) NUM(9, 2, 3) NUM(10, 5, 5) NUM(10, 3, 4) NUM(12, 6, 6)
#ifdef DEEP
SEC(4, 0, 1) SEC(4, 1, 0) SEC(5, 2, 2)
NUM(11, 5, 5) NUM(12, 3, 5) NUM(14, 5, 6) NUM(16, 8, 8) NUM(17, 6, 7) NUM(20, 10, 10) NUM(24, 10, 12)
#endif
#endif

// ----------------------------------------------------------------- S04
// the transfer function of a design at z = x
template <typename DS>
static double at_poly(DS const& d, double x) {
  auto const b = d.b();
  auto const a = d.a();
  double nu = 0, de = 0;
  for (std::size_t i = 0; i < b.size(); ++i) nu = nu * x + D(b[i]);
  for (std::size_t i = 0; i < a.size(); ++i) de = de * x + D(a[i]);
  return nu / de;
}
template <typename DS>
static double at_sos(DS const& d, double x) {
  double r = 1;
  for (std::size_t i = 0; i < d.sos().size(); ++i) {
    auto const b = d.sos()[i].b();
    auto const a = d.sos()[i].a();
    r *= ((D(b[0]) * x + D(b[1])) * x + D(b[2])) / ((D(a[0]) * x + D(a[1])) * x + D(a[2]));
  }
  return r;
}
template <typename P, typename DF>
static double analogue(P const& p, double s) {
  auto const q = p.template spec<DF>();
  cx n = product(q.zeros(), s), d = product(q.poles(), s);
  return D(q.gain()) * (n / d).re;
}
template <typename DF, std::size_t Zn, int Zc, std::size_t Pn, int Pc, bool SOS>
static void transform_of(bool hp) {
  precise<DF>("S04:precision");
  ai_merge(true);
  using P = proto<Zn, Zc, Pn, Pc>;
  P const p;
  proper("zi", Zc);
  proper("pi", Pc);
  DF const fs = R<DF>("fs"), f = R<DF>("f");
  double const t = std::tan(D(cm::pi<DF>()) * D(f) / D(fs));
  double const x = ai_real("x");
  double const s = hp ? t * (x + 1) / (x - 1) : (x - 1) / (x + 1) / t;
  double const e = analogue<P, DF>(p, s);
  sg::iirfilter<DF> const flt(fs);
  char const* id = hp ? "S04:highpass" : "S04:lowpass";
  if (!SOS) {
    auto const d = (hp ? flt.highpass(p, f) : flt.lowpass(p, f)).template poly<DF>();
    ai_req(at_poly(d, x), e, id);
    ai_req(D(d.a()[0]), 1.0, "S04:a[0]");
  } else {
    ai_positive(ai_reali("gain", 0));
    auto const d = (hp ? flt.highpass(p, f) : flt.lowpass(p, f)).template sos<DF>();
    ai_req(at_sos(d, x), e, id);
  }
  ai_reach("transform");
}
#define TR(zn, zc, pn, pc)                                                                                               \
  extern "C" void drv_tp_##zn##_##zc##_##pn##_##pc() { transform_of<double, zn, zc, pn, pc, false>(ai_choice(2)); }          \
  extern "C" void drv_tpl_##zn##_##zc##_##pn##_##pc() { transform_of<long double, zn, zc, pn, pc, false>(ai_choice(2)); }
#define TRS(zn, zc, pn, pc) TR(zn, zc, pn, pc) TRO(zn, zc, pn, pc)
#define TRO(zn, zc, pn, pc)                                                                                              \
  extern "C" void drv_ts_##zn##_##zc##_##pn##_##pc() { transform_of<double, zn, zc, pn, pc, true>(ai_choice(2)); }
#ifndef LARGE
TRS(0, 0, 1, 0) TRS(1, 0, 1, 0)
TRS(0, 0, 2, 0) TRS(0, 0, 2, 1) TRS(1, 0, 2, 1) TRS(2, 1, 2, 1) TRS(2, 0, 2, 1) TRS(2, 1, 2, 0)
TRS(0, 0, 3, 1) TRS(1, 0, 3, 1) TRS(2, 1, 3, 1) TRS(3, 1, 3, 1)
TRS(0, 0, 4, 2) TR(2, 1, 4, 2) TRS(4, 2, 4, 2) TR(3, 0, 4, 1) TR(1, 0, 4, 0)
TR(0, 0, 5, 2) TR(2, 1, 5, 2) TR(4, 2, 5, 2) TR(5, 2, 5, 1) TR(6, 3, 6, 3) TR(0, 0, 7, 3) TR(3, 1, 8, 3)
#ifdef DEEP
TRO(3, 1, 4, 1) TRO(0, 0, 5, 2) TRO(4, 2, 5, 2) TR(0, 0, 9, 4) TR(8, 4, 9, 4) TR(5, 2, 10, 5) TR(10, 5, 12, 6)
#endif
#endif

// ----------------------------------------------------------------- S05
// ripple chosen such that E = exp(mu): sinh(N mu) = X = (E^N - E^-N)/2
struct ripple {
  double E, iE, X, r, sinh_mu, cosh_mu;
};
static ripple choose(int N, double xinv_is_rf) {
  ripple q;
  q.E = ai_real("E");
  q.iE = 1 / q.E;
  double EN = 1;
  for (int i = 0; i < N; ++i) EN *= q.E;
  double const iEN = 1 / EN, mu = ai_real("mu"), n = static_cast<double>(N);
  ai_positive(q.E - q.iE);
  ai_positive(EN - iEN);
  ai_positive(q.E);
  q.X = (EN - iEN) / 2;
  double const CN = (EN + iEN) / 2;  // sqrt(1 + X^2)
  q.sinh_mu = (q.E - q.iE) / 2;
  q.cosh_mu = (q.E + q.iE) / 2;
  q.r = ai_real("ripple");
  double const e = xinv_is_rf != 0 ? 1 / q.X : q.X;  // sqrt(10^(r/10) - 1)
  double const p10 = 1 + e * e;
  ai_positive(p10 - 1);
  ai_define2("pow", 10.0, q.r / 10, p10);
  ai_define("exp", q.r / 10 * std::log(10.0), p10);
  ai_define("sqrt", p10, xinv_is_rf != 0 ? CN / q.X : CN);
  ai_define("sqrt", e * e, e);
  ai_define("sqrt", 1 / (e * e), 1 / e);
  ai_define("sqrt", 1 + 1 / (e * e), xinv_is_rf != 0 ? CN : CN / q.X);
  ai_define("asinh", q.X, n * mu);
  ai_define("log", EN, n * mu);
  ai_define("exp", mu, q.E);
  ai_define("exp", -mu, q.iE);
  ai_define("sinh", mu, q.sinh_mu);
  ai_define("cosh", mu, q.cosh_mu);
  ai_define("sinh", -mu, -q.sinh_mu);
  ai_define("cosh", -mu, q.cosh_mu);
  return q;
}
static cx power(cx a, int n) {
  cx r{1, 0};
  for (int i = 0; i < n; ++i) r = r * a;
  return r;
}
static double chebyshev_t(int n, double w) {
  double a = 1, b = w;
  for (int i = 1; i < n; ++i) {
    double c = 2 * w * b - a;
    a = b;
    b = c;
  }
  return n == 0 ? 1 : b;
}
// |H(jw)|^2
template <typename ZPK>
static double magnitude2(ZPK const& h, double w) {
  cx r{D(h.gain()) * D(h.gain()), 0};
  for (std::size_t i = 0; i < h.zeros().size(); ++i) r = r * ((cx{0, w} - C(h.zeros()[i])) * (cx{0, -w} - C(h.zeros()[i])));
  for (std::size_t i = 0; i < h.poles().size(); ++i) r = r / ((cx{0, w} - C(h.poles()[i])) * (cx{0, -w} - C(h.poles()[i])));
  return r.re;
}
template <typename ZPK>
static double at_zero(ZPK const& h) {
  cx r{D(h.gain()), 0};
  for (std::size_t i = 0; i < h.zeros().size(); ++i) r = r * (cx{0, 0} - C(h.zeros()[i]));
  for (std::size_t i = 0; i < h.poles().size(); ++i) r = r / (cx{0, 0} - C(h.poles()[i]));
  return r.re;
}
// the poles that lie in the left half plane: -(sh cos t_k, ch sin t_k)
template <typename V>
static void left_poles(V const& p, double sh, double ch, bool inverse, double x, char const* id) {
  int const n = static_cast<int>(V::size());
  cx e{1, 0};
  for (int k = 0; k < n; ++k) {
    double const t = cm::pi<double>() * (2 * k + 1 - n) / (2 * n);
    cx q{-sh * std::cos(t), -ch * std::sin(t)};
    if (inverse) q = cx{1, 0} / q;
    e = e * (cx{x, 0} - q);
  }
  cx const g = product(p, x);
  ai_req(g.re, e.re, id);
  ai_req(g.im, e.im, id);
  // complex ones come as exact conjugates and a real one is exactly real
  cx c{1, 0};
  for (int k = 0; k < n; ++k) {
    c = c * (cx{x, 0} - cx{D(p[static_cast<std::size_t>(k)].real()), -D(p[static_cast<std::size_t>(k)].imag())});
  }
  ai_req(c.re, g.re, id);
  ai_req(c.im, g.im, id);
}
template <typename S, typename ZPK>
static void consistent(S const& s, ZPK const& h, double x) {
  ai_req(product(s.zeros(), x).re, product(h.zeros(), x).re, "S05:zpk");
  ai_req(product(s.poles(), x).re, product(h.poles(), x).re, "S05:zpk");
  ai_req(product(s.zeros(), x).im, product(h.zeros(), x).im, "S05:zpk");
  ai_req(product(s.poles(), x).im, product(h.poles(), x).im, "S05:zpk");
  ai_req(D(s.gain()), D(h.gain()), "S05:zpk");
}
template <std::size_t N, typename F>
static void butter() {
  precise<F>("S05:precision");
  double const x = ai_real("x"), w = ai_real("w");
  auto const s = sg::butterworth<N>().template spec<F>();
  auto const h = s.zpk();
  ai_prove(sg::butterworth<N>::order() == N && h.poles().size() == N && h.zeros().size() == 0, "S05:butterworth order");
  left_poles(h.poles(), 1, 1, false, x, "S05:butterworth poles");
  ai_req(D(h.gain()), 1, "S05:butterworth gain");
  double w2 = 1;
  for (std::size_t i = 0; i < N; ++i) w2 *= w * w;
  ai_req(magnitude2(h, w), 1 / (1 + w2), "S05:butterworth magnitude");
  ai_req(at_zero(h), 1, "S05:butterworth at zero");
  consistent(s, h, x);
  ai_reach("butterworth");
}
template <std::size_t N, typename F, typename PF>
static void cheb1() {
  precise<F, PF>("S05:precision");
  double const x = ai_real("x"), w = ai_real("w");
  ripple const q = choose(N, 1);
  auto const s = sg::chebyshev1<N, PF>(static_cast<PF>(q.r)).template spec<F>();
  auto const h = s.zpk();
  ai_prove(sg::chebyshev1<N, PF>::order() == N && h.poles().size() == N && h.zeros().size() == 0, "S05:chebyshev1 order");
  left_poles(h.poles(), q.sinh_mu, q.cosh_mu, false, x, "S05:chebyshev1 poles");
  double const e2 = 1 / (q.X * q.X), T = chebyshev_t(N, w);
  ai_req(magnitude2(h, w), 1 / (1 + e2 * T * T), "S05:chebyshev1 magnitude");
  ai_req(at_zero(h), N % 2 ? 1.0 : 1 / std::sqrt(1 + e2), "S05:chebyshev1 at zero");
  ai_req(D(s.rf()) * D(s.rf()), e2, "S05:chebyshev1 rf");
  consistent(s, h, x);
  ai_reach("chebyshev1");
}
template <std::size_t N, typename F, typename PF>
static void cheb2() {
  precise<F, PF>("S05:precision");
  double const x = ai_real("x"), w = ai_real("w");
  ripple const q = choose(N, 0);
  auto const s = sg::chebyshev2<N, PF>(static_cast<PF>(q.r)).template spec<F>();
  auto const h = s.zpk();
  ai_prove(sg::chebyshev2<N, PF>::order() == N && h.poles().size() == N && h.zeros().size() == N / 2 * 2, "S05:chebyshev2 order");
  left_poles(h.poles(), q.sinh_mu, q.cosh_mu, true, x, "S05:chebyshev2 poles");
  double const e2 = 1 / (q.X * q.X), T = chebyshev_t(N, 1 / w);
  ai_req(magnitude2(h, w), 1 / (1 + 1 / (e2 * T * T)), "S05:chebyshev2 magnitude");
  ai_req(at_zero(h), 1, "S05:chebyshev2 at zero");
  for (std::size_t i = 0; i < h.zeros().size(); ++i) ai_req(D(h.zeros()[i].real()), 0, "S05:chebyshev2 zeros");
  ai_req(D(s.rf()) * D(s.rf()), e2, "S05:chebyshev2 rf");
  consistent(s, h, x);
  ai_reach("chebyshev2");
}
#define PROTO(n)                                                               \
  extern "C" void drv_bw_d_##n() { butter<n, double>(); }                       \
  extern "C" void drv_bw_f_##n() { butter<n, float>(); }                        \
  extern "C" void drv_bw_l_##n() { butter<n, long double>(); }                  \
  extern "C" void drv_c1_d_##n() { cheb1<n, double, double>(); }                \
  extern "C" void drv_c1_l_##n() { cheb1<n, long double, long double>(); }      \
  extern "C" void drv_c1_f_##n() { cheb1<n, float, float>(); }                  \
  extern "C" void drv_c2_d_##n() { cheb2<n, double, double>(); }                \
  extern "C" void drv_c2_l_##n() { cheb2<n, long double, long double>(); }      \
  extern "C" void drv_c2_f_##n() { cheb2<n, float, float>(); }
#ifndef LARGE
PROTO(1) PROTO(2) PROTO(3) PROTO(4) PROTO(5) PROTO(6) PROTO(7) PROTO(8) PROTO(9) PROTO(10) PROTO(11) PROTO(12)
#ifdef DEEP
PROTO(13) PROTO(14) PROTO(15) PROTO(16) PROTO(17) PROTO(18) PROTO(19) PROTO(20) PROTO(21) PROTO(22) PROTO(23) PROTO(24)
extern "C" void drv_bw_d_48() { butter<48, double>(); }
extern "C" void drv_c1_d_48() { cheb1<48, double, double>(); }
extern "C" void drv_c2_d_48() { cheb2<48, double, double>(); }
#endif
#endif

// ----------------------------------------------------------------- large orders
#if LARGE == 1
POLY(11) POLY(12) POLY(16) POLY(17) POLY(20)
#elif LARGE == 2
SOSQ(8) SOSQ(9) SOSQ(12) SOSQ(13) SOSQ(16) SOSQ(17) SOSQ(20) SOSQ(30)
#elif LARGE == 3
NUM(12, 3, 5) NUM(14, 5, 6) NUM(16, 8, 8) NUM(20, 10, 10)
#elif LARGE == 4
TR(0, 0, 9, 4) TR(8, 4, 9, 4) TR(5, 2, 10, 5) TR(10, 5, 12, 6) TR(0, 0, 16, 8) TR(0, 0, 20, 10)
#elif LARGE == 5
PROTO(13) PROTO(16) PROTO(17) PROTO(20) PROTO(24) PROTO(30) PROTO(40)
#elif LARGE == 8
REST(9) REST(12) REST(13) REST(16) REST(20)
#endif
