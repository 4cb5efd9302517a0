// D01: the bytes of a debug record.
#include "ai.h"
#include <embedded/signal/butterworth.h>
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/filter.h>
namespace cm = embedded::cmath;
namespace sg = embedded::signal;
namespace dt = embedded::signal::detail;

template <typename T>
static double D(T v) { return static_cast<double>(v); }

template <typename F, std::size_t N>
static dt::zpk_value<N, N, F> zpk(bool symbols) {
  F z[N], p[N];
  for (std::size_t i = 0; i < N; ++i) {
    z[i] = symbols ? static_cast<F>(ai_reali("z", static_cast<int>(i))) : static_cast<F>(-(3.0 + static_cast<double>((i * 37) % 101)) / 131);
    p[i] = symbols ? static_cast<F>(ai_reali("p", static_cast<int>(i))) : static_cast<F>((5.0 + static_cast<double>((i * 29) % 103)) / 127);
  }
  struct G {
    F const* v;
    cm::complex<F> operator()(std::size_t i) const { return cm::complex<F>(v[i]); }
  };
  using V = cm::vector<cm::complex<F>, N>;
  return dt::zpk_value<N, N, F>(V::create(G{z}), V::create(G{p}), static_cast<F>(ai_real("k")));
}
template <std::size_t S>
struct text {
  char v[S];
};
template <typename REC, std::size_t S, typename DS>
static void head(REC const& r, DS const&, text<S> const& t, unsigned structure, unsigned valtype) {
  unsigned char const* q = reinterpret_cast<unsigned char const*>(&r);
  ai_prove(*reinterpret_cast<std::uint32_t const*>(q) == 0x544C4946u, "D01:magic");
  ai_prove(*reinterpret_cast<std::uint16_t const*>(q + 4) == sizeof(REC), "D01:length");
  ai_prove(q[6] == 0, "D01:version");
  ai_prove(q[7] == structure, "D01:structure");
  ai_prove(q[8] == valtype, "D01:value type");
  // the name: as much of it as fits, then zeros to the end of the header
  for (std::size_t i = 0; i < 119; ++i) {
    char want = i < S - 1 && i < 118 ? t.v[i] : '\0';
    ai_prove(static_cast<char>(q[9 + i]) == want, "D01:name");
  }
}
template <std::size_t S>
static text<S> name() {
  text<S> t;
  for (std::size_t i = 0; i + 1 < S; ++i) t.v[i] = static_cast<char>(1 + (i * 7) % 126);
  t.v[S - 1] = '\0';
  return t;
}
template <typename F, typename F2, std::size_t N, std::size_t S>
static void poly_record(unsigned vt, bool symbols) {
  sg::poly_design<F, N> const d(zpk<F2, N>(symbols));
  text<S> const t = name<S>();
  using REC = dt::filter_design_debug<sg::poly_design<F, N>>;
  static_assert(sizeof(REC) == 128 + 2 * (N + 1) * sizeof(F), "");
  REC const r(d, t.v);
  head(r, d, t, 1, vt);
  F const* c = reinterpret_cast<F const*>(reinterpret_cast<unsigned char const*>(&r) + 128);
  for (std::size_t i = 0; i <= N; ++i) {
    ai_req(D(c[i]), D(d.b()[i]), "D01:coefficients");
    ai_req(D(c[N + 1 + i]), D(d.a()[i]), "D01:coefficients");
  }
}
template <typename F, typename F2, std::size_t N, std::size_t S>
static void sos_record(unsigned vt, bool symbols) {
  sg::sos_design<F, N> const d(zpk<F2, N>(symbols), sg::sos_gain::first_section);
  text<S> const t = name<S>();
  using REC = dt::filter_design_debug<sg::sos_design<F, N>>;
  static_assert(sizeof(REC) == 128 + 5 * ((N + 1) / 2) * sizeof(F), "");
  REC const r(d, t.v);
  head(r, d, t, 0, vt);
  F const* c = reinterpret_cast<F const*>(reinterpret_cast<unsigned char const*>(&r) + 128);
  for (std::size_t i = 0; i < (N + 1) / 2; ++i) {
    ai_req(D(c[5 * i]), D(d.sos()[i].b()[0]), "D01:coefficients");
    ai_req(D(c[5 * i + 1]), D(d.sos()[i].b()[1]), "D01:coefficients");
    ai_req(D(c[5 * i + 2]), D(d.sos()[i].b()[2]), "D01:coefficients");
    ai_req(D(c[5 * i + 3]), D(d.sos()[i].a()[1]), "D01:coefficients");
    ai_req(D(c[5 * i + 4]), D(d.sos()[i].a()[2]), "D01:coefficients");
  }
}
#define REC(n, sym)                                              \
  extern "C" void drv_poly_##n() {                               \
    poly_record<float, double, n, 6>(0, sym);                    \
    poly_record<double, double, n, 1>(1, sym);                   \
    poly_record<long double, long double, n, 30>(2, sym);        \
    poly_record<double, float, n, 40>(1, sym);                   \
    ai_reach("poly");                                            \
  }                                                              \
  extern "C" void drv_sos_##n() {                                \
    sos_record<float, double, n, 6>(0, sym);                     \
    sos_record<double, double, n, 1>(1, sym);                    \
    sos_record<long double, long double, n, 30>(2, sym);         \
    sos_record<double, float, n, 40>(1, sym);                    \
    ai_reach("sos");                                             \
  }
REC(1, true) REC(2, true) REC(3, false) REC(4, false) REC(5, false) REC(8, false) REC(10, false) REC(17, false)
#ifdef DEEP
REC(6, false) REC(7, false) REC(9, false) REC(16, false) REC(12, false) REC(20, false)
#endif
#define NAMES(n)                                                 \
  extern "C" void drv_name_##n() {                               \
    poly_record<float, double, 2, n + 1>(0, false);              \
    sos_record<double, double, 2, n + 1>(1, false);              \
    ai_reach("name");                                            \
  }
NAMES(0) NAMES(1) NAMES(2) NAMES(7) NAMES(60) NAMES(115) NAMES(116) NAMES(117) NAMES(118) NAMES(119) NAMES(120) NAMES(121) NAMES(127) NAMES(128) NAMES(129) NAMES(200) NAMES(255) NAMES(256)
#ifdef DEEP
NAMES(3) NAMES(8) NAMES(15) NAMES(16) NAMES(31) NAMES(32) NAMES(63) NAMES(64) NAMES(100) NAMES(112) NAMES(113) NAMES(114) NAMES(122) NAMES(123) NAMES(124) NAMES(125) NAMES(126) NAMES(130) NAMES(511) NAMES(512)
#endif
