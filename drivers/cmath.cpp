// Complex numbers, vectors, convolution and polynomials over symbolic reals.
#include "ai.h"
#include <cmath>
#include <embedded/constexpr_math.h>
namespace cm = embedded::cmath;
using embedded::index_sequence;
using embedded::make_index_sequence;

#ifndef NMAX
#define NMAX 5
#endif

template <typename T>
static double D(T v) { return static_cast<double>(v); }
template <typename T>
static T R(char const* n, int i = 0) { return static_cast<T>(ai_reali(n, i)); }
template <typename T>
static cm::complex<T> Z(char const* re, char const* im, int i = 0) { return cm::complex<T>(R<T>(re, i), R<T>(im, i)); }

template <typename T>
struct Same {
  static void f(T const& a, T const& b, char const* id) { ai_req(D(a), D(b), id); }
};
template <typename T>
struct Same<cm::complex<T>> {
  static void f(cm::complex<T> const& a, cm::complex<T> const& b, char const* id) {
    ai_req(D(a.real()), D(b.real()), id);
    ai_req(D(a.imag()), D(b.imag()), id);
  }
};
template <typename T>
static void same(T const& a, T const& b, char const* id) { Same<T>::f(a, b, id); }
template <typename T>
static void parts(cm::complex<T> const& z, T re, T im, char const* id) {
  ai_req(D(z.real()), D(re), id);
  ai_req(D(z.imag()), D(im), id);
}

// ------------------------------------------------------------------ X01
template <typename T>
static void arith() {
  precise<T>("X01:precision");
  using C = cm::complex<T>;
  T a = R<T>("a"), b = R<T>("b"), c = R<T>("c"), d = R<T>("d"), s = R<T>("s");
  C const x(a, b), y(c, d);
  parts(C(), T(0), T(0), "X01:construction");
  parts(C(a), a, T(0), "X01:construction");
  parts(x, a, b, "X01:construction");
  C k = x;
  parts(k, a, b, "X01:construction");
  k = y;
  parts(k, c, d, "X01:construction");
  parts(x + y, a + c, b + d, "X01:+");
  parts(x - y, a - c, b - d, "X01:-");
  parts(-x, -a, -b, "X01:negation");
  parts(x * y, a * c - b * d, a * d + b * c, "X01:*");
  parts(s + x, s + a, b, "X01:real + complex");
  parts(s - x, s - a, -b, "X01:real - complex");
  parts(s * x, s * a, s * b, "X01:real * complex");
  parts(x.conj(), a, -b, "X01:conj");
  ai_req(D(x.norm()), D(a * a + b * b), "X01:norm");
  ai_req(D(x.real()), D(a), "X01:real");
  ai_req(D(x.imag()), D(b), "X01:imag");
  {
    C q = x / y;
    parts(q * y, a, b, "X01:/");
    parts(q, (a * c + b * d) / (c * c + d * d), (b * c - a * d) / (c * c + d * d), "X01:/");
    C r = s / y;
    parts(r, s * c / (c * c + d * d), -s * d / (c * c + d * d), "X01:real / complex");
    parts(x / s, a / s, b / s, "X01:complex / real");
  }
  ai_reach("arith");
}
template <typename T>
static void functions() {
  precise<T>("X01:precision");
  using C = cm::complex<T>;
  T a = R<T>("a"), b = R<T>("b"), c = R<T>("c"), d = R<T>("d");
  C const x(a, b), y(c, d);
  ai_req(D(x.abs()), D(std::sqrt(a * a + b * b)), "X01:abs");
  ai_req(D(x.distance(y)), D(std::sqrt((a - c) * (a - c) + (b - d) * (b - d))), "X01:distance");
  C e = exp(x);
  parts(e, std::exp(a) * std::cos(b), std::exp(a) * std::sin(b), "X01:exp");
  ai_reach("functions");
}
template <typename T>
static void predicates() {
  precise<T>("X01:precision");
  using C = cm::complex<T>;
  T a = R<T>("a"), b = R<T>("b"), c = R<T>("c"), d = R<T>("d");
  bool const z = b == T(0);
  ai_prove(C(a, b).is_real() == z, "X01:is_real");
  ai_prove(C(a).is_real(), "X01:is_real");
  bool const e1 = a == c, e2 = b == d;
  ai_prove((C(a, b) == C(c, d)) == (e1 && e2), "X01:==");
  ai_prove(C(a, b) == C(a, b), "X01:==");
  ai_reach("predicates");
}
#define X1(T, n)                                                 \
  extern "C" void drv_arith_##n() { arith<T>(); }                \
  extern "C" void drv_functions_##n() { functions<T>(); }        \
  extern "C" void drv_predicates_##n() { predicates<T>(); }
X1(float, f)
X1(double, d)
X1(long double, l)

// ------------------------------------------------------------------ X02
template <typename E>
struct elem;
template <>
struct elem<float> { static float get(char const* n, int i) { return R<float>(n, i); } };
template <>
struct elem<double> { static double get(char const* n, int i) { return R<double>(n, i); } };
template <>
struct elem<cm::complex<double>> {
  static cm::complex<double> get(char const* n, int i) { return Z<double>(n, n[0] == 'x' ? "xi" : "yi", i); }
};
template <typename E, std::size_t... I>
static cm::vector<E, sizeof...(I)> mk(char const* n, index_sequence<I...>) {
  return cm::vector<E, sizeof...(I)>{elem<E>::get(n, I)...};
}
template <typename E, std::size_t N>
static cm::vector<E, N> vec(char const* n = "x") { return mk<E>(n, make_index_sequence<N>{}); }
template <typename E>
static E el(int i, char const* n = "x") { return elem<E>::get(n, i); }

// v has the elements x[ix(0)], x[ix(1)], ...
template <typename E, std::size_t N, typename F>
static void are(cm::vector<E, N> const& v, F ix, char const* id) {
  ai_prove(v.size() == N && cm::vector<E, N>::size() == N, "X02:size");
  for (std::size_t i = 0; i < N; ++i) same<E>(v[i], ix(static_cast<int>(i)), id);
}

struct Gen {
  int* calls;
  double operator()(std::size_t i) const { return ++calls[i], ai_reali("g", static_cast<int>(i)); }
};
struct Neg {
  int* calls;
  double operator()(double v) const { return ++*calls, v * 3.0 + 1.0; }
  cm::complex<double> operator()(cm::complex<double> const& v) const { return ++*calls, v * cm::complex<double>(3.0) + cm::complex<double>(1.0); }
};
struct ToC {
  cm::complex<double> operator()(double v) const { return cm::complex<double>(v, v + 1.0); }
};
struct Count {
  int* calls;  // elements are concrete here
  long operator()(long v) const { return ++calls[v], v + 10; }
  long operator()(long acc, long v) const { return ++calls[v], acc * 10 + v; }
  bool operator()(long a, char) const { return a != 0; }
};
struct Sum {
  template <typename T>
  T operator()(T const& a, T const& b) const { return a + b; }
};
template <std::size_t... I>
static cm::vector<long, sizeof...(I)> iota(index_sequence<I...>) { return cm::vector<long, sizeof...(I)>{static_cast<long>(I)...}; }

template <typename E, std::size_t N>
static void basics() {
  precise<double>("X02:precision");
  auto const v = vec<E, N>();
  are(v, [](int i) { return el<E>(i); }, "X02:construction");
  cm::vector<E, N> const c(v);
  are(c, [](int i) { return el<E>(i); }, "X02:copy");
  cm::vector<E, N> m(v);
  cm::vector<E, N> m2(m);
  are(m2, [](int i) { return el<E>(i); }, "X02:copy");
  m2 = cm::vector<E, N>{};
  are(m2, [](int) { return E(0); }, "X02:default");
  m2 = m;
  are(m2, [](int i) { return el<E>(i); }, "X02:assignment");
  are(cm::vector<E, N>::zeros(), [](int) { return E(0); }, "X02:zeros");
  are(cm::vector<E, N>::ones(), [](int) { return E(1); }, "X02:ones");
  are(cm::vector<E, N>::full(el<E>(0, "y")), [](int) { return el<E>(0, "y"); }, "X02:full");
  ai_reach("basics");
}
template <std::size_t N>
static void create() {
  precise<double>("X02:precision");
  int calls[N + 1] = {};
  auto v = cm::vector<double, N>::create(Gen{calls});
  for (std::size_t i = 0; i < N; ++i) ai_req(v[i], ai_reali("g", static_cast<int>(i)), "X02:create"), ai_prove(calls[i] == 1, "X02:create, each once");
  int calls2[N + 1] = {};
  auto w = cm::make_vector<double>(Gen{calls2}, make_index_sequence<N>{});
  ai_prove(w.size() == N, "X02:size");
  for (std::size_t i = 0; i < N; ++i) ai_req(w[i], ai_reali("g", static_cast<int>(i)), "X02:make_vector"), ai_prove(calls2[i] == 1, "X02:make_vector, each once");
  // conversions
  cm::vector<double, N> d = vec<float, N>();
  are(d, [](int i) { return D(el<float>(i)); }, "X02:conversion");
  cm::vector<long double, N> l = vec<double, N>();
  for (std::size_t i = 0; i < N; ++i) same<long double>(l[i], static_cast<long double>(el<double>(static_cast<int>(i))), "X02:conversion");
  ai_precision(std::numeric_limits<long double>::digits, "X02:precision");
  cm::vector<long double, N> const ll = l;
  cm::vector<cm::complex<long double>, N> const lz = l;
  for (std::size_t i = 0; i < N; ++i) same<long double>(ll[i], l[i], "X02:conversion"), parts(lz[i], l[i], 0.0L, "X02:conversion");
  ai_precision(0, "X02:precision");
  cm::vector<float, N> f = vec<double, N>();
  for (std::size_t i = 0; i < N; ++i) same<float>(f[i], static_cast<float>(el<double>(static_cast<int>(i))), "X02:conversion");
  precise<double>("X02:precision");
  cm::vector<cm::complex<double>, N> z = vec<double, N>();
  for (std::size_t i = 0; i < N; ++i) parts(z[i], el<double>(static_cast<int>(i)), 0.0, "X02:conversion");
  cm::vector<double, N> k = iota(make_index_sequence<N>{});
  for (std::size_t i = 0; i < N; ++i) ai_req(k[i], static_cast<double>(i), "X02:conversion");
  ai_reach("create");
}
template <std::size_t N>
static void mapping() {
  precise<double>("X02:precision");
  auto v = vec<double, N>();
  int calls = 0;
  auto t = v.transform(Neg{&calls});
  are(t, [](int i) { return el<double>(i) * 3.0 + 1.0; }, "X02:transform");
  ai_prove(calls == static_cast<int>(N), "X02:transform, each once");
  auto z = v.template transform<cm::complex<double>>(ToC{});
  for (std::size_t i = 0; i < N; ++i) parts(z[i], el<double>(static_cast<int>(i)), el<double>(static_cast<int>(i)) + 1.0, "X02:transform");
  auto const io = iota(make_index_sequence<N>{});
  int c1[N + 1] = {}, c2[N + 1] = {};
  auto k = io.transform(Count{c1});
  for (std::size_t i = 0; i < N; ++i) ai_prove(c1[i] == 1 && k[i] == static_cast<long>(i) + 10, "X02:transform, each once");
  (void)io.reduce(Count{c2}, 0);
  for (std::size_t i = 0; i < N; ++i) ai_prove(c2[i] == 1, "X02:reduce, each once");
  double s = ai_real("s"), p = 1.0;
  for (std::size_t i = 0; i < N; ++i) s += el<double>(static_cast<int>(i)), p *= el<double>(static_cast<int>(i));
  ai_req(v.reduce(Sum{}, ai_real("s")), s, "X02:reduce");
  ai_req(v.reduce(Sum{}), s - ai_real("s") + 1.0, "X02:reduce");
  ai_req(prod(v), p, "X02:prod");
  cm::complex<double> q(1.0);
  for (std::size_t i = 0; i < N; ++i) q = q * el<cm::complex<double>>(static_cast<int>(i));
  same<cm::complex<double>>(prod(vec<cm::complex<double>, N>()), q, "X02:prod");
  ai_reach("mapping");
}
template <typename E, std::size_t N>
static void scalar(E s) {
  precise<double>("X02:precision");
  auto v = vec<E, N>();
  are(s * v, [s](int i) { return s * el<E>(i); }, "X02:scalar * vector");
  are(s + v, [s](int i) { return s + el<E>(i); }, "X02:scalar + vector");
  are(s / v, [s](int i) { return s / el<E>(i); }, "X02:scalar / vector");
  are(v / s, [s](int i) { return el<E>(i) / s; }, "X02:vector / scalar");
  are(-v, [](int i) { return -el<E>(i); }, "X02:-vector");
  are(exp(v), [](int i) {
    using cm::exp;
    return exp(el<E>(i));
  }, "X02:exp");
  ai_reach("scalar");
}
template <std::size_t N>
static void complexes() {
  precise<double>("X02:precision");
  using C = cm::complex<double>;
  auto v = vec<C, N>();
  double const s = ai_real("s");
  are(real(v), [](int i) { return el<C>(i).real(); }, "X02:real");
  are(imag(v), [](int i) { return el<C>(i).imag(); }, "X02:imag");
  are(norm(v), [](int i) { return el<C>(i).norm(); }, "X02:norm");
  are(abs(v), [](int i) { return el<C>(i).abs(); }, "X02:abs");
  are(s * v, [s](int i) { return s * el<C>(i); }, "X02:real * complex vector");
  are(s + v, [s](int i) { return s + el<C>(i); }, "X02:real + complex vector");
  are(s / v, [s](int i) { return s / el<C>(i); }, "X02:real / complex vector");
  are(v / s, [s](int i) { return el<C>(i) / s; }, "X02:complex vector / real");
  ai_reach("complexes");
}
template <typename E, std::size_t N, std::size_t M>
static void append() {
  auto r = vec<E, N>().append(vec<E, M>("y"));
  static_assert(std::is_same<decltype(r), cm::vector<E, N + M>>::value, "type");
  are(r, [](int i) { return i < static_cast<int>(N) ? el<E>(i) : el<E>(i - static_cast<int>(N), "y"); }, "X02:append");
}
template <typename E, std::size_t N, std::size_t P, std::size_t C, bool = (P + C <= N)>
struct sub {
  static void run() {
    auto v = vec<E, N>();
    auto s = v.template subvector<P, C>();
    static_assert(std::is_same<decltype(s), cm::vector<E, C>>::value, "type");
    are(s, [](int i) { return el<E>(i + static_cast<int>(P)); }, "X02:subvector");
    auto e = v.template erase<P, C>();
    static_assert(std::is_same<decltype(e), cm::vector<E, N - C>>::value, "type");
    are(e, [](int i) { return el<E>(i < static_cast<int>(P) ? i : i + static_cast<int>(C)); }, "X02:erase");
    if (C == 1) one(v, std::integral_constant<bool, (P < N)>());
  }
  static void one(cm::vector<E, N> const& v, std::true_type) {
    are(v.template erase<P>(), [](int i) { return el<E>(i < static_cast<int>(P) ? i : i + 1); }, "X02:erase");
  }
  static void one(cm::vector<E, N> const&, std::false_type) {}
};
template <typename E, std::size_t N, std::size_t P, std::size_t C>
struct sub<E, N, P, C, false> {
  static void run() {}
};
template <typename E, std::size_t N>
static void swaps(std::true_type) {
  auto v = vec<E, N>();
  for (std::size_t a = 0; a < N; ++a) {
    for (std::size_t b = 0; b < N; ++b)
      are(v.swap(a, b), [a, b](int i) { return el<E>(i == static_cast<int>(a) ? static_cast<int>(b) : i == static_cast<int>(b) ? static_cast<int>(a) : i); }, "X02:swap");
    auto p = v.swappop(a);
    ai_prove(p.size() == N - 1, "X02:size");
    // the others, each once; the documented order: the first takes the place
    are(p, [a](int i) { return el<E>(i + 1 == static_cast<int>(a) ? 0 : i + 1); }, "X02:swappop");
  }
}
template <typename E, std::size_t N>
static void swaps(std::false_type) {}

template <typename E, std::size_t N, std::size_t... M>
static void places_row(index_sequence<M...>) {
  int d[] = {0, (append<E, N, M>(), 0)...};
  (void)d;
}
template <typename E, std::size_t N, std::size_t P, std::size_t... C>
static void sub_row(index_sequence<C...>) {
  int d[] = {0, (sub<E, N, P, C>::run(), 0)...};
  (void)d;
}
template <typename E, std::size_t N, std::size_t... P>
static void sub_all(index_sequence<P...>) {
  int d[] = {0, (sub_row<E, N, P>(make_index_sequence<N + 1>{}), 0)...};
  (void)d;
}
template <typename E, std::size_t N>
static void places() {
  precise<double>("X02:precision");
  places_row<E, N>(make_index_sequence<NMAX + 1>{});
  sub_all<E, N>(make_index_sequence<N + 1>{});
  swaps<E, N>(std::integral_constant<bool, (N > 0)>());
  ai_reach("places");
}
#define X2(N)                                                                        \
  extern "C" void drv_basics_##N() { ai_choice(2) ? basics<double, N>() : basics<cm::complex<double>, N>(); } \
  extern "C" void drv_create_##N() { create<N>(); }                                  \
  extern "C" void drv_mapping_##N() { mapping<N>(); }                                \
  extern "C" void drv_scalar_##N() { ai_choice(2) ? scalar<double, N>(ai_real("s")) : scalar<cm::complex<double>, N>(Z<double>("s", "t")); } \
  extern "C" void drv_complexes_##N() { complexes<N>(); }                            \
  extern "C" void drv_places_##N() { ai_choice(2) ? places<double, N>() : places<cm::complex<double>, N>(); }

// ------------------------------------------------------------------ X03
struct Less {
  bool operator()(long a, long b) const { return a < b; }
};
struct Greater {
  bool operator()(long a, long b) const { return a > b; }
};
struct Never {
  bool operator()(long, long) const { return false; }
};
struct Below {
  long k;
  bool operator()(long a) const { return a < k; }
};
struct BelowInt {  // a predicate may return anything that converts to bool
  long k;
  int operator()(long a) const { return a < k ? 4 : 0; }
};
struct Item {
  long key;
  int tag;
};
struct ItemLess {
  bool operator()(Item const& a, Item const& b) const { return a.key < b.key; }
};
struct ItemGreater {
  bool operator()(Item const& a, Item const& b) const { return b.key < a.key; }
};
template <std::size_t N>
static void keys(long (&k)[N + 1]) {
  char nm[3] = "k0";
  for (std::size_t i = 0; i < N; ++i) nm[1] = static_cast<char>('0' + i), k[i] = ai_sint(nm, -1000, 1000);
}
template <std::size_t... I>
static cm::vector<long, sizeof...(I)> lv(long const* k, index_sequence<I...>) { return cm::vector<long, sizeof...(I)>{k[I]...}; }
template <std::size_t... I>
static cm::vector<Item, sizeof...(I)> iv(long const* k, index_sequence<I...>) { return cm::vector<Item, sizeof...(I)>{Item{k[I], static_cast<int>(I)}...}; }
template <std::size_t N, typename P>
static void argmin(P pred) {
  long k[N + 1];
  keys<N>(k);
  auto v = lv(k, make_index_sequence<N>{});
  std::size_t m = v.argmin(pred);
  ai_prove(m < N, "X03:argmin");
  for (std::size_t i = 0; i < N; ++i) {
    ai_prove(!pred(k[i], k[m]), "X03:argmin");
    if (i < m) {
      // an earlier element does not qualify
      bool preceded = false;
      for (std::size_t j = 0; j < N; ++j) preceded = preceded || pred(k[j], k[i]);
      ai_prove(preceded, "X03:argmin, first");
    }
  }
}
template <std::size_t N>
static void counting() {
  long k[N + 1];
  keys<N>(k);
  auto v = lv(k, make_index_sequence<N>{});
  long t = ai_sint("t", -1000, 1000);
  std::size_t n = 0;
  for (std::size_t i = 0; i < N; ++i) n += k[i] < t ? 1 : 0;
  ai_prove(v.count(Below{t}) == n, "X03:count");
  ai_prove(v.count(BelowInt{t}) == n, "X03:count");
  ai_reach("counting");
}
template <std::size_t N, typename P>
static void sorting(P pred) {
  long k[N + 1];
  keys<N>(k);
  auto v = iv(k, make_index_sequence<N>{});
  auto s = v.sort(pred);
  ai_prove(s.size() == N, "X03:sort");
  int seen[N + 1] = {};
  for (std::size_t i = 0; i < N; ++i) {
    ai_prove(s[i].tag >= 0 && s[i].tag < static_cast<int>(N), "X03:sort, permutation");
    ++seen[s[i].tag];
    ai_prove(s[i].key == k[s[i].tag], "X03:sort, permutation");
    if (i > 0) ai_prove(!pred(s[i], s[i - 1]), "X03:sort, order");
  }
  for (std::size_t i = 0; i < N; ++i) ai_prove(seen[i] == 1, "X03:sort, permutation");
  // the input is unchanged
  for (std::size_t i = 0; i < N; ++i) ai_prove(v[i].tag == static_cast<int>(i) && v[i].key == k[i], "X03:sort, input");
  ai_reach("sorting");
}
// a type whose values may be unordered
struct Partial {
  long v;
  bool operator==(Partial const& o) const { return v == o.v; }
  bool operator!=(Partial const& o) const { return v != o.v; }
  bool operator<(Partial const&) const { return false; }
  bool operator>(Partial const&) const { return false; }
};
template <std::size_t... I>
static cm::vector<Partial, sizeof...(I)> pv(long const* k, index_sequence<I...>) { return cm::vector<Partial, sizeof...(I)>{Partial{k[I]}...}; }
template <std::size_t N>
static void equality() {
  long k[N + 1], l[N + 1];
  keys<N>(k);
  char nm[3] = "l0";
  for (std::size_t i = 0; i < N; ++i) nm[1] = static_cast<char>('0' + i), l[i] = ai_sint(nm, -1000, 1000);
  auto a = lv(k, make_index_sequence<N>{}), b = lv(l, make_index_sequence<N>{});
  bool e = true;
  for (std::size_t i = 0; i < N; ++i) e = e && k[i] == l[i];
  ai_prove((a == b) == e, "X03:==");
  ai_prove(a == a, "X03:==");
  ai_prove((pv(k, make_index_sequence<N>{}) == pv(l, make_index_sequence<N>{})) == e, "X03:==, unordered values");
  ai_reach("equality");
}
extern "C" void drv_eq_complex() {
  using V = cm::vector<cm::complex<double>, 2>;
  double a = ai_real("a"), b = ai_real("b");
  bool e = a == b;
  V x{cm::complex<double>(1.0, a), cm::complex<double>(a, 2.0)}, y{cm::complex<double>(1.0, b), cm::complex<double>(b, 2.0)};
  ai_prove((x == y) == e, "X03:==, complex");
  ai_prove(x == x, "X03:==, complex");
  ai_reach("eq_complex");
}
template <std::size_t N>
static void argmins() {
  switch (ai_choice(3)) {
    case 0: argmin<N>(Less{}); break;
    case 1: argmin<N>(Greater{}); break;
    default: argmin<N>(Never{});
  }
  ai_reach("argmins");
}
#define X3(N)                                                \
  extern "C" void drv_counting_##N() { counting<N>(); }      \
  extern "C" void drv_sorting_##N() { ai_choice(2) ? sorting<N>(ItemLess{}) : sorting<N>(ItemGreater{}); } \
  extern "C" void drv_equality_##N() { equality<N>(); }
#define X3A(N) \
  extern "C" void drv_argmins_##N() { argmins<N>(); }

// ------------------------------------------------------------------ X04
template <typename E, std::size_t N, std::size_t M>
static void conv() {
  precise<double>("X04:precision");
  auto a = vec<E, N>();
  auto b = vec<E, M>("y");
  auto c = convolve_full(a, b);
  static_assert(std::is_same<decltype(c), cm::vector<E, N + M - 1>>::value, "type");
  for (std::size_t n = 0; n < N + M - 1; ++n) {
    E s(0);
    for (std::size_t m = 0; m < N; ++m)
      if (n >= m && n - m < M) s = s + a[m] * b[n - m];
    same<E>(c[n], s, "X04:convolve_full");
  }
  ai_reach("conv");
}
template <typename E, std::size_t N, std::size_t... M>
static void conv_row(index_sequence<M...>) {
  int d[] = {0, (conv<E, N, M + 1>(), 0)...};
  (void)d;
}
template <typename E, std::size_t N>
static void poly() {
  precise<double>("X04:precision");
  auto z = vec<E, N>();
  auto c = cm::poly(z);
  static_assert(std::is_same<decltype(c), cm::vector<E, N + 1>>::value, "type");
  // prod (x - z_k), highest power first, factor by factor
  E r[N + 2];
  r[0] = E(1);
  for (std::size_t k = 0; k < N; ++k) {
    r[k + 1] = E(0) - z[k] * r[k];
    for (std::size_t i = k; i > 0; --i) r[i] = r[i] - z[k] * r[i - 1];
  }
  for (std::size_t i = 0; i <= N; ++i) same<E>(c[i], r[i], "X04:poly");
  ai_reach("poly");
}
#define X4(N)                                                                                       \
  extern "C" void drv_conv_##N() { ai_choice(2) ? conv_row<double, N>(make_index_sequence<NMAX + 1>{}) : conv_row<cm::complex<double>, N>(make_index_sequence<NMAX + 1>{}); } \
  extern "C" void drv_convf_##N() { conv_row<float, N>(make_index_sequence<3>{}); }
#define X4P(N) \
  extern "C" void drv_poly_##N() { ai_choice(2) ? poly<double, N>() : poly<cm::complex<double>, N>(); }
#ifdef LARGE
// ---- large sizes: the sizes above are exhaustive in positions, these are samples of
// positions (the ends, the middle, one past a power of two) with all contents symbolic
template <typename E, std::size_t N>
static void large_places() {
  int d[] = {(append<E, N, 1>(), 0), (append<E, 1, N>(), 0), (append<E, N, N / 2>(), 0), (append<E, 0, N>(), 0), (append<E, N, 0>(), 0)};
  (void)d;
  sub<E, N, 0, 1>::run();
  sub<E, N, 0, N>::run();
  sub<E, N, N - 1, 1>::run();
  sub<E, N, N / 2, 1>::run();
  sub<E, N, N / 2, N - N / 2>::run();
  sub<E, N, 0, N / 2>::run();
  sub<E, N, 1, N - 2>::run();
  sub<E, N, N - 2, 2>::run();
  auto v = vec<E, N>();
  std::size_t const at[] = {0, 1, N / 2, N - 2, N - 1};
  for (std::size_t a : at) {
    for (std::size_t b : at)
      are(v.swap(a, b), [a, b](int i) { return el<E>(i == static_cast<int>(a) ? static_cast<int>(b) : i == static_cast<int>(b) ? static_cast<int>(a) : i); }, "X02:swap");
    are(v.swappop(a), [a](int i) { return el<E>(i + 1 == static_cast<int>(a) ? 0 : i + 1); }, "X02:swappop");
  }
  ai_reach("large_places");
}
#define X2L(N)                                                                       \
  extern "C" void drv_large_basics_##N() { basics<double, N>(); }                    \
  extern "C" void drv_large_create_##N() { create<N>(); }                            \
  extern "C" void drv_large_mapping_##N() { mapping<N>(); }                          \
  extern "C" void drv_large_scalar_##N() { scalar<double, N>(ai_real("s")); }        \
  extern "C" void drv_large_complexes_##N() { complexes<N>(); }                      \
  extern "C" void drv_large_places_##N() { large_places<double, N>(); }
// whole families of long inputs: sorted, reversed, rotated, organ pipe, all alike
template <std::size_t N>
static void family(long (&k)[N + 1]) {
  int const shape = static_cast<int>(ai_choice(5));
  long v = ai_sint("base", -1000, 1000);
  for (std::size_t i = 0; i < N; ++i) {
    std::size_t at = i;
    if (shape == 1) at = N - 1 - i;
    if (shape == 2) at = (i + N / 3) % N;
    if (shape == 3) at = i % 2 ? N - 1 - i / 2 : i / 2;
    k[at] = v;
    if (shape != 4) v += i % 3 == 2 ? 0 : 1 + static_cast<long>(i % 2);
  }
}
template <std::size_t N>
static void large_order() {
  long k[N + 1];
  family<N>(k);
  auto v = iv(k, make_index_sequence<N>{});
  ItemLess const pred{};
  std::size_t const m = v.argmin(pred);
  ai_prove(m < N, "X03:argmin");
  for (std::size_t i = 0; i < N; ++i) ai_prove(i < m ? k[m] < k[i] : k[m] <= k[i], "X03:argmin");
  auto s = v.sort(pred);
  int seen[N + 1] = {};
  for (std::size_t i = 0; i < N; ++i) {
    ++seen[s[i].tag];
    ai_prove(s[i].key == k[s[i].tag], "X03:sort, permutation");
    if (i > 0) ai_prove(!pred(s[i], s[i - 1]), "X03:sort, order");
  }
  for (std::size_t i = 0; i < N; ++i) ai_prove(seen[i] == 1, "X03:sort, permutation");
  long const t = k[N / 2];
  std::size_t n = 0;
  for (std::size_t i = 0; i < N; ++i) n += k[i] < t ? 1 : 0;
  auto l = lv(k, make_index_sequence<N>{});
  ai_prove(l.count(Below{t}) == n, "X03:count");
  ai_prove(l.count(BelowInt{t}) == n, "X03:count");
  ai_reach("large_order");
}
#define X3L(N)                                                    \
  extern "C" void drv_large_equality_##N() { equality<N>(); }     \
  extern "C" void drv_large_order_##N() { large_order<N>(); }
#define X4L(N, M)                                                                \
  extern "C" void drv_large_conv_##N##_##M() { conv<double, N, M>(); }
X2L(9) X2L(16) X2L(17) X2L(33) X2L(65) X2L(100)
X3L(9) X3L(10) X3L(16) X3L(17) X3L(33)
X4L(9, 9) X4L(16, 16) X4L(17, 2) X4L(2, 17) X4L(12, 5) X4L(3, 33) X4L(33, 3) X4L(20, 20)
X4P(8) X4P(9) X4P(10) X4P(12) X4P(16) X4P(20)
#else
#define EACH(M) M(1) M(2) M(3) M(4) M(5)
X2(0) EACH(X2)
X3(0) EACH(X3) EACH(X3A)
EACH(X4) X4(6) X4P(0) EACH(X4P) X4P(6) X4P(7)
#if NMAX > 5
X2(6) X2(7)
X3A(6)
X4(7) X4(8) X4P(8) X4P(9) X4P(10) X4P(12)
#endif
#endif
