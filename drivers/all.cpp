// One use of everything public, every function a root of its own: for the
// configuration matrix (C01) and the call-graph analyses (C02, C03, C04).
// Written in C++11 so that it goes through every configuration.
#ifndef ONLY_HEADER
#include <embedded/circular_buffer_adapter.h>
#include <embedded/config.h>
#include <embedded/constexpr_math.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/preprocessor.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/type_traits.h>
#include <embedded/typelist.h>
#include <embedded/utility/integer_sequence.h>
#include <embedded/varint.h>
#endif
#ifdef WITH_DEBUG
#include <embedded/signal/debug_filter_coefs.h>
#endif
#include <array>
#include <cstdint>
#include <iterator>
#include <tuple>

namespace user {
// element and callable types of a user; their members are the user's code
struct elem {
  int v;
  elem();
  explicit elem(int, int);
  elem(elem const&);
  elem(elem&&);
  elem& operator=(elem const&);
  elem& operator=(elem&&);
  ~elem();
};
struct only_move {
  int v;
  explicit only_move(int);
  only_move(only_move&&) noexcept;
  only_move(only_move const&) = delete;
  ~only_move();
  int get() const;
  int set(int);
};
struct mutex {
  void lock();
  void unlock();
};
struct fun {
  int a, b;
  fun();
  fun(fun&&) noexcept;
  fun(fun const&);
  ~fun();
  int operator()(int) const;
};
struct vfun {
  vfun(vfun&&) noexcept;
  vfun(vfun const&);
  void operator()(only_move, elem&);
};
struct base {
  int member;
  int method(int);
  int cmethod() const;
};
struct fun2 {
  fun2();
  fun2(fun2&&) noexcept;
  fun2(fun2 const&);
  ~fun2();
  elem const& operator()(elem const&, long) const;
  base* operator()(base&);
};
struct container {
  using value_type = std::uint8_t;
  void push_back(std::uint8_t const&);
  void push_back(std::uint8_t&&);
};
// a fixed-point-like sample type
struct sample {
  int raw;
  constexpr sample() : raw(0) {}
  constexpr explicit sample(double d) : raw(static_cast<int>(d * 65536)) {}
  constexpr explicit sample(float d) : raw(static_cast<int>(d * 65536)) {}
  constexpr explicit sample(long double d) : raw(static_cast<int>(d * 65536)) {}
  constexpr explicit sample(int d) : raw(d * 65536) {}
};
sample operator+(sample const&, sample const&);
sample operator-(sample const&, sample const&);
sample operator*(sample const&, sample const&);
struct pred {
  constexpr bool operator()(double a, double b) const { return a < b; }
  constexpr bool operator()(double a) const { return a > 0; }
};
template <typename T>
struct gen {
  constexpr T operator()(std::size_t i) const { return static_cast<T>(i); }
};
template <typename T>
struct twice {
  constexpr T operator()(T a) const { return 2 * a; }
  constexpr T operator()(T a, T b) const { return a + b; }
};
void sink(void const*);
}

#ifdef SHAKE
#define ROOT(name) extern "C" void use_##name
#else
#define ROOT(name) extern "C" void use_##name
#endif
template <typename T>
static void see(T const& x) { user::sink(&x); }

// ------------------------------------------------------------ whole classes
namespace embedded {
template class circular_buffer_adapter<int>;
template class circular_buffer_adapter<char>;
template class circular_buffer_adapter<double>;
template class circular_buffer_adapter<user::elem>;
template class detail::cba_iterator<int, detail::cba_const_iterator_traits<int>>;
template class detail::cba_iterator<int, detail::cba_mutable_iterator_traits<int>>;
template class detail::cba_iterator<user::elem, detail::cba_const_iterator_traits<user::elem>>;
template class detail::cba_iterator<user::elem, detail::cba_mutable_iterator_traits<user::elem>>;
template class function<void()>;
template class function<int(int)>;
template class function<int(int) const, 4 * sizeof(void*), 2 * sizeof(void*)>;
template class function<void(user::only_move, user::elem&), sizeof(void*)>;
template class function<user::elem const&(user::elem const&, long) const>;
template class move_wrapper<int>;
template class move_wrapper<user::only_move>;
template class move_wrapper<user::elem>;
template class lock_guard<user::mutex>;
template class cmath::complex<float>;
template class cmath::complex<double>;
template class cmath::complex<long double>;
template class cmath::vector<double, 1>;
template class cmath::vector<float, 5>;
template class cmath::vector<cmath::complex<double>, 3>;
template class typelist<int, char>;
template struct integer_sequence<int, 1, 2, 3>;
template struct make_integer_sequence<unsigned char, 5>;
template struct make_integer_range<int, -3, 4>;
template class signal::poly_design<double, 1>;
template class signal::poly_design<float, 4>;
template class signal::poly_instance<double, 1>;
template class signal::poly_instance<float, 4>;
template class signal::sos_design<double, 1>;
template class signal::sos_design<float, 4>;
template class signal::sos_design<user::sample, 3>;
template class signal::sos_instance<double, 1>;
template class signal::sos_instance<user::sample, 3>;
template class signal::iirfilter<float>;
template class signal::iirfilter<double>;
template class signal::iirfilter<long double>;
template class signal::butterworth<3>;
template class signal::chebyshev1<3>;
template class signal::chebyshev1<2, float>;
template class signal::chebyshev2<3>;
template class signal::chebyshev2<2, float>;
template class signal::bessel<3>;
template class signal::butterworth<4>::specification<double>;
template class signal::chebyshev1<4>::specification<double>;
template class signal::chebyshev2<5>::specification<double>;
template class signal::chebyshev2<5, float>::specification<float>;
template class signal::bessel<4>::specification<double>;
template class signal::bessel<100>::specification<float>;
}

// ------------------------------------------------------------ circular buffer
template <typename T>
struct cba_use {
  using C = embedded::circular_buffer_adapter<T>;
  using CI = typename C::const_iterator;
  using I = typename C::iterator;
};
#define CBA(t, T)                                                                                                  \
  using C_##t = embedded::circular_buffer_adapter<T>;                                                               \
  ROOT(cba_ctor_##t)(void* w, T* p, std::size_t n, std::size_t f, std::size_t c) {                                  \
    new (w) C_##t();                                                                                               \
    C_##t a(p, n), b(p, n, f, c), d(p, p + n), e(p, p + n, p + f, c);                                               \
    a = std::move(b);                                                                                              \
    new (w) C_##t(std::move(d));                                                                                    \
    see(a), see(e);                                                                                                \
  }                                                                                                                \
  ROOT(cba_query_##t)(C_##t const& c) {                                                                            \
    see(c.size() + c.capacity() + c.remaining() + c.empty() + c.full());                                            \
    see(c.raw_index(c.begin()) + c.raw_index(c.cend()));                                                            \
  }                                                                                                                \
  ROOT(cba_access_##t)(C_##t const& c, std::size_t i) { see(c.front()), see(c.back()), see(c[i]); }                 \
  ROOT(cba_at_##t)(C_##t const& c, std::size_t i) { see(c.at(i)); }                                                 \
  ROOT(cba_push_##t)(C_##t& c, T const& v, T& w) { c.push_front(v), c.push_back(v), c.push_front(std::move(w)), c.push_back(std::move(w)); } \
  ROOT(cba_emplace_##t)(C_##t& c, T const& v) { see(c.emplace_front(v)), see(c.emplace_back(v)), see(c.emplace_back()); }  \
  ROOT(cba_pop_##t)(C_##t& c) { c.pop_front(), c.pop_back(); }                                                      \
  ROOT(cba_popn_##t)(C_##t& c, std::size_t n) { c.pop_front(n), c.pop_back(n), c.clear(); }                         \
  ROOT(cba_iter_##t)(C_##t const& c, std::ptrdiff_t n) {                                                           \
    auto i = c.begin(), e = c.end();                                                                               \
    typename cba_use<T>::CI k = i, d;                                                                              \
    typename cba_use<T>::I j(i);                                                                                   \
    ++i, i++, --i, i--, i += n, i -= n, ++k, k++, --k, k--, k += n, k -= n;                                          \
    see(i + n), see(n + i), see(i - n), see(i - e), see(*i), see(i[n]), see(i.operator->());                        \
    see(k + n), see(n + k), see(k - n), see(k - c.cend()), see(*k), see(k[n]), see(k.operator->());                 \
    see(i == e), see(i != e), see(i < e), see(i > e), see(i <= e), see(i >= e);                                     \
    see(i == k), see(i != k), see(i < k), see(i > k), see(i <= k), see(i >= k);                                     \
    see(k == i), see(k != i), see(k < i), see(k > i), see(k <= i), see(k >= i);                                     \
    see(*c.rbegin()), see(*c.crbegin()), see(c.rend() - c.rbegin()), see(c.crend() - c.crbegin());                  \
    d = k, i = j;                                                                                                  \
    for (auto const& x : c) see(x);                                                                                \
  }
#define CBAT(t, T)                                                                                                 \
  ROOT(cba_bulk_##t)(C_##t& c, T* o, T const* p, std::size_t n) {                                                   \
    c.copy_in_front(p, n), c.copy_in_back(p, n), c.copy_out_front(o, n), c.copy_out_back(o, n);                      \
    c.copy_in(c.begin(), c.end(), p), c.copy_out(c.cbegin(), c.cend(), o), c.copy_out(c.begin(), c.end(), o);        \
  }
CBA(i, int) CBAT(i, int)
CBA(b, std::uint8_t) CBAT(b, std::uint8_t)
CBA(d, double) CBAT(d, double)
CBA(e, user::elem)
using C_k = embedded::circular_buffer_adapter<int const>;
ROOT(cba_const)(C_k& c, std::size_t i, std::ptrdiff_t n) {
  see(c.front()), see(c.back()), see(c[i]), see(c.at(i)), see(c.size() + c.capacity() + c.remaining() + c.empty() + c.full());
  auto it = c.begin();
  ++it, --it, it += n, it -= n, see(*it), see(it - c.begin()), see(it == c.cend()), see(c.raw_index(it));
  c.clear(), c.pop_front(i), c.pop_back(i);
}

// ------------------------------------------------------------ function
template <typename S>
using fn = embedded::function<S>;
ROOT(fn_basic)(void* w) {
  fn<int(int)> a, b(nullptr);
  see(static_cast<bool>(a));
  b = nullptr;
  new (w) fn<int(int)>(std::move(a));
}
ROOT(fn_make)(void* w, user::fun const& f, user::fun& g) {
  fn<int(int)> a(f);
  fn<int(int) const> c(std::move(g));
  fn<long(short)> d(f);
  fn<void(int)> v(f);
  a = user::fun();
  a = f;
  a = nullptr;
  new (w) fn<int(int)>(std::move(a));
  see(c), see(d), see(v);
}
ROOT(fn_move)(fn<int(int)>& a, fn<int(int)>& b) {
  a = std::move(b);
  fn<int(int)> c(std::move(a));
  b = std::move(c);
}
ROOT(fn_destroy)(fn<int(int)>& a) { a.~function(); }
ROOT(fn_bool)(fn<int(int) const> const& a) { see(static_cast<bool>(a)); }
ROOT(fn_call)(fn<int(int)>& a, fn<int(int) const> const& c, fn<void(user::only_move, user::elem&)>& v, user::only_move& m, user::elem& e) {
  see(a(1) + c(2));
  v(std::move(m), e);
}
ROOT(fn_call_ref)(fn<user::elem const&(user::elem const&, long) const> const& f, user::elem const& e) { see(f(e, 1)); }
ROOT(fn_big)(void* w, user::vfun const& f, user::fun2 const& g) {
  embedded::function<void(user::only_move, user::elem&), 64, 16> a(f);
  embedded::function<user::elem const&(user::elem const&, long) const, 16, 8> b(g);
  embedded::function<user::base*(user::base&), 16, 8> c((user::fun2(g)));
  a = nullptr;
  new (w) embedded::function<void(user::only_move, user::elem&), 64, 16>(std::move(a));
  see(b), see(c);
}
ROOT(fn_lambda)(void* w, int* p) {
  fn<int(int)> a([p](int x) { return *p += x; });
  fn<int(int)> b([](int x) { return x; });
  int (*ptr)(int) = nullptr;
  fn<int(int)> c(ptr);
  new (w) fn<int(int)>(std::move(a));
  see(b), see(c);
}
ROOT(fn_member)(void* w, int (user::base::*m)(int), int (user::base::*cm)() const, int user::base::*d) {
  fn<int(user::base&, int)> a(m);
  fn<int(user::base const&) const> b(cm);
  fn<int(user::base*)> c(d);
  fn<int(user::base&, int)> e;
  e = m;
  b = cm;
  c = d;
  a = std::move(e);
  new (w) fn<int(user::base&, int)>(std::move(a));
  see(b), see(c);
}
ROOT(fn_member_call)(fn<int(user::base&, int)>& a, user::base& b) { see(a(b, 1)); }

// ------------------------------------------------------------ small parts
ROOT(mw)(void* w, user::only_move& m, user::elem& e) {
  embedded::move_wrapper<user::only_move> a(std::move(m));
  embedded::move_wrapper<user::only_move> b(a), c(std::move(b));
  embedded::move_wrapper<user::only_move> const d(c);
  see(*c), see(c->set(1)), see(*d), see(d->get());
  new (w) embedded::move_wrapper<user::only_move>(d);
  embedded::move_wrapper<user::elem> x(std::move(e));
  embedded::move_wrapper<user::elem> y(x);
  see(y->v);
}
ROOT(lock)(user::mutex& m) {
  embedded::lock_guard<user::mutex> g(m);
  user::sink(&m);
}
#define VAR(t, T)                                                                                                      \
  ROOT(varint_##t)(T v, T& o, std::uint8_t* b, std::uint8_t* e, user::container& c) {                                    \
    see(embedded::varint::size(v));                                                                                     \
    see(embedded::varint::encode(v, b, e)), see(embedded::varint::encode(v, b));                                         \
    embedded::varint::encode(v, std::back_insert_iterator<user::container>(c));                                          \
    see(embedded::varint::decode(o, b, e)), see(embedded::varint::decode(o, static_cast<std::uint8_t const*>(b), static_cast<std::uint8_t const*>(e))); \
  }
VAR(u8, std::uint8_t) VAR(s8, std::int8_t) VAR(u16, std::uint16_t) VAR(s16, std::int16_t) VAR(u32, std::uint32_t) VAR(s32, std::int32_t) VAR(u64, std::uint64_t) VAR(s64, std::int64_t)
VAR(ul, unsigned long) VAR(sl, long) VAR(ull, unsigned long long) VAR(sll, long long) VAR(uc, unsigned char) VAR(sc, signed char)
ROOT(zigzag)(int v, unsigned w, long x, unsigned long y, std::int8_t z) {
  see(embedded::varint::zig_zag_encode(v)), see(embedded::varint::zig_zag_decode(w));
  see(embedded::varint::zig_zag_encode(x)), see(embedded::varint::zig_zag_decode(y)), see(embedded::varint::zig_zag_encode(z));
}
#if __cplusplus >= 201402L
static_assert(embedded::varint::size(300) == 2 && embedded::varint::size(0u) == 1, "");
static_assert(embedded::varint::zig_zag_encode(-1) == 1u && embedded::varint::zig_zag_decode(3u) == -2, "");
#endif
ROOT(types)() {
  see(embedded::conjunction<std::true_type, std::false_type>::value + embedded::conjunction<>::value);
  see(embedded::is_invocable_r<int, user::fun, int>::value + embedded::is_invocable_r<void, user::fun&, int>::value + embedded::is_invocable_r<user::base, user::fun, int>::value);
  see(embedded::make_index_sequence<4>::size() + embedded::index_sequence_for<int, char>::size() + embedded::make_index_range<2, 5>::size());
  see(std::tuple_size<embedded::typelist<int>::append<char, long>::to<std::tuple>>::value);
}

// ------------------------------------------------------------ constexpr math
namespace cm = embedded::cmath;
template <typename T>
static void functions(T x, T y) {
  see(cm::abs(x)), see(cm::acos(x)), see(cm::acosh(x)), see(cm::asin(x)), see(cm::asinh(x)), see(cm::atan(x)), see(cm::atan2(x, y)), see(cm::atanh(x));
  see(cm::ceil(x)), see(cm::copysign(x, y)), see(cm::cos(x)), see(cm::cosh(x)), see(cm::erf(x)), see(cm::exp(x)), see(cm::expm1(x)), see(cm::floor(x));
  see(cm::fmod(x, y)), see(cm::lgamma(x)), see(cm::log(x)), see(cm::log10(x)), see(cm::log1p(x)), see(cm::log2(x)), see(cm::max(x, y)), see(cm::min(x, y));
  see(cm::pow(x, y)), see(cm::round(x)), see(cm::signbit(x)), see(cm::sin(x)), see(cm::sinh(x)), see(cm::sqrt(x)), see(cm::tan(x)), see(cm::tanh(x)), see(cm::tgamma(x)), see(cm::trunc(x));
  see(cm::pi<T>());
}
ROOT(fun_d)(double x, double y) { functions(x, y); }
ROOT(fun_f)(float x, float y) { functions(x, y); }
ROOT(fun_l)(long double x, long double y) { functions(x, y); }
ROOT(fun_i)(int x, int y) { see(cm::max(x, y)), see(cm::min(x, y)), see(cm::abs(x)), see(cm::pow(2.0, x)); }
template <typename T>
static void complexes(cm::complex<T> const& a, cm::complex<T> const& b, T x) {
  see(a.real() + a.imag() + a.norm() + a.abs() + a.distance(b) + a.is_real()), see(a.conj()), see(a == b);
  see(-a), see(a - b), see(a + b), see(x - a), see(x + a), see(a * b), see(a / b), see(x / a), see(a / x), see(x * a), see(exp(a));
  cm::complex<T> z, r(x), c(x, x);
  z = r;
  see(z), see(c);
}
ROOT(complex_d)(cm::complex<double> const& a, cm::complex<double> const& b) { complexes(a, b, 2.0); }
ROOT(complex_f)(cm::complex<float> const& a, cm::complex<float> const& b) { complexes(a, b, 2.0f); }
ROOT(complex_l)(cm::complex<long double> const& a, cm::complex<long double> const& b) { complexes(a, b, 2.0l); }
template <typename T, std::size_t N>
static void vectors(cm::vector<T, N> const& v, T x, std::size_t i) {
  using V = cm::vector<T, N>;
  see(V::create(user::gen<T>())), see(V::full(x)), see(V::ones()), see(V::zeros()), see(v[i]), see(V::size());
  see(v.template transform<T>(user::twice<T>())), see(v.transform(user::twice<T>())), see(v.reduce(user::twice<T>())), see(v.reduce(user::twice<T>(), x));
  see(v.append(v)), see(v.template subvector<1, 2>()), see(v == v), see(v.argmin(user::pred())), see(v.count(user::pred()));
  see(v.template erase<1>()), see(v.template erase<0, 2>()), see(v.swap(0, i)), see(v.swappop(i)), see(v.sort(user::pred()));
  see(-v), see(x * v), see(x + v), see(x / v), see(v / x), see(cm::exp(v)), see(cm::prod(v)), see(2 * v), see(v / 2);
  see(cm::convolve_full(v, v)), see(cm::poly(v)), see(cm::make_vector<T>(user::gen<T>(), embedded::make_index_sequence<3>()));
  cm::vector<long double, N> w(v);
  see(w);
}
ROOT(vector_d)(cm::vector<double, 4> const& v, std::size_t i) { vectors(v, 2.0, i); }
ROOT(vector_f)(cm::vector<float, 3> const& v, std::size_t i) { vectors(v, 2.0f, i); }
ROOT(vector_l)(cm::vector<long double, 3> const& v, std::size_t i) { vectors(v, 2.0l, i); }
template <typename T>
static void cvectors(cm::vector<cm::complex<T>, 3> const& v, cm::complex<T> const& z, T x) {
  see(cm::real(v)), see(cm::imag(v)), see(cm::norm(v)), see(cm::abs(v)), see(cm::exp(v)), see(cm::prod(v)), see(-v), see(z * v), see(x * v), see(z + v), see(x + v), see(z / v), see(x / v), see(v / z), see(v / x);
  see(cm::poly(v)), see(cm::convolve_full(v, v)), see(v == v), see(v.swappop(1)), see(v.append(cm::vector<cm::complex<T>, 0>{}));
}
ROOT(cvector_d)(cm::vector<cm::complex<double>, 3> const& v, cm::complex<double> const& z) { cvectors(v, z, 2.0); }
ROOT(cvector_f)(cm::vector<cm::complex<float>, 3> const& v, cm::complex<float> const& z) { cvectors(v, z, 2.0f); }
ROOT(cvector_l)(cm::vector<cm::complex<long double>, 3> const& v, cm::complex<long double> const& z) { cvectors(v, z, 2.0l); }
ROOT(vector_empty)(cm::vector<double, 0> const& v) {
  see(v == v), see(v.append(v)), see(v.reduce(user::twice<double>())), see(v.count(user::pred())), see(v.sort(user::pred())), see(-v), see(cm::prod(v)), see(v.append(cm::vector<double, 1>{1.0})), see(cm::poly(v)), see(cm::vector<double, 0>::zeros());
}

// ------------------------------------------------------------ filters
namespace sg = embedded::signal;
template <typename D>
static void design_poly(D const& d) {
  see(d.b()), see(d.a()), see(D::order());
  auto i = d.instance();
  see(i);
}
template <typename D>
static void design_sos(D const& d) {
  see(d.sos()), see(D::order()), see(D::size()), see(d.sos()[0].b()), see(d.sos()[0].a());
  auto i = d.instance();
  see(i.state());
}
template <typename F, typename C>
static void family(C const& c, F fs, F f) {
  sg::iirfilter<F> const flt(fs);
  auto const lp = flt.lowpass(c, f);
  auto const hp = flt.highpass(c, f);
  design_poly(lp.template poly<float>()), design_poly(hp.template poly<double>()), design_poly(hp.template poly<long double>());
  design_sos(lp.template sos<float>()), design_sos(hp.template sos<double>(sg::sos_gain::distribute)), design_sos(lp.template sos<long double>(sg::sos_gain::first_section)), design_sos(lp.template sos<user::sample>());
  auto const s = c.template spec<F>();
  see(s.zeros()), see(s.poles()), see(s.gain()), see(s.zpk()), see(s.zpk().even());
}
#define FAMS(n)                                                                                                                  \
  ROOT(butter_##n)(double fs, double f) { family<double>(sg::butterworth<n>(), fs, f), family<float>(sg::butterworth<n>(), 1000.0f, 10.0f); } \
  ROOT(cheb1_##n)(double fs, double f) { family<double>(sg::chebyshev1<n>(f), fs, f), family<long double>(sg::chebyshev1<n, long double>(1), 1000.0l, 10.0l), family<float>(sg::chebyshev1<n, float>(1), 1000.0f, 10.0f); } \
  ROOT(cheb2_##n)(double fs, double f) { family<double>(sg::chebyshev2<n>(f), fs, f), family<long double>(sg::chebyshev2<n, long double>(1), 1000.0l, 10.0l), family<float>(sg::chebyshev2<n, float>(1), 1000.0f, 10.0f); } \
  ROOT(bessel_##n)(double fs, double f) { family<double>(sg::bessel<n>(), fs, f), family<long double>(sg::bessel<n>(), 1000.0l, 10.0l), family<float>(sg::bessel<n>(), 1000.0f, 10.0f); }
FAMS(1) FAMS(2) FAMS(3) FAMS(4) FAMS(5)
ROOT(cheb_rf)(double r) { see(sg::chebyshev1<3>(r).spec<double>().rf() + sg::chebyshev2<3>(r).spec<double>().rf()); }
#define STEP(t, F, n)                                                                                                            \
  ROOT(step_##t##_##n)(sg::poly_instance<F, n>& p, sg::sos_instance<F, n>& s, sg::poly_design<F, n> const& pd, sg::sos_design<F, n> const& sd, \
                       std::array<F, n>& ps, sg::sos_state<F>& ss, F const& x) {                                                  \
    see(p(x)), see(s(x)), see(pd.filter(ps, x)), see(sd.sos()[0].filter(ss, x));                                                  \
    auto q = p;                                                                                                                  \
    auto r = s;                                                                                                                  \
    q = p, r = s;                                                                                                                \
    see(q), see(r.state());                                                                                                      \
  }
STEP(f, float, 1) STEP(d, double, 2) STEP(l, long double, 3) STEP(f, float, 4) STEP(d, double, 5) STEP(d, double, 8)
ROOT(step_x)(sg::sos_instance<user::sample, 3>& s, user::sample const& x) { see(s(x)); }
#ifdef WITH_DEBUG
#if defined(__clang__) || __cplusplus < 201402L
#define DBGDECL const
#else
#define DBGDECL constexpr
#endif
static DBGDECL auto dbg_poly = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<3>(), 100.0).poly<float>();
static DBGDECL auto dbg_sos = sg::iirfilter<double>(1000.0).lowpass(sg::bessel<4>(), 100.0).sos<double>();
static DBGDECL auto dbg_ld = sg::iirfilter<double>(1000.0).highpass(sg::bessel<3>(), 100.0).sos<long double>();
LIBEMB_DEBUG_FILTER_COEFS(dbg_poly);
LIBEMB_DEBUG_FILTER_COEFS(dbg_sos);
LIBEMB_DEBUG_FILTER_COEFS_NAME(dbg_ld, "a name");
#endif

// nothing undefined or ambiguous in these either
#if defined(LIBEMB_HAS_EXCEPTIONS) && LIBEMB_HAS_EXCEPTIONS && !defined(__cpp_exceptions)
#error exceptions detected wrongly
#endif
#if !LIBEMB_HAS_EXCEPTIONS && defined(__cpp_exceptions)
#error exceptions not detected
#endif
#if !LIBEMB_HAS_RTTI && defined(__cpp_rtti)
#error RTTI not detected
#endif
static char const LIBEMB_UNIQUE_NAME(unique_)[] = LIBEMB_STRINGIFY(LIBEMB_CONCAT(a, b));
static char const LIBEMB_UNIQUE_NAME(unique_)[] = "x";
