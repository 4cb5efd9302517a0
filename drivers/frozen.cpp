// C04: operations write to nothing but their own object and what they are
// given to write.  Everything else is frozen: a write to it is a violation.
#include "ai.h"
#include <embedded/circular_buffer_adapter.h>
#include <embedded/constexpr_math.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/varint.h>

template <typename... T>
static void frozen(T const&... x) {
  int d[] = {(ai_freeze(&x, true), 0)...};
  (void)d;
}
template <typename... T>
static void thawed(T const&... x) {
  int d[] = {(ai_freeze(&x, false), 0)...};
  (void)d;
}
#define OK(name)                              \
  ai_prove(true, "C04:nothing else written"); \
  ai_reach(name)

// ------------------------------------------------------------ circular buffer
using C = embedded::circular_buffer_adapter<int>;
struct Mem {
  int a[3];
};
static C make(Mem& m, int& f, int& n) {
  f = ai_choice(3), n = ai_choice(4);
  return C(m.a, 3, static_cast<std::size_t>(f), static_cast<std::size_t>(n));
}
static void fill(Mem& m) {
  m.a[0] = 10, m.a[1] = 20, m.a[2] = 30;
}
extern "C" void drv_cba_const() {
  Mem m;
  fill(m);
  int f, n, sum = 0;
  C b = make(m, f, n);
  C const& c = b;
  frozen(m, b);
  sum += static_cast<int>(c.size() + c.capacity() + c.remaining()) + c.empty() + c.full();
  sum += static_cast<int>(c.raw_index(c.begin()));
  if (n) {
    sum += c.front() + c.back() + c[0] + c[static_cast<std::size_t>(n - 1)] + c.at(0);
    sum += *c.begin() + *c.rbegin() + c.begin()[0] + *c.cbegin();
  }
  for (auto const& x : c) sum += x;
  auto i = c.begin();
  auto j = i + n;
  sum += static_cast<int>(j - i) + (i == j) + (i < j);
  thawed(m, b);
  OK("cba_const");
}
extern "C" void drv_cba_other() {
  Mem m, o, in;
  fill(m), fill(o), fill(in);
  int f, n, g = 1, k = 2;
  C b = make(m, f, n);
  C other(o.a, 3, static_cast<std::size_t>(g), static_cast<std::size_t>(k));
  int v = 7;
  frozen(o, other, in, v);
  switch (ai_choice(12)) {
    case 0: if (n < 3) b.push_back(v); break;
    case 1: if (n < 3) b.push_front(v); break;
    case 2: if (n < 3) b.emplace_back(v); break;
    case 3: if (n < 3) b.emplace_front(v); break;
    case 4: if (n) b.pop_back(); break;
    case 5: if (n) b.pop_front(); break;
    case 6: b.pop_back(static_cast<std::size_t>(n)); break;
    case 7: b.clear(); break;
    case 8: if (n < 3) b.copy_in_back(in.a, static_cast<std::size_t>(3 - n)); break;
    case 9: if (n < 3) b.copy_in_front(in.a, static_cast<std::size_t>(3 - n)); break;
    case 10: for (auto& x : b) x = 5; break;
    default: {
      Mem out;
      fill(out);
      frozen(m);
      b.copy_out_front(out.a, static_cast<std::size_t>(n));
      thawed(m);
    }
  }
  {
    // moving an adapter touches no element
    frozen(m);
    C c(std::move(b));
    C d(m.a, 3);
    d = std::move(c);
    thawed(m);
  }
  thawed(o, other, in, v);
  ai_prove(other.size() == 2 && other.front() == 20 && other.back() == 30, "C04:nothing else written");
  OK("cba_other");
}

// ------------------------------------------------------------ function
struct Fun {
  int v;
  int operator()(int a) const { return v + a; }
};
using W = embedded::function<int(int)>;
using WC = embedded::function<int(int) const>;
extern "C" void drv_function() {
  Fun f{3};
  int x = 4;
  frozen(f, x);
  W other(f);
  WC cother(f);
  W a, b(f);
  frozen(other, cother);
  bool t = static_cast<bool>(other) && static_cast<bool>(cother);
  WC const& r = cother;
  ai_prove(t && r(x) == 7 && cother(x) == 7, "C04:nothing else written");
  switch (ai_choice(8)) {
    case 0: a = std::move(b); break;
    case 1: b = nullptr; break;
    case 2: a = f; break;
    case 3: b = W(); break;
    case 4: { W c(std::move(b)); } break;
    case 5: { W c(f); c = nullptr; } break;
    case 6: b(x); break;
    default: { W c(&f == nullptr ? std::move(b) : std::move(a)); } break;
  }
  thawed(other, cother);
  ai_prove(other(x) == 7 && cother(x) == 7, "C04:nothing else written");
  thawed(f, x);
  OK("function");
}

// ------------------------------------------------------------ small parts
extern "C" void drv_move_wrapper() {
  int i = 3, j = 4;
  embedded::move_wrapper<int> a(std::move(i)), b(std::move(j));
  embedded::move_wrapper<int> const& k = a;
  frozen(a, b);
  ai_prove(*k == 3 && *b == 4 && *k.operator->() == 3, "C04:nothing else written");
  thawed(a);
  embedded::move_wrapper<int> c(a);
  embedded::move_wrapper<int> d(std::move(c));
  ai_prove(*d == 3 && *b == 4, "C04:nothing else written");
  thawed(b);
  OK("move_wrapper");
}
struct Mutex {
  int n;
  void lock() { ++n; }
  void unlock() { --n; }
};
extern "C" void drv_lock_guard() {
  Mutex m{0}, o{0};
  frozen(o);
  {
    embedded::lock_guard<Mutex> g(m);
    ai_prove(m.n == 1, "C04:nothing else written");
    frozen(m);
    int x = 1;
    x += 2;
    thawed(m);
  }
  thawed(o);
  OK("lock_guard");
}
extern "C" void drv_varint() {
  std::uint8_t b[8], o[8];
  for (int i = 0; i < 8; ++i) b[i] = o[i] = 0x81;
  static unsigned const vals[] = {0, 1, 127, 128, 300, 70000, 0xffffffffu};
  unsigned v = vals[ai_choice(7)];
  int s = -static_cast<int>(v & 0xffff);
  frozen(o, v, s);
  std::size_t n = embedded::varint::size(v);
  auto e = embedded::varint::encode(v, b, b + 8);
  frozen(b);
  unsigned r = 0;
  embedded::varint::decode(r, b, b + 8);
  ai_prove(r == v && static_cast<std::size_t>(e - b) == n, "C04:nothing else written");
  thawed(b);
  embedded::varint::encode(s, b);
  frozen(b);
  int q = 0;
  embedded::varint::decode(q, static_cast<std::uint8_t const*>(b), static_cast<std::uint8_t const*>(b) + 8);
  ai_prove(q == s, "C04:nothing else written");
  thawed(b, o, v, s);
  OK("varint");
}

// ------------------------------------------------------------ constexpr math
namespace cm = embedded::cmath;
struct Less {
  bool operator()(double a, double b) const { return a < b; }
};
struct Pos {
  bool operator()(double a) const { return a > 0; }
};
extern "C" void drv_complex() {
  double x = ai_real("x");
  cm::complex<double> a(ai_real("a"), ai_real("b")), b(ai_real("c"), ai_real("d"));
  ai_nonzero(b.norm());
  frozen(x, a, b);
  cm::complex<double> r = a + x * b - a / b - (x - a) + x / b + a.conj() - (-b) + exp(a);
  double s = r.real() + r.imag() + a.norm() + a.abs() + a.distance(b) + (a == a) + a.is_real();
  (void)s;
  frozen(r);
  cm::complex<double> t(r);
  t = a;
  thawed(x, a, b, r);
  OK("complex");
}
extern "C" void drv_vector() {
  double x = 3;
  cm::vector<double, 4> v{4.0, -1.0, 2.0, 8.0}, w{1.0, 2.0, 3.0, 5.0};
  frozen(x, v, w);
  auto s = v.sort(Less());
  auto t = v.swap(0, 2);
  auto u = v.swappop(1);
  auto a = v.append(w);
  auto e = v.erase<1>();
  auto c = cm::convolve_full(v, w);
  auto p = cm::poly(v);
  auto q = -v;
  auto m = x * (v / x);
  double z = static_cast<double>(v.argmin(Less())) + static_cast<double>(v.count(Pos())) + cm::prod(v) + v[2] + (v == w) + v.subvector<1, 2>()[0];
  (void)s, (void)t, (void)u, (void)a, (void)e, (void)c, (void)p, (void)q, (void)m, (void)z;
  cm::vector<double, 4> k(v);
  k = w;
  thawed(x, v, w);
  OK("vector");
}

// ------------------------------------------------------------ filters
namespace sg = embedded::signal;
template <typename FAM>
static void filters(FAM const& fam, char const* n) {
  sg::iirfilter<double> const flt(1000.0);
  frozen(fam, flt);
  auto const lp = flt.lowpass(fam, 100.0);
  auto const hp = flt.highpass(fam, 100.0);
  frozen(lp, hp);
  auto const dp = lp.template poly<double>();
  auto const ds = hp.template sos<double>(sg::sos_gain::first_section);
  auto const dd = lp.template sos<double>(sg::sos_gain::distribute);
  frozen(dp, ds, dd);
  double x = 1.5;
  frozen(x);
  auto i = dp.instance(), i2 = dp.instance();
  auto j = ds.instance(), j2 = dd.instance();
  frozen(i2, j2);
  double y = 0;
  for (int k = 0; k < 3; ++k) y += i(x) + j(x);
  thawed(i2, j2);
  frozen(i, j);
  y += i2(x) + j2(x);
  auto i3 = i;
  auto j3 = j;
  i3 = i2, j3 = j;
  y += dp.b()[0] + dp.a()[1] + ds.sos()[0].b()[0] + ds.sos()[0].a()[1];
  (void)y;
  thawed(fam, flt, lp, hp, dp, ds, dd, x, i, j);
  OK(n);
}
extern "C" void drv_butterworth() { filters(sg::butterworth<2>(), "butterworth"); }
extern "C" void drv_chebyshev1() { filters(sg::chebyshev1<2>(1.0), "chebyshev1"); }
extern "C" void drv_chebyshev2() { filters(sg::chebyshev2<2>(20.0), "chebyshev2"); }
extern "C" void drv_bessel() { filters(sg::bessel<2>(), "bessel"); }
