// Obligations of circular_buffer_adapter for an arbitrary canonical state.
//
// Canonical state (C, f, n): the adapter constructed on a buffer of C slots
// with first index f < C and n <= C elements, C, f, n, and the content all
// arbitrary.  Every operation is shown to lead from a canonical state to a
// canonical state (object identical to a freshly constructed adapter with
// the values raw_index(begin()) and size()), so that the obligations hold
// for every history by induction.
#include "ai.h"
#include <embedded/circular_buffer_adapter.h>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <type_traits>

using embedded::circular_buffer_adapter;

struct Arg {
  int x;
};

#ifdef NONTRIV
// every special member leaves a trace in the ledger
struct Elem {
  unsigned char raw[12];
  Elem(Arg const& a, int) {
    thrower();
    ai_event2("ctor", this, sizeof(Elem), &a);
  }
  // every way of giving the arguments means another constructor
  Elem(Arg&& a, int&) {
    thrower();
    ai_event2("ctor rvalue", this, sizeof(Elem), &a);
  }
  Elem(Arg& a, int&&) {
    thrower();
    ai_event2("ctor lvalue", this, sizeof(Elem), &a);
  }
  Elem() {
    thrower();
    ai_event("default", this, sizeof(Elem));
  }
  explicit Elem(int, int) {
    thrower();
    ai_event("pair", this, sizeof(Elem));
  }
  Elem(std::initializer_list<int>) {
    thrower();
    ai_event("list", this, sizeof(Elem));
  }
  Elem(Elem const& o) {
    thrower();
    ai_event2("copy", this, sizeof(Elem), &o);
  }
  Elem(Elem&& o) {
    thrower();
    ai_event2("move", this, sizeof(Elem), &o);
  }
  Elem& operator=(Elem const& o) {
    ai_event2("assign", this, sizeof(Elem), &o);
    return *this;
  }
  Elem& operator=(Elem&& o) {
    ai_event2("massign", this, sizeof(Elem), &o);
    return *this;
  }
#ifndef TRIVDTOR
  ~Elem() { ai_event("dtor", this, sizeof(Elem)); }
#endif
  static void thrower() {
#ifdef THROWING
    ai_maythrow();
#endif
  }
};
#define ELEM Elem
#define EFF "B03:effects"
#else
#define EFF "B02:effects"
struct Blob {
  unsigned short a[3];
};
#endif

#ifndef ELEM
#define ELEM int
#endif
using T = ELEM;
using VT = std::remove_const<T>::type;
using cba = circular_buffer_adapter<T>;
using size = std::size_t;
using diff = std::ptrdiff_t;

static constexpr size CMAX = size(1) << (sizeof(size) * 8 - 6);

#ifndef SMALLCAP
#define SMALLCAP 0
#endif

struct S {
  size C, f, n;
  T* d;
  cba b;
#if SMALLCAP
  // finite instance: used when the general analysis gives no answer
  S()
      : C(1 + ai_choice(SMALLCAP))
      , f(ai_choice(C))
      , n(ai_choice(C + 1))
#else
  S()
      : C(ai_uint("C", 1, CMAX / sizeof(T)))
      , f(ai_uint("f", 0, C - 1))
      , n(ai_uint("n", 0, C))
#endif
      , d(static_cast<T*>(ai_buf("data", C * sizeof(T), alignof(T))))
      , b(d, C, f, n) {
    ai_log_reset();
  }
  size wrap(size i) const { return i >= C ? i - C : i; }
  T* slot(size i) const { return d + wrap(f + i); }
  size free() const { return C - n; }
  size upto(char const* nm, size hi) {
#if SMALLCAP
    (void)nm;
    return ai_choice(hi + 1);
#else
    return ai_uint(nm, 0, hi);
#endif
  }
};

// expected: the n slots from logical position i are destroyed
static void destroyed(S& s, size i, size n) {
#if defined(NONTRIV) && !defined(TRIVDTOR)
  size a = s.wrap(s.f + i);
  size k = a + n <= s.C ? n : s.C - a;
  ai_expect("dtor", s.d + a, k * sizeof(T));
  ai_expect("dtor", s.d, (n - k) * sizeof(T));
#else
  (void)s, (void)i, (void)n;
#endif
}

// the state after an operation is the canonical state (f1, n1)
static void post(S& s, size f1, size n1) {
  ai_log_check(EFF, false);
  ai_prove(s.b.size() == n1, "B01:size");
  ai_prove(s.b.empty() == (n1 == 0), "B01:empty");
  ai_prove(s.b.full() == (n1 == s.C), "B01:full");
  ai_prove(s.b.remaining() == s.C - n1, "B01:remaining");
  ai_prove(s.b.capacity() == s.C, "B01:capacity");
  size r = s.b.raw_index(s.b.begin());
  if (n1 != 0)
    ai_prove(r == f1, "B01:first");
  else
    ai_prove(r < s.C, "B01:first");
  cba c(s.d, s.C, r, n1);
  ai_same(&s.b, &c, sizeof(cba), "B05:canonical");
  // the induction of every property of the adapter rests on this
  ai_same(&s.b, &c, sizeof(cba), "B01:canonical");
  ai_log_check("B02:inspection", false);
}

// ------------------------------------------------------------ construction
extern "C" void drv_ctor() {
  size C = ai_uint("C", 0, CMAX / sizeof(T));
  T* d = static_cast<T*>(ai_buf("data", C * sizeof(T), alignof(T)));
  ai_log_reset();
  {
    cba a(d, C), b(d, d + C), c(d, C, 0, 0), e(d, d + C, d, 0);
    ai_prove(a.size() == 0 && a.empty(), "B01:size");
    ai_prove(a.full() == (C == 0), "B01:full");
    ai_prove(a.capacity() == C, "B01:capacity");
    ai_prove(a.remaining() == C, "B01:remaining");
    ai_prove(a.begin() == a.end(), "B06:range");
    ai_prove(a.cbegin() == a.cend(), "B06:range");
    ai_prove(a.raw_index(a.begin()) == 0, "B05:raw_index");
    ai_same(&a, &b, sizeof(cba), "B05:canonical");
    ai_same(&a, &b, sizeof(cba), "B01:canonical");
    ai_same(&a, &c, sizeof(cba), "B05:canonical");
    ai_same(&a, &c, sizeof(cba), "B01:canonical");
    ai_same(&a, &e, sizeof(cba), "B05:canonical");
    ai_same(&a, &e, sizeof(cba), "B01:canonical");
#ifndef CONSTELEM
    a.clear();
    a.pop_front(0);
    a.pop_back(0);
#endif
    ai_prove(a.size() == 0, "B01:size");
    ai_prove(a.raw_index(a.begin()) == 0, "B05:raw_index");
    ai_same(&a, &b, sizeof(cba), "B05:canonical");
    ai_same(&a, &b, sizeof(cba), "B01:canonical");
  }
  ai_log_check("B02:effects", false);
  ai_reach("ctor");
}
extern "C" void drv_ctor_default() {
  {
    cba a;
    ai_prove(a.size() == 0 && a.empty() && a.full(), "B01:size");
    ai_prove(a.capacity() == 0 && a.remaining() == 0, "B01:capacity");
    ai_prove(a.begin() == a.end(), "B06:range");
  }
  ai_log_check("B02:effects", false);
  ai_reach("ctor_default");
}
#ifndef CONSTELEM
extern "C" void drv_clear_default() {
  {
    cba a;
    a.clear();
    ai_prove(a.size() == 0 && a.empty(), "B01:size");
  }
  ai_log_check("B02:effects", false);
  ai_reach("clear_default");
}
#endif
extern "C" void drv_attach() {
  S s;
  {
    cba p(s.d, s.d + s.C, s.d + s.f, s.n);
    ai_same(&p, &s.b, sizeof(cba), "B05:canonical");
    ai_same(&p, &s.b, sizeof(cba), "B01:canonical");
    ai_prove(p.size() == s.n, "B01:size");
    size r = s.b.raw_index(s.b.begin());
    ai_prove(r == s.f || s.n == 0, "B05:raw_index");
    cba q(s.d, s.C, r, s.b.size());
    ai_same(&q, &s.b, sizeof(cba), "B05:canonical");
    ai_same(&q, &s.b, sizeof(cba), "B01:canonical");
    cba q2(s.d, s.d + s.C, s.d + r, s.b.size());
    ai_same(&q2, &s.b, sizeof(cba), "B05:canonical");
    ai_same(&q2, &s.b, sizeof(cba), "B01:canonical");
  }
  post(s, s.f, s.n);
  ai_reach("attach");
}
extern "C" void drv_move() {
  S s;
  {
    cba m(std::move(s.b));
    cba c(s.d, s.C, s.f, s.n);
    ai_same(&m, &c, sizeof(cba), "B05:canonical");
    ai_same(&m, &c, sizeof(cba), "B01:canonical");
    cba e;
    e = std::move(m);
    ai_same(&e, &c, sizeof(cba), "B05:canonical");
    ai_same(&e, &c, sizeof(cba), "B01:canonical");
    s.b = std::move(e);
  }
  post(s, s.f, s.n);
  ai_reach("move");
}
extern "C" void drv_destroy() {
  {
    S s;
    ai_reach("destroy");
  }
  ai_log_check("B02:effects", false);
}
// ------------------------------------------------------------ inspection
extern "C" void drv_observe() {
  S s;
  post(s, s.f, s.n);
  ai_reach("observe");
}
extern "C" void drv_front_back() {
  S s;
  ai_assume(s.n > 0);
  cba const& cb = s.b;
  ai_prove(&cb.front() == s.slot(0), "B01:front");
  ai_prove(&cb.back() == s.slot(s.n - 1), "B01:back");
  ai_prove(&s.b.front() == s.slot(0), "B01:front");
  ai_prove(&s.b.back() == s.slot(s.n - 1), "B01:back");
  post(s, s.f, s.n);
  ai_reach("front_back");
}
extern "C" void drv_index() {
  S s;
  size i = s.upto("i", s.n);
  ai_assume(i < s.n);
  cba const& cb = s.b;
  ai_prove(&cb[i] == s.slot(i), "B01:index");
  ai_prove(&s.b[i] == s.slot(i), "B01:index");
  post(s, s.f, s.n);
  ai_reach("index");
}
#ifdef __cpp_exceptions
extern "C" void drv_at() {
  S s;
#if SMALLCAP
  size i = ai_choice(SMALLCAP + 2);
#else
  size i = ai_uint("i", 0, ~size(0));
#endif
  cba const& cb = s.b;
  bool threw = false;
  T* p = nullptr;
  try {
    p = &cb.at(i);
  } catch (std::out_of_range const&) {
    threw = true;
  }
  ai_prove(threw == (i >= s.n), "B08:throws");
  if (!threw && i < s.n)
    ai_prove(p == s.slot(i), "B08:element");
  ai_log_check("B08:effects", false);
  post(s, s.f, s.n);
  ai_reach("at");
}
#endif
// ------------------------------------------------------------ removal
#ifndef CONSTELEM
extern "C" void drv_clear() {
  S s;
  destroyed(s, 0, s.n);
  s.b.clear();
  post(s, 0, 0);
  ai_reach("clear");
}
extern "C" void drv_pop_front() {
  S s;
  ai_assume(s.n > 0);
  destroyed(s, 0, 1);
  s.b.pop_front();
  post(s, s.wrap(s.f + 1), s.n - 1);
  ai_reach("pop_front");
}
extern "C" void drv_pop_back() {
  S s;
  ai_assume(s.n > 0);
  destroyed(s, s.n - 1, 1);
  s.b.pop_back();
  post(s, s.f, s.n - 1);
  ai_reach("pop_back");
}
extern "C" void drv_pop_front_n() {
  S s;
  size k = s.upto("k", s.n);
  destroyed(s, 0, k);
  s.b.pop_front(k);
  post(s, s.wrap(s.f + k), s.n - k);
  ai_reach("pop_front_n");
}
extern "C" void drv_pop_back_n() {
  S s;
  size k = s.upto("k", s.n);
  destroyed(s, s.n - k, k);
  s.b.pop_back(k);
  post(s, s.f, s.n - k);
  ai_reach("pop_back_n");
}
#endif
// ------------------------------------------------------------ addition
#ifndef CONSTELEM
#ifdef NONTRIV
#define EXPECT_COPY(where, v) ai_expect2("copy", where, sizeof(T), &v)
#define EXPECT_MOVE(where, v) ai_expect2("move", where, sizeof(T), &v)
union Holder {
  VT v;
  Holder() {}
  ~Holder() {}
};
#define VALUE   \
  Holder h;     \
  VT& v = h.v;
#else
#define EXPECT_COPY(where, v) ai_expect_store(where, &v, sizeof(T))
#define EXPECT_MOVE(where, v) ai_expect_store(where, &v, sizeof(T))
#ifdef BLOB
#define VALUE VT v = VT(); v.a[0] = (unsigned short)ai_uint("v", 0, 100); v.a[2] = (unsigned short)ai_uint("w", 0, 100);
#undef EXPECT_COPY
#undef EXPECT_MOVE
#define EXPECT_COPY(where, v) ai_expect_copy(where, &v, sizeof(T))
#define EXPECT_MOVE(where, v) ai_expect_copy(where, &v, sizeof(T))
#else
#define VALUE VT v = (VT)ai_uint("v", 0, 100);
#endif
#endif

#ifdef THROWING
#define TRY(...)                              \
  bool threw = false;                         \
  try {                                       \
    __VA_ARGS__;                              \
  } catch (...) {                             \
    threw = true;                             \
  }                                           \
  if (threw) {                                \
    ai_reach("insertion throws");             \
    ai_log_check("B04:effects", false);       \
    ai_prove(s.b.size() == s.n, "B04:size");  \
    size r0 = s.b.raw_index(s.b.begin());     \
    ai_prove(r0 == s.f, "B04:first");         \
    cba c0(s.d, s.C, s.f, s.n);               \
    ai_same(&s.b, &c0, sizeof(cba), "B04:unchanged"); \
    return;                                   \
  }
#else
#define TRY(...) __VA_ARGS__;
#endif

extern "C" void drv_push_back_copy() {
  S s;
  ai_assume(s.n < s.C);
  VALUE
  TRY(s.b.push_back(static_cast<VT const&>(v)))
  EXPECT_COPY(s.slot(s.n), v);
  post(s, s.f, s.n + 1);
  ai_reach("push_back_copy");
}
extern "C" void drv_push_back_move() {
  S s;
  ai_assume(s.n < s.C);
  VALUE
  TRY(s.b.push_back(static_cast<VT&&>(v)))
  EXPECT_MOVE(s.slot(s.n), v);
  post(s, s.f, s.n + 1);
  ai_reach("push_back_move");
}
extern "C" void drv_push_front_copy() {
  S s;
  ai_assume(s.n < s.C);
  VALUE
  TRY(s.b.push_front(static_cast<VT const&>(v)))
  EXPECT_COPY(s.slot(s.C - 1), v);
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("push_front_copy");
}
extern "C" void drv_push_front_move() {
  S s;
  ai_assume(s.n < s.C);
  VALUE
  TRY(s.b.push_front(static_cast<VT&&>(v)))
  EXPECT_MOVE(s.slot(s.C - 1), v);
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("push_front_move");
}
extern "C" void drv_emplace_back() {
  S s;
  ai_assume(s.n < s.C);
#ifdef NONTRIV
  Arg v;
  T* p = nullptr;
  TRY(p = &s.b.emplace_back(static_cast<Arg const&>(v), 3))
  ai_expect2("ctor", s.slot(s.n), sizeof(T), &v);
#else
  VALUE
  T* p = &s.b.emplace_back(v);
  EXPECT_COPY(s.slot(s.n), v);
#endif
  ai_prove(p == s.slot(s.n), "B01:emplace result");
  post(s, s.f, s.n + 1);
  ai_reach("emplace_back");
}
extern "C" void drv_emplace_front() {
  S s;
  ai_assume(s.n < s.C);
#ifdef NONTRIV
  Arg v;
  T* p = nullptr;
  TRY(p = &s.b.emplace_front(static_cast<Arg const&>(v), 3))
  ai_expect2("ctor", s.slot(s.C - 1), sizeof(T), &v);
#else
  VALUE
  T* p = &s.b.emplace_front(v);
  EXPECT_COPY(s.slot(s.C - 1), v);
#endif
  ai_prove(p == s.slot(s.C - 1), "B01:emplace result");
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("emplace_front");
}
#ifdef NONTRIV
#define EXPECT_FORM(name, where) ai_expect(name, where, sizeof(T))
#define EXPECT_NONE(where) EXPECT_FORM("default", where)
#else
#define EXPECT_NONE(where) \
  VT zero = VT();          \
  EXPECT_COPY(where, zero)
#endif
#ifndef BLOB
extern "C" void drv_emplace_back_none() {
  S s;
  ai_assume(s.n < s.C);
  T* p = nullptr;
  TRY(p = &s.b.emplace_back())
  EXPECT_NONE(s.slot(s.n));
  ai_prove(p == s.slot(s.n), "B01:emplace result");
  post(s, s.f, s.n + 1);
  ai_reach("emplace_back_none");
}
extern "C" void drv_emplace_front_none() {
  S s;
  ai_assume(s.n < s.C);
  T* p = nullptr;
  TRY(p = &s.b.emplace_front())
  EXPECT_NONE(s.slot(s.C - 1));
  ai_prove(p == s.slot(s.C - 1), "B01:emplace result");
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("emplace_front_none");
}
#endif
#ifdef NONTRIV
extern "C" void drv_emplace_back_rvalue() {
  S s;
  ai_assume(s.n < s.C);
  Arg v;
  int n = 3;
  TRY(s.b.emplace_back(static_cast<Arg&&>(v), n))
  ai_expect2("ctor rvalue", s.slot(s.n), sizeof(T), &v);
  post(s, s.f, s.n + 1);
  ai_reach("emplace_back_rvalue");
}
extern "C" void drv_emplace_front_rvalue() {
  S s;
  ai_assume(s.n < s.C);
  Arg v;
  int n = 3;
  TRY(s.b.emplace_front(static_cast<Arg&&>(v), n))
  ai_expect2("ctor rvalue", s.slot(s.C - 1), sizeof(T), &v);
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("emplace_front_rvalue");
}
extern "C" void drv_emplace_back_lvalue() {
  S s;
  ai_assume(s.n < s.C);
  Arg v;
  TRY(s.b.emplace_back(v, 3))
  ai_expect2("ctor lvalue", s.slot(s.n), sizeof(T), &v);
  post(s, s.f, s.n + 1);
  ai_reach("emplace_back_lvalue");
}
extern "C" void drv_emplace_front_lvalue() {
  S s;
  ai_assume(s.n < s.C);
  Arg v;
  TRY(s.b.emplace_front(v, 3))
  ai_expect2("ctor lvalue", s.slot(s.C - 1), sizeof(T), &v);
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("emplace_front_lvalue");
}
extern "C" void drv_emplace_back_pair() {
  S s;
  ai_assume(s.n < s.C);
  TRY(s.b.emplace_back(1, 2))
  EXPECT_FORM("pair", s.slot(s.n));
  post(s, s.f, s.n + 1);
  ai_reach("emplace_back_pair");
}
extern "C" void drv_emplace_front_pair() {
  S s;
  ai_assume(s.n < s.C);
  TRY(s.b.emplace_front(1, 2))
  EXPECT_FORM("pair", s.slot(s.C - 1));
  post(s, s.wrap(s.f + s.C - 1), s.n + 1);
  ai_reach("emplace_front_pair");
}
#endif
#ifndef THROWING
// the argument may be an element of the buffer itself
extern "C" void drv_push_own() {
  S s;
  size i = s.upto("i", s.n);
  ai_assume(i < s.n && s.n < s.C);
  T* p = s.slot(i);
#ifdef NONTRIV
  s.b.push_back(s.b[i]);
  ai_expect2("copy", s.slot(s.n), sizeof(T), p);
#else
  s.b.push_back(s.b[i]);
  ai_expect_copy(s.slot(s.n), p, sizeof(T));
#endif
  post(s, s.f, s.n + 1);
  ai_reach("push_own");
}
#endif
#endif

// ------------------------------------------------------------ iterators
template <typename It>
static It at_(S& s, It b, size i) {
  (void)s;
  return b + static_cast<diff>(i);
}
// every way to position i yields the iterator begin() + i
template <typename It>
static void moves(S& s, It b, It e) {
  size i = s.upto("i", s.n);
  size j = s.upto("j", s.n);
  It p = at_(s, b, i), q = at_(s, b, j);
  ai_prove(q - p == static_cast<diff>(j) - static_cast<diff>(i), "B06:difference");
  diff k = static_cast<diff>(j) - static_cast<diff>(i);
  It r = p;
  It& rr = (r += k);
  ai_prove(&rr == &r, "B06:result");
  ai_same(&r, &q, sizeof(It), "B06:+=");
  It t = q;
  It& tt = (t -= k);
  ai_prove(&tt == &t, "B06:result");
  ai_same(&t, &p, sizeof(It), "B06:-=");
  It u = p + k;
  ai_same(&u, &q, sizeof(It), "B06:+");
  It v = q - k;
  ai_same(&v, &p, sizeof(It), "B06:-");
  It w = k + p;
  ai_same(&w, &q, sizeof(It), "B06:n+");
  It l = at_(s, b, s.n);
  ai_same(&l, &e, sizeof(It), "B06:range");
  It z = e - static_cast<diff>(s.n - i);
  ai_same(&z, &p, sizeof(It), "B06:from end");
}
extern "C" void drv_it_moves() {
  S s;
  moves(s, s.b.begin(), s.b.end());
  post(s, s.f, s.n);
  ai_reach("it_moves");
}
extern "C" void drv_cit_moves() {
  S s;
  moves(s, s.b.cbegin(), s.b.cend());
  post(s, s.f, s.n);
  ai_reach("cit_moves");
}
template <typename It>
static void steps(S& s, It b) {
  size i = s.upto("i", s.n);
  ai_assume(i < s.n);
  It p = at_(s, b, i), q = at_(s, b, i + 1);
  It r = p;
  It& rr = ++r;
  ai_prove(&rr == &r, "B06:result");
  ai_same(&r, &q, sizeof(It), "B06:++");
  It o = r--;
  ai_same(&o, &q, sizeof(It), "B06:post--");
  ai_same(&r, &p, sizeof(It), "B06:post--");
  It o2 = r++;
  ai_same(&o2, &p, sizeof(It), "B06:post++");
  ai_same(&r, &q, sizeof(It), "B06:post++");
  It& r3 = --r;
  ai_prove(&r3 == &r, "B06:result");
  ai_same(&r, &p, sizeof(It), "B06:--");
}
extern "C" void drv_it_steps() {
  S s;
  steps(s, s.b.begin());
  post(s, s.f, s.n);
  ai_reach("it_steps");
}
extern "C" void drv_cit_steps() {
  S s;
  steps(s, s.b.cbegin());
  post(s, s.f, s.n);
  ai_reach("cit_steps");
}
template <typename It>
static void access(S& s, It b) {
  size i = s.upto("i", s.n);
  ai_assume(i < s.n);
  It p = at_(s, b, i);
  ai_prove(&*p == s.slot(i), "B06:*");
  ai_prove(p.operator->() == s.slot(i), "B06:->");
  size j = s.upto("j", s.n);
  ai_assume(j < s.n);
  diff k = static_cast<diff>(j) - static_cast<diff>(i);
  ai_prove(&p[k] == s.slot(j), "B06:[]");
}
extern "C" void drv_it_access() {
  S s;
  access(s, s.b.begin());
  post(s, s.f, s.n);
  ai_reach("it_access");
}
extern "C" void drv_cit_access() {
  S s;
  access(s, s.b.cbegin());
  post(s, s.f, s.n);
  ai_reach("cit_access");
}
extern "C" void drv_raw_index() {
  S s;
  size i = s.upto("i", s.n);
  typename cba::iterator p = at_(s, s.b.begin(), i);
  typename cba::const_iterator c = at_(s, s.b.cbegin(), i);
  ai_prove(s.b.raw_index(p) == s.wrap(s.f + i), "B05:raw_index");
  ai_prove(s.b.raw_index(c) == s.wrap(s.f + i), "B05:raw_index");
  ai_prove(s.b.raw_index(s.b.end()) == s.wrap(s.f + s.n), "B05:raw_index");
  ai_prove(s.b.raw_index(s.b.cend()) == s.wrap(s.f + s.n), "B05:raw_index");
  post(s, s.f, s.n);
  ai_reach("raw_index");
}
template <typename A, typename B>
static void order(S& s, A b1, B b2) {
  size i = s.upto("i", s.n);
  size j = s.upto("j", s.n);
  A p = at_(s, b1, i);
  B q = at_(s, b2, j);
  ai_prove((p == q) == (i == j), "B06:==");
  ai_prove((p != q) == (i != j), "B06:!=");
  ai_prove((p < q) == (i < j), "B06:<");
  ai_prove((p <= q) == (i <= j), "B06:<=");
  ai_prove((p > q) == (i > j), "B06:>");
  ai_prove((p >= q) == (i >= j), "B06:>=");
}
extern "C" void drv_order_ii() {
  S s;
  order(s, s.b.begin(), s.b.begin());
  ai_reach("order_ii");
}
extern "C" void drv_order_cc() {
  S s;
  order(s, s.b.cbegin(), s.b.cbegin());
  ai_reach("order_cc");
}
#ifndef CONSTELEM
extern "C" void drv_order_ic() {
  S s;
  order(s, s.b.begin(), s.b.cbegin());
  ai_reach("order_ic");
}
extern "C" void drv_order_ci() {
  S s;
  order(s, s.b.cbegin(), s.b.begin());
  ai_reach("order_ci");
}
#endif
extern "C" void drv_convert() {
  S s;
  size i = s.upto("i", s.n);
  typename cba::iterator p = at_(s, s.b.begin(), i);
  typename cba::const_iterator c = at_(s, s.b.cbegin(), i);
  typename cba::const_iterator k = p;
  ai_same(&k, &c, sizeof(k), "B06:conversion");
  typename cba::const_iterator c2(c), c3;
  c3 = c;
  ai_same(&c2, &c, sizeof(k), "B06:copy");
  ai_same(&c3, &c, sizeof(k), "B06:copy");
  typename cba::iterator p2(p), p3;
  p3 = p;
  ai_same(&p2, &p, sizeof(p), "B06:copy");
  ai_same(&p3, &p, sizeof(p), "B06:copy");
  c3 = p;
  ai_same(&c3, &c, sizeof(k), "B06:conversion");
  ai_reach("convert");
}
template <typename RIt>
static void reverse(S& s, RIt b, RIt e) {
  ai_prove(e - b == static_cast<diff>(s.n), "B06:reverse");
  size i = s.upto("i", s.n);
  RIt p = b + static_cast<diff>(i);
  ai_prove((p == e) == (i == s.n), "B06:reverse");
  ai_prove((p < e) == (i < s.n), "B06:reverse");
  ai_prove(p - b == static_cast<diff>(i), "B06:reverse");
  if (i < s.n) {
    ai_prove(&*p == s.slot(s.n - 1 - i), "B06:reverse");
    ai_prove(&b[static_cast<diff>(i)] == s.slot(s.n - 1 - i), "B06:reverse");
    RIt q = p;
    ++q;
    RIt q2 = b + static_cast<diff>(i + 1);
    ai_same(&q, &q2, sizeof(RIt), "B06:reverse");
    --q;
    ai_same(&q, &p, sizeof(RIt), "B06:reverse");
  }
}
extern "C" void drv_reverse() {
  S s;
  reverse(s, s.b.rbegin(), s.b.rend());
  post(s, s.f, s.n);
  ai_reach("reverse");
}
extern "C" void drv_creverse() {
  S s;
  reverse(s, s.b.crbegin(), s.b.crend());
  post(s, s.f, s.n);
  ai_reach("creverse");
}
// const and reverse iterators give no write access
static_assert(std::is_same<decltype(*std::declval<cba&>().cbegin()), VT const&>::value, "B06");
static_assert(std::is_same<decltype(*std::declval<cba const&>().cbegin()), VT const&>::value, "B06");
static_assert(std::is_same<decltype(std::declval<cba&>().cbegin()[0]), VT const&>::value, "B06");
static_assert(std::is_same<decltype(std::declval<cba&>().cbegin().operator->()), VT const*>::value, "B06");
static_assert(std::is_same<decltype(*std::declval<cba&>().crbegin()), VT const&>::value, "B06");
static_assert(std::is_same<decltype(*std::declval<cba&>().begin()), T&>::value, "B06");
static_assert(!std::is_convertible<typename cba::const_iterator, typename cba::iterator>::value ||
              std::is_const<T>::value, "B06");

// ------------------------------------------------------------ bulk copies
#if !defined(NONTRIV) && !defined(CONSTELEM)
// expected: count elements between linear memory and the slots from a
static void expect_in(S& s, size a, T const* src, size count) {
  size k = a + count <= s.C ? count : s.C - a;
  ai_expect_copy(s.d + a, src, k * sizeof(T));
  ai_expect_copy(s.d, src + k, (count - k) * sizeof(T));
}
static void expect_out(S& s, T* dst, size a, size count) {
  size k = a + count <= s.C ? count : s.C - a;
  ai_expect_copy(dst, s.d + a, k * sizeof(T));
  ai_expect_copy(dst + k, s.d, (count - k) * sizeof(T));
}
static T* ext(size k) { return static_cast<T*>(ai_buf("ext", k * sizeof(T), alignof(T))); }

static void post_bulk(S& s, size f1, size n1) {
  ai_log_check("B07:elements", false);
  ai_prove(s.b.size() == n1, "B07:size");
  size r = s.b.raw_index(s.b.begin());
  if (n1 != 0)
    ai_prove(r == f1, "B07:first");
  else
    ai_prove(r < s.C, "B07:first");
  cba c(s.d, s.C, r, n1);
  ai_same(&s.b, &c, sizeof(cba), "B07:canonical");
}
extern "C" void drv_copy_in_back() {
  S s;
  size k = s.upto("k", s.free());
  T* e = ext(k);
  s.b.copy_in_back(static_cast<T const*>(e), k);
  expect_in(s, s.wrap(s.f + s.n), e, k);
  post_bulk(s, s.f, s.n + k);
  ai_reach("copy_in_back");
}
extern "C" void drv_copy_in_front() {
  S s;
  size k = s.upto("k", s.free());
  T* e = ext(k);
  s.b.copy_in_front(static_cast<T const*>(e), k);
  size a = s.wrap(s.f + (s.C - k));
  expect_in(s, a, e, k);
  post_bulk(s, a, s.n + k);
  ai_reach("copy_in_front");
}
extern "C" void drv_copy_out_front() {
  S s;
  size k = s.upto("k", s.n);
  T* e = ext(k);
  s.b.copy_out_front(e, k);
  expect_out(s, e, s.f, k);
  post_bulk(s, s.wrap(s.f + k), s.n - k);
  ai_reach("copy_out_front");
}
extern "C" void drv_copy_out_back() {
  S s;
  size k = s.upto("k", s.n);
  T* e = ext(k);
  s.b.copy_out_back(e, k);
  expect_out(s, e, s.wrap(s.f + (s.n - k)), k);
  post_bulk(s, s.f, s.n - k);
  ai_reach("copy_out_back");
}
extern "C" void drv_copy_in() {
  S s;
  size i = s.upto("i", s.n);
  size k = s.upto("k", s.n - i);
  T* e = ext(k);
  s.b.copy_in(s.b.begin() + static_cast<diff>(i), s.b.begin() + static_cast<diff>(i + k), static_cast<T const*>(e));
  expect_in(s, s.wrap(s.f + i), e, k);
  post_bulk(s, s.f, s.n);
  ai_reach("copy_in");
}
extern "C" void drv_copy_out() {
  S s;
  size i = s.upto("i", s.n);
  size k = s.upto("k", s.n - i);
  T* e = ext(k);
  cba const& cb = s.b;
  cb.copy_out(s.b.cbegin() + static_cast<diff>(i), s.b.cbegin() + static_cast<diff>(i + k), e);
  expect_out(s, e, s.wrap(s.f + i), k);
  post_bulk(s, s.f, s.n);
  ai_reach("copy_out");
}
extern "C" void drv_copy_all() {
  S s;
  T* e = ext(s.n);
  s.b.copy_out(s.b.begin(), s.b.end(), e);
  expect_out(s, e, s.f, s.n);
  post_bulk(s, s.f, s.n);
  ai_reach("copy_all");
}
#endif
