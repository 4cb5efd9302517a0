// Obligations of function<>: two wrappers in arbitrary states (empty, or
// holding any of several kinds of callable with arbitrary content), an
// arbitrary operation (DEPTH operations), and then a probe of both wrappers.
// A ghost set of live objects decides lifetimes; the certificate drivers show
// that every operation leads back to one of the canonical states.
#include "ai.h"
#include <functional>
#include <embedded/function.h>

using size = std::size_t;
#ifndef CAP
#define CAP 3 * sizeof(void*)
#endif
#ifndef ALN
#define ALN alignof(void*)
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifdef __EXCEPTIONS
#define EXC 1
#else
#define EXC 0
#endif

// ------------------------------------------------------------ ghost state
enum { NLIVE = 14 };
static void const* g_live[NLIVE];
static int g_moves, g_copies, g_dtors, g_calls;
static void const *g_from, *g_to, *g_called;

static int slot_of(void const* p) {
  for (int i = 0; i < NLIVE; ++i)
    if (g_live[i] == p)
      return i;
  return -1;
}
static int live_count() {
  int n = 0;
  for (int i = 0; i < NLIVE; ++i)
    n += g_live[i] != nullptr;
  return n;
}
static void born(void const* p) {
  ai_prove(slot_of(p) < 0, "F01:created over a live object");
  g_live[slot_of(nullptr)] = p;
}
static void died(void const* p) {
  int i = slot_of(p);
  ai_prove(i >= 0, "F01:destroyed exactly once");
  if (i >= 0)
    g_live[i] = nullptr;
  ++g_dtors;
}
static void used(void const* p) { ai_prove(slot_of(p) >= 0, "F01:use of a destroyed object"); }
static int live_in(void const* o, size n, size m) {
  int k = 0;
  for (int i = 0; i < NLIVE; ++i)
    if (g_live[i] && ai_within(g_live[i], 1, o, n)) {
      ai_prove(ai_within(g_live[i], m, o, n), "F04:inside the wrapper");
      ++k;
    }
  return k;
}

// ------------------------------------------------------------ callables
template <int Id, size Words, size Align>
struct Fn {
  alignas(Align) size tok[Words];
  explicit Fn(size t) {
    born(this);
    for (size i = 0; i < Words; ++i)
      tok[i] = t + i;
  }
  Fn(Fn const& o) {
    used(&o);
    born(this);
    ++g_copies;
    for (size i = 0; i < Words; ++i)
      tok[i] = o.tok[i];
  }
  Fn(Fn&& o) noexcept {
    used(&o);
    born(this);
    ++g_moves;
    g_from = &o;
    g_to = this;
    ai_prove(ai_aligned(this, Align), "F04:aligned");
    for (size i = 0; i < Words; ++i) {
      tok[i] = o.tok[i];
      o.tok[i] = 77;
    }
  }
  // never needed by the wrapper
  Fn& operator=(Fn const&) = delete;
  Fn(std::initializer_list<Fn> const&) { ai_prove(false, "F01:moved"); }
  ~Fn() { died(this); }
  size operator()(size a) {
    used(this);
    ++g_calls;
    g_called = this;
    for (size i = 0; i < Words; ++i)
      ++tok[i];
    return tok[Words - 1] + 3 * a + Id;
  }
  size operator()(size a) const {
    ai_prove(false, "F05:called as non-const");
    return a;
  }
};
using A = Fn<1, 1, 8>;
using B = Fn<2, 3, ALN>;

static size free_fn(size a) {
  ++g_calls;
  return 5 * a;
}
struct Obj {
  size v;
  size mf(size a) const {
    ++g_calls;
    return v + a;
  }
};

using W = embedded::function<size(size), CAP, ALN>;
// other signatures of the same size: pointers to members
using WM = embedded::function<size(Obj const&, size), CAP, ALN>;

struct Lam {
  size v;
  size operator()(size a) const {
    ++g_calls;
    return v + 7 * a;
  }
};

enum Kind { EMPTY, KA, KB, LAM, PTR, NKIND };

struct S {
  union {
    W w;
  };
  int kind;
  size tok;
  S() {}
  ~S() {}
};

static void create(S& s, int k, char const* nm) {
  s.kind = k;
  s.tok = ai_uint(nm, 0, 1000);
  switch (k) {
  case KA:
    ::new (&s.w) W(A(s.tok));
    break;
  case KB:
    ::new (&s.w) W(B(s.tok));
    break;
  case LAM:
    ::new (&s.w) W(Lam{s.tok});
    break;
  case PTR:
    ::new (&s.w) W(&free_fn);
    break;
  default:
    ::new (&s.w) W();
  }
}

static size expected(S& s, size a) {
  switch (s.kind) {
  case KA: return ++s.tok + 3 * a + 1;
  case KB: return ++s.tok + 2 + 3 * a + 2;
  case LAM: return s.tok + 7 * a;
  default: return 5 * a;
  }
}

// the ghost's view of a wrapper agrees with what can be observed
static void probe(S& s, bool call) {
  ai_prove(static_cast<bool>(s.w) == (s.kind != EMPTY), "F02:bool");
  int in = live_in(&s.w, sizeof(W), s.kind == KA ? sizeof(A) : s.kind == KB ? sizeof(B) : 1);
  ai_prove(in == (s.kind == KA || s.kind == KB), "F01:exactly the held callable is alive");
  if (!call)
    return;
  size a = ai_uint("a", 0, 1000);
  g_calls = 0;
  g_called = nullptr;
  int const mv = g_moves, cp = g_copies, dt = g_dtors;
  if (s.kind == EMPTY) {
#if EXC
    bool threw = false;
    try {
      s.w(a);
    } catch (std::bad_function_call const&) {
      threw = true;
    }
    ai_prove(threw, "F02:empty call throws");
    ai_prove(g_calls == 0, "F02:no callable runs");
#endif
  } else {
    size r = s.w(a);
    ai_prove(g_calls == 1, "F03:called once");
    ai_prove(r == expected(s, a), "F03:result");
    if (s.kind == KA || s.kind == KB)
      ai_prove(ai_within(g_called, 1, &s.w, sizeof(W)), "F03:the held callable is called");
  }
  ai_prove(g_moves == mv && g_copies == cp && g_dtors == dt, "F01:a call neither moves nor destroys");
}

static void finish(S& s) {
  s.w.~W();
  ai_prove(live_in(&s.w, sizeof(W), 1) == 0, "F01:destroyed with the wrapper");
}

static void reset() {
  g_moves = g_copies = g_dtors = g_calls = 0;
  g_from = g_to = nullptr;
}

static bool inst(int k) { return k == KA || k == KB; }

template <typename F>
static void assign_new(S& f, bool lvalue, int kind) {
  size t = ai_uint("t", 0, 1000);
  {
    F x(t);
    int n = live_count();
    if (lvalue) {
      f.w = x;
      ai_prove(x.tok[0] == t, "F01:a copied-from callable is unchanged");
      ai_prove(g_copies == 1, "F01:copied once");
    } else {
      f.w = std::move(x);
      ai_prove(g_copies == 0, "F01:not copied");
    }
    ai_prove(live_count() == n + (inst(f.kind) ? 0 : 1), "F01:the previous callable is destroyed");
    used(&x);
  }
  f.kind = kind;
  f.tok = t;
}

enum { NOP = 17 };
static void operate(S& f, S& g, int op) {
  reset();
  int const n = live_count();
  switch (op) {
  case 0: { // move construction (and back)
    {
      S t;
      ::new (&t.w) W(std::move(f.w));
      t.kind = f.kind;
      t.tok = f.tok;
      f.kind = EMPTY;
      ai_prove(g_moves == (inst(t.kind) ? 1 : 0) && g_copies == 0, "F01:one move-construction");
      ai_prove(g_dtors == (inst(t.kind) ? 1 : 0), "F01:source destroyed");
      if (inst(t.kind)) {
        ai_prove(ai_within(g_from, 1, &f.w, sizeof(W)), "F01:moved from the source");
        ai_prove(ai_within(g_to, 1, &t.w, sizeof(W)), "F01:moved to the destination");
      }
      probe(f, true);
      probe(t, true);
      finish(t);
    }
    break;
  }
  case 1: { // move assignment
    bool const old = inst(g.kind), src = inst(f.kind);
    g.w = std::move(f.w);
    g.kind = f.kind;
    g.tok = f.tok;
    f.kind = EMPTY;
    ai_prove(g_moves == (src ? 1 : 0) && g_copies == 0, "F01:one move-construction");
    ai_prove(g_dtors == (src ? 1 : 0) + (old ? 1 : 0), "F01:source and old destroyed");
    break;
  }
  case 2: // clear
    f.w = nullptr;
    ai_prove(live_count() == n - (inst(f.kind) ? 1 : 0), "F01:cleared");
    f.kind = EMPTY;
    break;
  case 3: // assign an empty wrapper
    f.w = W();
    ai_prove(live_count() == n - (inst(f.kind) ? 1 : 0), "F01:cleared");
    f.kind = EMPTY;
    break;
  case 4: assign_new<A>(f, false, KA); break;
  case 5: assign_new<A>(f, true, KA); break;
  case 6: assign_new<B>(f, false, KB); break;
  case 7: assign_new<B>(f, true, KB); break;
  case 8:
    f.tok = ai_uint("t", 0, 1000);
    f.w = Lam{f.tok};
    ai_prove(live_count() == n - (inst(f.kind) ? 1 : 0), "F01:replaced");
    f.kind = LAM;
    break;
  case 9:
    f.w = &free_fn;
    ai_prove(live_count() == n - (inst(f.kind) ? 1 : 0), "F01:replaced");
    f.kind = PTR;
    break;
  case 10: { // swap
    std::swap(f.w, g.w);
    int k = f.kind;
    size t = f.tok;
    f.kind = g.kind;
    f.tok = g.tok;
    g.kind = k;
    g.tok = t;
    ai_prove(live_count() == n && g_copies == 0, "F01:swap");
    break;
  }
  case 11: { // self move: no double destruction, state valid
    W& alias = f.w;
    f.w = std::move(alias);
    bool b = static_cast<bool>(f.w);
    ai_prove(live_count() == n - (inst(f.kind) && !b ? 1 : 0), "F01:self move");
    if (!b)
      f.kind = EMPTY;
    break;
  }
  case 12: // destroy and construct again
    f.w.~W();
    ai_prove(live_count() == n - (inst(f.kind) ? 1 : 0) && g_dtors == (inst(f.kind) ? 1 : 0), "F01:destroyed with the wrapper");
    create(f, KA, "t");
    break;
  case 13: { // copy construction from an lvalue callable
    f.w.~W();
    size t = ai_uint("t", 0, 1000);
    {
      B x(t);
      reset();
      ::new (&f.w) W(x);
      ai_prove(g_copies == 1 && g_moves == 0 && g_dtors == 0, "F01:stored by one copy");
      ai_prove(x.tok[0] == t, "F01:a copied-from callable is unchanged");
      g_copies = 0;
      f.w.~W();
      A y(t);
      ::new (&f.w) W(std::move(y));
      ai_prove(g_copies == 0 && g_moves == 1, "F01:stored by one move");
    }
    f.kind = KA;
    f.tok = t;
    break;
  }
  case 14: // nullptr construction
    f.w.~W();
    ::new (&f.w) W(nullptr);
    f.kind = EMPTY;
    break;
  case 15: { // chained assignment returns the wrapper itself
    W& r = (f.w = nullptr);
    ai_prove(&r == &f.w, "F01:assignment returns the wrapper");
    f.kind = EMPTY;
    W& q = (f.w = std::move(g.w));
    ai_prove(&q == &f.w, "F01:assignment returns the wrapper");
    f.kind = g.kind;
    f.tok = g.tok;
    g.kind = EMPTY;
    break;
  }
  case 16: // call
    probe(f, true);
    break;
  }
}

#ifndef KIND
#define KIND ai_choice(NKIND)
#endif

extern "C" void drv_history() {
  {
    S f, g;
    create(f, KIND, "f");
    create(g, ai_choice(NKIND), "g");
    probe(f, false);
    probe(g, false);
    for (int d = 0; d < DEPTH; ++d) {
#ifdef OP
      operate(f, g, OP + (DEPTH > 1 && d ? ai_choice(NOP) - OP : 0));
#else
      operate(f, g, ai_choice(NOP));
#endif
      probe(f, false);
      probe(g, false);
    }
    probe(f, true);
    probe(g, true);
    finish(f);
    finish(g);
  }
  ai_prove(live_count() == 0, "F01:nothing is leaked");
  ai_reach("history");
}

// certificate: the state after an operation equals a freshly created one
static bool same(S& s, char const* id) {
  S c;
  switch (s.kind) {
  case KA: {
    A x(s.tok);
    ::new (&c.w) W(std::move(x));
    break;
  }
  case KB: {
    B x(s.tok);
    ::new (&c.w) W(std::move(x));
    break;
  }
  case LAM: ::new (&c.w) W(Lam{s.tok}); break;
  case PTR: ::new (&c.w) W(&free_fn); break;
  default: ::new (&c.w) W();
  }
  ai_same(&s.w, &c.w, sizeof(W), id);
  c.w.~W();
  return true;
}
extern "C" void drv_certificate() {
  S f, g;
  create(f, KIND, "f");
  create(g, ai_choice(NKIND), "g");
  operate(f, g, ai_choice(NOP - 1));
  same(f, "CERT:closed");
  same(g, "CERT:closed");
  finish(f);
  finish(g);
  ai_reach("certificate");
}

// ------------------------------------------------ pointers to members
extern "C" void drv_member() {
  size (Obj::*mf)(size) const = &Obj::mf;
  size (Obj::*nf)(size) const = nullptr;
  size v = ai_uint("v", 0, 1000), a = ai_uint("a", 0, 1000);
  Obj o{v};
  {
    WM f(mf);
    ai_prove(static_cast<bool>(f), "F02:member function");
    g_calls = 0;
    ai_prove(f(o, a) == v + a && g_calls == 1, "F03:member function");
    WM g(nf);
    ai_prove(!g, "F02:null member function");
    g = mf;
    ai_prove(static_cast<bool>(g), "F02:assigned member function");
    g_calls = 0;
    ai_prove(g(o, a) == v + a && g_calls == 1, "F03:member function");
    g = nf;
    ai_prove(!g, "F02:assigned null member function");
    WM h(std::move(f));
    ai_prove(!f && h, "F02:moved");
    f = std::move(h);
    ai_prove(f && !h, "F02:moved");
    g_calls = 0;
    ai_prove(f(o, a) == v + a && g_calls == 1, "F03:member function");
#if EXC
    bool threw = false;
    try {
      g(o, a);
    } catch (std::bad_function_call const&) {
      threw = true;
    }
    ai_prove(threw, "F02:empty call throws");
#endif
  }
  {
    using D = embedded::function<size(Obj const&), CAP, ALN>;
    size Obj::*md = &Obj::v;
    size Obj::*nd = nullptr;
    D f(md), g(nd), e;
    ai_prove(f && !g && !e, "F02:member object");
    ai_prove(f(o) == v, "F03:member object");
    e = md;
    ai_prove(static_cast<bool>(e) && e(o) == v, "F03:member object");
    e = nd;
    ai_prove(!e, "F02:null member object");
    f = nullptr;
    ai_prove(!f, "F02:cleared");
    using DP = embedded::function<size(Obj*), CAP, ALN>;
    DP p(md);
    ai_prove(p(&o) == v, "F03:member object of a pointer");
  }
  ai_reach("member");
}

// ------------------------------------------------ arguments and results
struct Arg {
  size v;
  explicit Arg(size x)
      : v(x) {
    born(this);
  }
  Arg(Arg const& o)
      : v(o.v) {
    used(&o);
    born(this);
    ++g_copies;
  }
  Arg(Arg&& o) noexcept
      : v(o.v) {
    used(&o);
    born(this);
    ++g_moves;
    o.v = 12345;
  }
  ~Arg() { died(this); }
};
struct MoveOnly {
  size v;
  explicit MoveOnly(size x)
      : v(x) {}
  MoveOnly(MoveOnly&& o) noexcept
      : v(o.v) {
    o.v = 54321;
  }
  MoveOnly(MoveOnly const&) = delete;
};
static void const *p1, *p2, *p3, *p4;
static size s1, s2, s3, s4;

template <bool Const, typename S>
struct signature {
  using type = embedded::function<S, CAP, ALN>;
};
template <typename R, typename... As>
struct signature<true, R(As...)> {
  using type = embedded::function<R(As...) const, CAP, ALN>;
};

template <bool Const>
static void arguments() {
  size v = ai_uint("v", 0, 1000), w = ai_uint("w", 0, 1000);
  {
    // references refer to the caller's objects, in order
    auto l = [](Arg& a, Arg const& b, Arg&& c, Arg* d) -> Arg& {
      ++g_calls;
      p1 = &a;
      p2 = &b;
      p3 = &c;
      p4 = d;
      return a;
    };
    typename signature<Const, Arg&(Arg&, Arg const&, Arg&&, Arg*)>::type f(l);
    Arg a(v), b(w), c(v), d(w);
    reset();
    Arg& r = f(a, b, std::move(c), &d);
    ai_prove(p1 == &a && p2 == &b && p3 == &c && p4 == &d, "F03:references");
    ai_prove(&r == &a, "F03:reference result");
    ai_prove(g_calls == 1 && g_copies == 0 && g_moves == 0, "F03:references are not copied");
    ai_prove(a.v == v && b.v == w && c.v == v && d.v == w, "F03:arguments unchanged");
  }
  {
    // by value: moved, never copied
    auto l = [](Arg a, Arg b, size c, MoveOnly d) {
      ++g_calls;
      s1 = a.v;
      s2 = b.v;
      s3 = c;
      s4 = d.v;
      return MoveOnly(a.v + 2 * b.v + 5 * c);
    };
    typename signature<Const, MoveOnly(Arg, Arg, size, MoveOnly)>::type f(l);
    Arg a(v), b(w);
    reset();
    MoveOnly r = f(std::move(a), std::move(b), 9, MoveOnly(v + w));
    ai_prove(s1 == v && s2 == w && s3 == 9 && s4 == v + w, "F03:values in order");
    ai_prove(g_copies == 0, "F03:by-value arguments are moved");
    ai_prove(g_calls == 1, "F03:called once");
    ai_prove(r.v == v + 2 * w + 45, "F03:result");
    Arg x(v), y(w);
    reset();
    f(x, y, 1, MoveOnly(0));
    ai_prove(g_copies == 2, "F03:an lvalue is copied into the parameter once");
    ai_prove(x.v == v && y.v == w, "F03:the caller's objects are unchanged");
    ai_prove(s1 == v && s2 == w, "F03:values in order");
  }
  {
    // void result discards, results are converted
    auto l = [](size c) {
      ++g_calls;
      s1 = c;
      return c + 1;
    };
    typename signature<Const, void(size)>::type f(l);
    typename signature<Const, unsigned long long(size)>::type g(l);
    g_calls = 0;
    f(v);
    ai_prove(g_calls == 1 && s1 == v, "F03:void");
    ai_prove(g(w) == w + 1 && g_calls == 2, "F03:converted result");
    typename signature<Const, size()>::type n([v] { return v; });
    ai_prove(n() == v, "F03:no arguments");
    size sum = 0;
    typename signature<Const, void(size, size, size, size, size, size)>::type m([&sum](size a, size b, size c, size d, size e, size k) {
      sum = a + 2 * b + 4 * c + 8 * d + 16 * e + 32 * k;
    });
    m(v, w, 1, v, w, 2);
    ai_prove(sum == 9 * v + 18 * w + 68, "F03:values in order");
    // const-qualified parameter and const reference result
    Arg k(v);
    typename signature<Const, Arg const&(Arg const&)>::type cr([](Arg const& z) -> Arg const& { return z; });
    ai_prove(&cr(k) == &k, "F03:reference result");
    typename signature<Const, Arg && (Arg&&)>::type rr([](Arg&& z) -> Arg&& { return static_cast<Arg&&>(z); });
    Arg&& q = rr(static_cast<Arg&&>(k));
    ai_prove(&q == &k, "F03:reference result");
  }
  ai_prove(live_count() == 0, "F03:parameters are destroyed");
  ai_reach("arguments");
}
extern "C" void drv_arguments() { arguments<false>(); }
extern "C" void drv_arguments_const() { arguments<true>(); }

// ------------------------------------------------ shapes of signatures
static size sh_arg[10];
static size sh_n;
static void sh_record() {}
template <typename... T>
static void sh_record(size a, T... t) {
  sh_arg[sh_n++] = a;
  sh_record(t...);
}
template <typename R>
struct Shape {
  size v;
  R* r;
  template <typename... T>
  R operator()(T... t) const {
    ++g_calls;
    sh_n = 0;
    sh_record(t...);
#if EXC
    ai_maythrow();
#endif
    return static_cast<R&&>(*r);
  }
};
template <>
struct Shape<void> {
  size v;
  void* r;
  template <typename... T>
  void operator()(T... t) const {
    ++g_calls;
    sh_n = 0;
    sh_record(t...);
#if EXC
    ai_maythrow();
#endif
  }
};
template <typename R>
struct ShapeRef {
  R* r;
  size v;
  template <typename... T>
  R& operator()(T... t) const {
    ++g_calls;
    sh_n = 0;
    sh_record(t...);
#if EXC
    ai_maythrow();
#endif
    return *r;
  }
};
template <typename W, typename... T>
static void shape_call(W& f, bool empty, T... t) {
  g_calls = 0;
#if EXC
  bool bad = false, threw = false;
  try {
    (void)f(t...);
  } catch (std::bad_function_call const&) {
    bad = true;
  } catch (...) {
    threw = true;
  }
  ai_prove(bad == empty, "F02:empty call throws");
  ai_prove(!empty || !threw, "F02:empty call throws");
#else
  if (empty) return;
  (void)f(t...);
#endif
  ai_prove(g_calls == (empty ? 0 : 1), "F03:called once");
  if (empty) return;
  size const want[] = {t..., 0};
  ai_prove(sh_n == sizeof...(T), "F03:values in order");
  for (size i = 0; i < sizeof...(T); ++i) ai_prove(sh_arg[i] == want[i], "F03:values in order");
}
template <typename R, bool Const, typename C, typename... T>
static void shape(C const& c, T... t) {
  using WT = typename signature<Const, R(T...)>::type;
  WT e, f(c), h(c);
  ai_prove(!e && f && h, "F02:bool");
  shape_call(e, true, t...);
  shape_call(f, false, t...);
  shape_call(f, false, t...);
  h = nullptr;
  shape_call(h, true, t...);
  WT g(std::move(f));
  shape_call(f, true, t...);
  shape_call(g, false, t...);
  ai_prove(!e && !f && g && !h, "F02:bool");
}
template <bool Const, typename... T>
static void shapes(T... t) {
  size r = 7;
  switch (ai_choice(5)) {
  case 0: shape<void, Const>(Shape<void>{1, nullptr}, t...); break;
  case 1: shape<void, Const>(Shape<size>{1, &r}, t...); break;
  case 2: shape<size, Const>(Shape<size>{2, &r}, t...); break;
  case 3: shape<size&, Const>(ShapeRef<size>{&r, 1}, t...); break;
  default: shape<size const&, Const>(ShapeRef<size const>{&r, 1}, t...); break;
  }
  ai_reach("shapes");
}
static size sv(char const* n) { return ai_uint(n, 0, 1000); }
#define SHAPES(C, n)                                                                                         \
  extern "C" void drv_shapes_##n##0() { shapes<C>(); }                                                        \
  extern "C" void drv_shapes_##n##1() { shapes<C>(sv("a")); }                                                  \
  extern "C" void drv_shapes_##n##2() { shapes<C>(sv("a"), sv("b")); }                                          \
  extern "C" void drv_shapes_##n##3() { shapes<C>(sv("a"), sv("b"), sv("c")); }                                  \
  extern "C" void drv_shapes_##n##4() { shapes<C>(sv("a"), sv("b"), sv("c"), sv("d")); }                          \
  extern "C" void drv_shapes_##n##6() { shapes<C>(sv("a"), sv("b"), sv("c"), sv("d"), sv("e"), sv("f")); }         \
  extern "C" void drv_shapes_##n##9() { shapes<C>(sv("a"), sv("b"), sv("c"), sv("d"), sv("e"), sv("f"), sv("g"), sv("h"), sv("i")); }
SHAPES(false, m)
SHAPES(true, c)

// ------------------------------------------------ a wrapper in a wrapper
extern "C" void drv_nested() {
  size t = ai_uint("t", 0, 1000), a = ai_uint("a", 0, 1000);
  {
    W in{A(t)};
    struct Hold {
      W w;
      size operator()(size x) { return w(x); }
    };
    static_assert(std::is_nothrow_move_constructible<Hold>::value, "");
    embedded::function<size(size), sizeof(Hold), alignof(Hold)> out(Hold{std::move(in)});
    ai_prove(!in, "F02:moved");
    g_calls = 0;
    ai_prove(out(a) == t + 1 + 3 * a + 1, "F03:nested");
    ai_prove(g_calls == 1, "F03:called once");
    embedded::function<size(size), sizeof(Hold), alignof(Hold)> o2(std::move(out));
    ai_prove(o2(a) == t + 2 + 3 * a + 1, "F03:nested");
  }
  ai_prove(live_count() == 0, "F01:nothing is leaked");
  ai_reach("nested");
}

#if EXC
// ------------------------------------------------ exceptions
struct Thrower {
  size n;
  explicit Thrower(size x)
      : n(x) {
    born(this);
  }
  Thrower(Thrower&& o) noexcept
      : n(o.n) {
    used(&o);
    born(this);
    ++g_moves;
  }
  ~Thrower() { died(this); }
  size operator()(Arg a) {
    used(this);
    ++g_calls;
    ++n;
    ai_maythrow();
    return n + a.v;
  }
};
extern "C" void drv_exception() {
  size t = ai_uint("t", 0, 1000), a = ai_uint("a", 0, 1000);
  {
    using WT = embedded::function<size(Arg), CAP, ALN>;
    WT f{Thrower(t)};
    reset();
    bool threw = false;
    size r = 0;
    try {
      r = f(Arg(a));
    } catch (...) {
      threw = true;
    }
    ai_prove(g_calls == 1, "F03:called once");
    ai_prove(threw || r == t + 1 + a, "F03:result");
    if (threw)
      ai_reach("thrown");
    ai_prove(g_copies == 0 && live_count() == 1, "F03:an exception leaves the wrapper as it is");
    ai_prove(static_cast<bool>(f), "F03:an exception leaves the wrapper as it is");
    threw = false;
    try {
      r = f(Arg(a));
    } catch (...) {
      threw = true;
    }
    ai_prove(g_calls == 2, "F03:called once");
    ai_prove(threw || r == t + 2 + a, "F03:result");
    WT g(std::move(f));
    ai_prove(live_count() == 1 && g && !f, "F03:an exception leaves the wrapper as it is");
  }
  ai_prove(live_count() == 0, "F01:nothing is leaked");
  ai_reach("exception");
}
#else
extern "C" void drv_terminate() {
  W f;
  int k = ai_choice(4);
  W g{A(1)};
  if (k == 1)
    f = nullptr;
  else if (k == 2) {
    f = A(2);
    g = std::move(f);
  } else if (k == 3) {
    f = Lam{3};
    f = nullptr;
  }
  g_calls = 0;
  ai_expect_stop("terminate", "F02:empty call terminates");
  f(1);
  ai_prove(false, "F02:empty call terminates");
  ai_reach("terminate");
}
#endif

// ------------------------------------------------ const-correctness
struct Both {
  size v;
  size operator()(size a) { return v + a; }
  size operator()(size a) const { return v + 1000 + a; }
};
struct Inst {
  size v;
  explicit Inst(size x)
      : v(x) {
    born(this);
  }
  Inst(Inst&& o) noexcept
      : v(o.v) {
    used(&o);
    born(this);
    ++g_moves;
    g_from = &o;
    g_to = this;
    ai_prove(ai_aligned(this, alignof(Inst)), "F04:aligned");
  }
  ~Inst() { died(this); }
  size operator()(size a) const {
    used(this);
    ++g_calls;
    g_called = this;
    return v + a;
  }
};
extern "C" void drv_const() {
  size v = ai_uint("v", 0, 1000), a = ai_uint("a", 0, 1000);
  using C = embedded::function<size(size) const, CAP, ALN>;
  using M = embedded::function<size(size), CAP, ALN>;
  {
    Both b{v};
    C c(b);
    M m(b);
    C const& cc = c;
    ai_prove(c(a) == v + 1000 + a, "F05:called as const");
    ai_prove(cc(a) == v + 1000 + a, "F05:called as const");
    ai_prove(m(a) == v + a, "F05:called as non-const");
    C d(std::move(c));
    ai_prove(d(a) == v + 1000 + a && !c, "F05:called as const");
    d = nullptr;
    ai_prove(!d, "F02:bool");
    d = b;
    ai_prove(d(a) == v + 1000 + a, "F05:called as const");
    d = &free_fn;
    ai_prove(d(a) == 5 * a, "F03:result");
    M n(std::move(m));
    ai_prove(n(a) == v + a && !m, "F05:called as non-const");
    Both const k{v};
    M o(k);
    ai_prove(o(a) == v + a, "F05:called as non-const");
#if EXC
    bool threw = false;
    try {
      cc(a);
    } catch (std::bad_function_call const&) {
      threw = true;
    }
    ai_prove(threw, "F02:empty call throws");
#endif
  }
  {
    Inst x(v);
    reset();
    C c(std::move(x));
    ai_prove(g_moves == 1 && g_dtors == 0, "F01:stored by one move");
    ai_prove(live_in(&c, sizeof(C), sizeof(Inst)) == 1, "F01:exactly the held callable is alive");
    C const& cc = c;
    g_calls = 0;
    ai_prove(cc(a) == v + a && g_calls == 1, "F03:result");
    ai_prove(ai_within(g_called, sizeof(Inst), &c, sizeof(C)), "F03:the held callable is called");
    reset();
    C d(std::move(c));
    ai_prove(g_moves == 1 && g_dtors == 1, "F01:one move-construction");
    ai_prove(ai_within(g_from, 1, &c, sizeof(C)) && ai_within(g_to, 1, &d, sizeof(C)), "F01:moved to the destination");
    ai_prove(live_in(&c, sizeof(C), 1) == 0 && live_in(&d, sizeof(C), sizeof(Inst)) == 1, "F01:exactly the held callable is alive");
    reset();
    d = Inst(a);
    ai_prove(g_calls == 0 && d(0) == a && live_count() == 2, "F01:the previous callable is destroyed");
    reset();
    c = std::move(d);
    ai_prove(g_moves == 1 && g_dtors == 1 && c && !d, "F01:one move-construction");
    c = nullptr;
    ai_prove(live_count() == 1 && !c, "F01:cleared");
    c = Inst(a);
  }
  ai_prove(live_count() == 0, "F01:nothing is leaked");
  ai_reach("const");
}
// a callable that fills the wrapper exactly
extern "C" void drv_fill() {
  struct Full {
    unsigned char b[CAP];
    size operator()(size i) const { return b[i]; }
  };
  using X = embedded::function<size(size), CAP, ALN>;
  Full x;
  for (size i = 0; i < CAP; ++i)
    x.b[i] = static_cast<unsigned char>(3 * i + 1);
  X f(x);
  X g(std::move(f));
  f = std::move(g);
  for (size i = 0; i < CAP; ++i)
    ai_prove(f(i) == static_cast<unsigned char>(3 * i + 1), "F04:a callable of full size is stored completely");
  X h;
  ai_prove(!h && !g, "F02:bool");
  ai_reach("fill");
}

// ------------------------------------------------ unusual classes
// whatever the class of the callable looks like, its lifetime is the same
struct Track {
  Track() { born(this); }
  Track(Track const& o) {
    used(&o);
    born(this);
    ++g_copies;
  }
  Track(Track&& o) noexcept {
    used(&o);
    born(this);
    ++g_moves;
    g_from = &o;
    g_to = this;
  }
  Track& operator=(Track const&) = delete;
  ~Track() { died(this); }
};
struct Stateless final : Track { // an empty class
  enum { Moves = 1, Dtors = 1 };
  explicit Stateless(size) {}
  size operator()(size a) const {
    used(this);
    ++g_calls;
    return 11 * a;
  }
  static size res(size, size a) { return 11 * a; }
};
struct Virtual : Track { // a polymorphic class
  enum { Moves = 1, Dtors = 1 };
  size v;
  explicit Virtual(size x)
      : v(x) {}
  Virtual(Virtual const&) = default;
  Virtual(Virtual&& o) noexcept
      : Track(std::move(o))
      , v(o.v) {
    o.v = 99;
  }
  virtual ~Virtual() {}
  virtual size operator()(size a) {
    used(static_cast<Track*>(this));
    ++g_calls;
    return v + 13 * a;
  }
  static size res(size x, size a) { return x + 13 * a; }
};
struct Odd : Track { // overloaded operators that only get in the way
  enum { Moves = 1, Dtors = 1 };
  size v;
  explicit Odd(size x)
      : v(x) {}
  Odd* operator&() const {
    ai_prove(false, "F01:the address of the callable is taken as such");
    return nullptr;
  }
  static void* operator new(size) = delete;
  static void* operator new(size, void* p) {
    ai_prove(false, "F01:created where it is stored");
    return p;
  }
  static void operator delete(void*) = delete;
  explicit operator bool() const { return false; }
  bool operator==(std::nullptr_t) const { return true; }
  bool operator!() const { return true; }
  template <typename X>
  void operator,(X&&) const {
    ai_prove(false, "F01:no comma operator of the callable is used");
  }
  size operator()(size a) & {
    used(this);
    ++g_calls;
    return v + 17 * a;
  }
  static size res(size x, size a) { return x + 17 * a; }
};
struct Self { // trivially destroyed, but it knows its own address
  enum { Moves = 1, Dtors = 0 };
  size v;
  Self const* me;
  explicit Self(size x)
      : v(x)
      , me(this) {}
  Self(Self&& o) noexcept
      : v(o.v)
      , me(this) {
    ai_prove(o.me == &o, "F01:moved where it is");
    g_from = &o;
    g_to = this;
    ++g_moves;
    o.me = nullptr;
  }
  size operator()(size a) const {
    ai_prove(me == this, "F01:moved where it is");
    ++g_calls;
    return v + 19 * a;
  }
  static size res(size x, size a) { return x + 19 * a; }
};
struct Closer { // copied like plain data, but not destroyed like it
  enum { Moves = 0, Dtors = 1 };
  size v;
  explicit Closer(size x)
      : v(x) {}
  Closer(Closer const&) = default;
  ~Closer() { ++g_dtors; }
  size operator()(size a) const {
    ++g_calls;
    return v + 23 * a;
  }
  static size res(size x, size a) { return x + 23 * a; }
};
template <int N>
struct Bytes { // N bytes of data
  enum { Moves = 0, Dtors = 0 };
  unsigned char b[N];
  explicit Bytes(size x) {
    for (int i = 0; i < N; ++i)
      b[i] = static_cast<unsigned char>(x + i);
  }
  size operator()(size a) const {
    ++g_calls;
    size s = a;
    for (int i = 0; i < N; ++i)
      s += (i + 1) * b[i];
    return s;
  }
  static size res(size x, size a) { return Bytes(x).operator()(a) + 0 * --g_calls; }
};

template <typename Wr, typename C>
static void kind() {
  size t = ai_uint("t", 0, 100), a = ai_uint("a", 0, 1000);
  int const alive = live_count(), one = C::Moves && C::Dtors;
  {
    C x(t);
    reset();
    Wr f(std::move(x));
    ai_prove(g_moves == C::Moves && g_copies == 0 && g_dtors == 0, "F01:stored by one move");
    ai_prove(!C::Moves || (ai_within(g_to, 1, &f, sizeof(f)) && ai_aligned(g_to, alignof(C))), "F04:inside the wrapper");
    ai_prove(live_in(&f, sizeof(f), 1) == one && static_cast<bool>(f), "F01:exactly the held callable is alive");
    ai_prove(f(a) == C::res(t, a) && g_calls == 1, "F03:result");
    reset();
    Wr g(std::move(f));
    ai_prove(g_moves == C::Moves && g_copies == 0 && g_dtors == C::Dtors, "F01:one move-construction, source destroyed");
    ai_prove(!C::Moves || (ai_within(g_to, 1, &g, sizeof(g)) && ai_within(g_from, 1, &f, sizeof(f))), "F01:moved to the destination");
    ai_prove(live_in(&f, sizeof(f), 1) == 0 && live_in(&g, sizeof(g), 1) == one, "F01:exactly the held callable is alive");
    ai_prove(!f && g, "F02:moved");
    ai_prove(g(a) == C::res(t, a) && g_calls == 1, "F03:result");
    f = C(t + 1);
    reset();
    f = std::move(g);
    ai_prove(g_moves == C::Moves && g_copies == 0 && g_dtors == 2 * C::Dtors, "F01:source and old destroyed");
    ai_prove(live_in(&g, sizeof(g), 1) == 0 && live_in(&f, sizeof(f), 1) == one, "F01:exactly the held callable is alive");
    ai_prove(f && !g, "F02:moved");
    ai_prove(f(a) == C::res(t, a) && g_calls == 1, "F03:result");
    reset();
    f = nullptr;
    ai_prove(g_moves == 0 && g_dtors == C::Dtors && live_in(&f, sizeof(f), 1) == 0, "F01:cleared");
    ai_prove(!f, "F02:cleared");
    f = C(t + 2);
    ai_prove(f(a) == C::res(t + 2, a) && g_calls == 1, "F03:result");
    g = std::move(f);
    f = C(t + 3);
    std::swap(f, g);
    reset();
    ai_prove(f(a) == C::res(t + 2, a) && g(a) == C::res(t + 3, a) && g_calls == 2, "F03:result");
    ai_prove(live_in(&f, sizeof(f), 1) == one && live_in(&g, sizeof(g), 1) == one, "F01:exactly the held callable is alive");
    reset();
    g.~Wr();
    ai_prove(g_moves == 0 && g_dtors == C::Dtors, "F01:destroyed with the wrapper");
    ::new (static_cast<void*>(std::addressof(g))) Wr(C(t));
    reset();
  }
  ai_prove(g_dtors == 3 * C::Dtors, "F01:destroyed with the wrapper");
  ai_prove(live_count() == alive, "F01:nothing is leaked");
  ai_reach("kinds");
}
template <typename C>
static void kinds() {
  using Wc = embedded::function<size(size) const, CAP, ALN>;
  kind<W, C>();
  kind<Wc, C>();
}
extern "C" void drv_kinds_stateless() { kinds<Stateless>(); }
extern "C" void drv_kinds_virtual() { kind<W, Virtual>(); }
extern "C" void drv_kinds_odd() { kind<W, Odd>(); }
extern "C" void drv_kinds_self() { kinds<Self>(); }
extern "C" void drv_kinds_closer() { kinds<Closer>(); }
extern "C" void drv_kinds_bytes() {
  kind<W, Bytes<1>>();
  kind<W, Bytes<2>>();
  kind<W, Bytes<3>>();
  kind<W, Bytes<4>>();
  kind<W, Bytes<5>>();
  kind<W, Bytes<8>>();
  kind<W, Bytes<9>>();
  kind<W, Bytes<16>>();
  kind<W, Bytes<23>>();
}
