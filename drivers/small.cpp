// lock_guard and move_wrapper
#include "ai.h"
#include <embedded/mutex.h>
#include <embedded/move_wrapper.h>

using size = std::size_t;
#ifdef __EXCEPTIONS
#define EXC 1
#define NX noexcept(false)
#else
#define EXC 0
#define NX
#endif

// ------------------------------------------------------------ lock_guard
struct Mutex {
  int pad;
  void lock() { ai_event("lock", this, sizeof(Mutex)); }
  void unlock() { ai_event("unlock", this, sizeof(Mutex)); }
};
// other shapes of a mutex: values returned by lock/unlock are ignored, no
// other member is ever used
struct Odd {
  int pad;
  bool lock() {
    ai_event("lock", this, sizeof(Odd));
    return true;
  }
  int unlock() noexcept {
    ai_event("unlock", this, sizeof(Odd));
    return -1;
  }
  bool try_lock() {
    ai_prove(false, "L01:only lock and unlock are used");
    return true;
  }
  Odd* operator&() {
    return this;
  }
};
#define LOCK(m) ai_expect("lock", &m, sizeof m)
#define UNLOCK(m) ai_expect("unlock", &m, sizeof m)
#define BODY(v) ai_eventv("body", v)
#define EXPECT_BODY(v) ai_expectv("body", v)

template <typename M>
static int leave(M& m, int how) {
  embedded::lock_guard<M> g(m);
  BODY(1);
  if (how == 0)
    return 1;
  for (int i = 0; i < 2; ++i) {
    BODY(2);
    if (how == 1)
      break;
    if (how == 2)
      return 2;
  }
  BODY(3);
  return 3;
}
template <typename M>
static void plain() {
  M m, other;
  ai_log_reset();
  {
    embedded::lock_guard<M> g(m);
    BODY(1);
  }
  BODY(2);
  LOCK(m), EXPECT_BODY(1), UNLOCK(m), EXPECT_BODY(2);
  ai_log_check("L01:lock, body, unlock", true);
  int how = ai_choice(4);
  leave(m, how);
  BODY(9);
  LOCK(m), EXPECT_BODY(1);
  if (how)
    EXPECT_BODY(2);
  if (how == 3)
    EXPECT_BODY(2);
  if (how == 1 || how == 3)
    EXPECT_BODY(3);
  UNLOCK(m), EXPECT_BODY(9);
  ai_log_check("L01:early exits", true);
  {
    embedded::lock_guard<M> a(m);
    embedded::lock_guard<M> b(other);
    BODY(4);
  }
  LOCK(m), LOCK(other), EXPECT_BODY(4), UNLOCK(other), UNLOCK(m);
  ai_log_check("L01:nested guards", true);
  for (int i = 0; i < 3; ++i) {
    embedded::lock_guard<M> a(m);
    if (i == 1)
      continue;
    BODY(i);
  }
  for (int i = 0; i < 3; ++i) {
    LOCK(m);
    if (i != 1)
      EXPECT_BODY(i);
    UNLOCK(m);
  }
  ai_log_check("L01:once per iteration", true);
}
extern "C" void drv_lock() {
  plain<Mutex>();
  plain<Odd>();
  ai_reach("lock");
}
#if EXC
struct Failing {
  int pad;
  void lock() {
    ai_maythrow();
    ai_event("lock", this, sizeof(Failing));
  }
  void unlock() { ai_event("unlock", this, sizeof(Failing)); }
};
static void work() {
  BODY(1);
  ai_maythrow();
  BODY(2);
}
extern "C" void drv_lock_throw() {
  Failing m, n;
  int where = 0; // 0: no exception, 1: in the first lock, 2: second, 3: body
  ai_log_reset();
  try {
    where = 1;
    embedded::lock_guard<Failing> g(m);
    where = 2;
    embedded::lock_guard<Failing> h(n);
    where = 3;
    work();
    where = 0;
  } catch (...) {
    BODY(3);
  }
  if (where != 1)
    LOCK(m);
  if (where == 0 || where == 3)
    LOCK(n), EXPECT_BODY(1);
  if (where == 0)
    EXPECT_BODY(2);
  if (where == 0 || where == 3)
    UNLOCK(n);
  if (where != 1)
    UNLOCK(m);
  if (where)
    EXPECT_BODY(3);
  ai_log_check("L01:exceptions", true);
  if (where == 1)
    ai_reach("lock throws");
  if (where == 3)
    ai_reach("body throws");
  ai_reach("lock_throw");
}
#endif

// ------------------------------------------------------------ move_wrapper
enum { NLIVE = 10 };
static void const* g_live[NLIVE];
static int g_moves, g_copies, g_dtors;
static void const *g_from, *g_to;
static int slot_of(void const* p) {
  for (int i = 0; i < NLIVE; ++i)
    if (g_live[i] == p)
      return i;
  return -1;
}
static int live_count() {
  int n = 0;
  for (int i = 0; i < NLIVE; ++i)
    n += g_live[i] != nullptr;
  return n;
}
static void born(void const* p) {
  ai_prove(slot_of(p) < 0, "M01:created over a live object");
  g_live[slot_of(nullptr)] = p;
}
static void died(void const* p) {
  int i = slot_of(p);
  ai_prove(i >= 0, "M01:destroyed exactly once");
  if (i >= 0)
    g_live[i] = nullptr;
  ++g_dtors;
}
static void used(void const* p) { ai_prove(slot_of(p) >= 0, "M01:use of a destroyed value"); }
static void reset() {
  g_moves = g_copies = g_dtors = 0;
  g_from = g_to = nullptr;
}

struct Val {
  size v;
  explicit Val(size x)
      : v(x) {
    born(this);
  }
  Val(Val const& o)
      : v(o.v) {
    used(&o);
    born(this);
    ++g_copies;
  }
  Val(Val& o)
      : v(o.v) {
    used(&o);
    born(this);
    ++g_copies;
  }
  Val(Val&& o) noexcept
      : v(o.v) {
    used(&o);
    born(this);
    ++g_moves;
    g_from = &o;
    g_to = this;
    o.v = 4711;
  }
  Val(std::initializer_list<Val>) { ai_prove(false, "M01:moved"); }
  template <typename T>
  explicit Val(T const&, int = 0) {
    ai_prove(false, "M01:moved");
  }
  Val& operator=(Val const&) = delete;
  ~Val() { died(this); }
};
struct Only {
  size v;
  explicit Only(size x)
      : v(x) {
    born(this);
  }
  Only(Only const&) = delete;
  Only(Only&& o) noexcept
      : v(o.v) {
    used(&o);
    born(this);
    ++g_moves;
    g_from = &o;
    g_to = this;
    o.v = 4711;
  }
  ~Only() { died(this); }
};
template <typename T, typename W, typename Src>
static void transfer(Src&& s, void const* src, size v) {
  reset();
  {
    W w(std::forward<Src>(s));
    ai_prove(g_moves == 1 && g_copies == 0 && g_dtors == 0, "M01:moved exactly once, never copied");
    ai_prove(g_from == src && g_to == &*w, "M01:moved from the source into the wrapper");
    ai_prove((*w).v == v && w->v == v, "M01:the value arrives");
  }
  ai_prove(g_dtors == 1, "M01:destroyed with the wrapper");
}
template <typename T>
static void wrapper() {
  using W = embedded::move_wrapper<T>;
  size v = ai_uint("v", 0, 1000);
  {
    T x(v);
    transfer<T, W>(std::move(x), &x, v);
    ai_prove(x.v == 4711, "M01:moved");
  }
  for (int how = 0; how < 4; ++how) {
    T x(v);
    reset();
    W a(std::move(x));
    ai_prove(g_moves == 1 && g_copies == 0 && g_from == &x && g_to == &*a, "M01:moved exactly once, never copied");
    W const& ca = a;
    void const* src = &*ca;
    ai_prove(src == &*a && a.operator->() == src && ca.operator->() == src, "M01:access to the contained value");
    switch (how) {
    case 0: transfer<T, W>(std::move(a), src, v); break;
    case 1: transfer<T, W>(a, src, v); break;
    case 2: transfer<T, W>(ca, src, v); break;
    case 3: transfer<T, W>(std::move(ca), src, v); break;
    }
    ai_prove((*a).v == 4711, "M01:moved out of the source");
    (*a).v = v + 1;
    ai_prove(ca->v == v + 1, "M01:access to the contained value");
    a->v = v + 2;
    ai_prove((*ca).v == v + 2, "M01:access to the contained value");
    // chains: each step moves on
    reset();
    W b(a), c(b);
    W d(std::move(c));
    ai_prove(g_moves == 3 && g_copies == 0 && g_dtors == 0 && (*d).v == v + 2, "M01:chain of copies");
    W const e(d);
    W f(e);
    ai_prove(g_moves == 5 && f->v == v + 2 && e->v == 4711, "M01:const source");
  }
  // capture in a closure that is itself copied and moved
  {
    W a{T(v)};
    reset();
    auto l = [a]() { return a->v; };
    auto m = l;
    auto n = std::move(m);
    ai_prove(g_moves == 3 && g_copies == 0 && n() == v, "M01:captured");
  }
  ai_prove(live_count() == 0, "M01:destroyed exactly once");
}
extern "C" void drv_move_wrapper() {
  wrapper<Val>();
  wrapper<Only>();
  size v = ai_uint("w", 0, 1000);
  embedded::move_wrapper<size> i(static_cast<size&&>(v));
  auto j = i;
  ai_prove(*j == v, "M01:the value arrives");
  size* p = &v;
  embedded::move_wrapper<size*> q(static_cast<size*&&>(p));
  auto const r = q;
  ai_prove(*r == &v, "M01:the value arrives");
  ai_reach("move_wrapper");
}
#if EXC
struct Thrower {
  size v;
  explicit Thrower(size x)
      : v(x) {
    born(this);
  }
  Thrower(Thrower&& o)
      : v(o.v) {
    used(&o);
    ai_maythrow();
    born(this);
    ++g_moves;
  }
  Thrower(Thrower const& o)
      : v(o.v) {
    ai_prove(false, "M01:never copied");
  }
  ~Thrower() { died(this); }
};
extern "C" void drv_move_throws() {
  using W = embedded::move_wrapper<Thrower>;
  size v = ai_uint("v", 0, 1000);
  int step = 0;
  {
    Thrower x(v);
    try {
      W a(std::move(x));
      step = 1;
      W b(a);
      step = 2;
      W const c(std::move(b));
      step = 3;
      W d(c);
      step = 4;
      ai_prove(d->v == v, "M01:the value arrives");
    } catch (...) {
      ai_prove(g_moves == step, "M02:the exception reaches the caller");
      ai_reach("thrown");
    }
    ai_prove(g_moves == step, "M02:the exception reaches the caller");
    ai_prove(live_count() == 1, "M01:destroyed exactly once");
  }
  ai_prove(live_count() == 0, "M01:destroyed exactly once");
  ai_prove(step <= 4, "M02:the exception reaches the caller");
  ai_reach("move_throws");
}
#endif
