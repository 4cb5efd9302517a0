"""F01-F05: function<>"""
from engine.check import Job
from engine import witness
from engine.witness import Prog

SRC = "function.cpp"
CONFS = {
    "c++17": ("-std=c++17",),
    "c++11, capacity 48, alignment 16": ("-std=c++11", "-DCAP=48", "-DALN=16"),
    "c++20, no exceptions": ("-std=c++20", "-fno-exceptions", "-fno-rtti"),
}
LONG = {
    "c++14, capacity 24, alignment 8": ("-std=c++14", "-DCAP=24", "-DALN=8"),
    "c++20, capacity 128, alignment 64": ("-std=c++20", "-DCAP=128", "-DALN=64"),
    "c++11, no exceptions, alignment 32": ("-std=c++11", "-fno-exceptions", "-fno-rtti", "-DCAP=40", "-DALN=32"),
}
OTHER = {"F01": "member|arguments.*|nested|const|exception|kinds_.*", "F02": "shapes_.*|member|arguments.*|nested|const|exception|terminate|fill|kinds_.*",
         "F03": "shapes_.*|member|arguments.*|nested|const|exception|fill|kinds_.*", "F04": "nested|const|fill|kinds_.*", "F05": "const"}
MINIMUM = {"F01": 2000, "F02": 2000, "F03": 300, "F04": 300, "F05": 20}
KINDS = 5
NOPS = 17


def jobs(c, own, depth, confs, names=None):
    out = []
    for conf, fl in confs.items():
        if names is None or "history" in names:
            for k in range(KINDS):
                if depth == 1:
                    out.append(Job(SRC, fl + ("-DKIND=%d" % k,), "history", conf, own, gcc_branch=False))
                else:
                    for op in range(NOPS):
                        out.append(Job(SRC, fl + ("-DKIND=%d" % k, "-DDEPTH=%d" % depth, "-DOP=%d" % op), "history", conf, own, gcc_branch=False))
        pat = OTHER[c.pid]
        if "no exceptions" in conf:
            pat = "|".join(x for x in pat.split("|") if x != "exception")
        else:
            pat = "|".join(x for x in pat.split("|") if x != "terminate")
        out.append(Job(SRC, fl, pat, conf, own, gcc_branch=False))
    return out


def certificate(c, confs):
    """is every state after an operation one of the canonical states?"""
    from engine.check import run_all
    js = [Job(SRC, fl + ("-DKIND=%d" % k,), "certificate", conf, ("CERT:",), gcc_branch=False) for conf, fl in confs.items() for k in range(KINDS)]
    res = run_all(js, until=c.t0 + 400)
    bad = [r for r in res if r is None or r["viol"] or r["undec"] or r["broken"] or r["compile_error"]]
    n = sum(r["proved"].get("CERT:closed", 0) for r in res if r)
    c.count("certificate_states", n)
    return not bad and n > 500


def check(c):
    confs = dict(CONFS)
    if c.thorough:
        confs.update(LONG)
    own = (c.pid + ":",)
    if c.pid != "F05":
        c.run_jobs(jobs(c, own, 2 if c.thorough else 1, confs))
        if not c.viol:
            if certificate(c, CONFS if not c.thorough else confs):
                c.notes.append("closed: every operation leads from {empty, holds T} x {empty, holds T} back to one of these states with the same representation as a fresh wrapper")
            else:
                c.notes.append("representation is not canonical after every operation: decided over all histories of 3 operations instead")
                c.run_jobs(jobs(c, own, 3 if c.thorough else 2, dict(list(confs.items())[:1]), {"history"}))
    else:
        c.run_jobs(jobs(c, own, 1, confs, ()))
    if c.pid == "F01":
        # compilers do not agree on what braces mean here; what is stored is never wrapped into a list
        witness.run(c, [Prog("F01:moved", "a callable with a list constructor", HEAD + """
#include <initializer_list>
struct G { G() {} G(G&&) noexcept {} G(G const&) noexcept {} G(std::initializer_list<G>) = delete; int operator()(int x) const { return x; } };
void f(G& g, G const& h) {
  function<int(int)> a(g), b(h), c((G())), d;
  d = g;
  d = G();
  d = std::move(a);
  function<int(int) const> e(h), k(std::move(e));
  (void)b; (void)c; (void)k;
}
""", where="include/embedded/function.h")])
    if c.pid == "F04":
        witness.run(c, f04(c))
    if c.pid == "F05":
        witness.run(c, f05(c))
    c.minimum = {c.pid + ":": MINIMUM[c.pid]}
    c.assumptions = ["configurations: " + "; ".join(confs), "kinds of callable: instrumented classes of two sizes, capturing lambda, function pointer, pointers to members, nested wrapper",
                     "callables do not modify the wrapper they are called through"]
    c.explanation = (
        "Typestate analysis by abstract interpretation of the wrapper's compiled source: abstract states are {empty, holds a callable of type T with "
        "arbitrary content}; a ghost set of live objects gives the meaning of construction and destruction. Every operation is interpreted from every "
        "pair of abstract states, and shown to lead back to one of them (certificate), so the obligations hold along every history.")


HEAD = """#include <embedded/function.h>
#include <utility>
#include <type_traits>
using embedded::function;
"""


def f04(c):
    P = []

    def good(name, code, **k):
        P.append(Prog("F04:accepted", name, HEAD + code, where="include/embedded/function.h", **k))

    def bad(name, code, **k):
        P.append(Prog("F04:rejected", name, HEAD + code, bad=True, where="include/embedded/function.h", **k))

    quick = dict(stds=("11", "17")) if not c.thorough else {}
    one = dict(stds=("11",), compilers=("g++",)) if not c.thorough else {}
    # size
    for cap in ((1, 8, 24, 40) if not c.thorough else (1, 2, 3, 4, 7, 8, 12, 16, 24, 25, 32, 40, 64, 100, 128, 1000)):
        for sig, call in (("void()", "void operator()() const {}"), ("int(int) const", "int operator()(int x) const { return x; }")):
            for how in ("function<%s, %d, 8> f{F()};" % (sig, cap), "F x; function<%s, %d, 8> f(x);" % (sig, cap),
                        "function<%s, %d, 8> f; f = F();" % (sig, cap), "F const x{}; function<%s, %d, 8> f; f = x;" % (sig, cap)):
                bad("size %d/%d, %s" % (cap, cap + 1, how), """
#ifdef BAD
enum { N = %d + 1 };
#else
enum { N = %d };
#endif
struct F { char c[N]; %s };
void use() { %s (void)f; }
""" % (cap, cap, call, how), **one)
    # default capacity and alignment
    bad("default capacity", """
#ifdef BAD
enum { N = 3 * sizeof(void*) + 1 };
#else
enum { N = 3 * sizeof(void*) };
#endif
struct F { char c[N]; void operator()() {} };
void use() { function<void()> f{F()}; (void)f; }
""", **quick)
    bad("default alignment", """
#ifdef BAD
enum { A = 2 * alignof(void*) };
#else
enum { A = alignof(void*) };
#endif
struct alignas(A) F { char c; void operator()() {} };
void use() { function<void()> f{F()}; (void)f; }
""", **quick)
    # alignment
    for al in ((1, 4, 8, 16) if not c.thorough else (1, 2, 4, 8, 16, 32, 64, 128)):
        for how in ("function<int(int), 256, %d> f{F()};" % al, "function<int(int) const, 256, %d> f; f = F();" % al):
            bad("alignment %d/%d, %s" % (al, 2 * al, how), """
#ifdef BAD
enum { A = 2 * %d };
#else
enum { A = %d };
#endif
struct alignas(A) F { char c; int operator()(int x) const { return x; } };
void use() { %s (void)f; }
""" % (al, al, how), **one)
    # throwing moves
    for nm, dec in (("throwing move", "F() {} F(F&&) NE {}"), ("copy only", "F() {} F(F const&) NE {}"), ("throwing move, nothrow copy", "F() {} F(F&&) NE {} F(F const&) noexcept {}"),
                    ("member with a throwing move", "struct M { M() {} M(M&&) NE {} } m;")):
        lv = ("F x{}; function<void()> f{x};", "F const x{}; function<void()> f{x};", "F x{}; function<void()> f; f = x;", "function<void()> f{const_cast<F const&&>(F())};")
        for how in ("function<void()> f{F()};", "function<void()> f; f = F();", "function<void() const> f{F()};") + (lv if "const&" in dec else ()):
            bad("%s, %s" % (nm, how), """
#ifdef BAD
#define NE
#else
#define NE noexcept
#endif
struct F { %s void operator()() const {} };
void use() { %s (void)f; }
""" % (dec, how), **one)
    # not callable with the signature
    for nm, sig, a, b in (
            ("argument type", "void(int)", "void operator()(int*) {}", "void operator()(long) {}"),
            ("too many parameters", "void(int)", "void operator()(int, int) {}", "void operator()(int) {}"),
            ("too few parameters", "void(int, int)", "void operator()(int) {}", "void operator()(int, int) {}"),
            ("result type", "int*()", "int operator()() { return 0; }", "int* operator()() { return nullptr; }"),
            ("void result for a value", "int()", "void operator()() {}", "int operator()() { return 1; }"),
            ("reference to const", "int&()", "int const& operator()() { static const int i = 0; return i; }", "int& operator()() { static int i = 0; return i; }"),
            ("non-const lvalue argument from a value", "void(int)", "void operator()(int&) {}", "void operator()(int const&) {}"),
            ("rvalue parameter from an lvalue", "void(int&)", "void operator()(int&&) {}", "void operator()(int&) {}"),
            ("rvalue-qualified call", "void()", "void operator()() && {}", "void operator()() & {}"),
            ("move-only argument by reference", "void(int const&)", "void operator()(int&) {}", "void operator()(int) {}"),
            ("no call operator", "void()", "", "void operator()() {}"),
            ("non-const call operator for a const signature", "void() const", "void operator()() {}", "void operator()() const {}"),
    ):
        for how in ("function<%s> f{F()};" % sig, "function<%s> f; f = F();" % sig):
            bad("%s: %s" % (nm, how), """
struct F {
#ifdef BAD
%s
#else
%s
#endif
};
void use() { %s (void)f; }
""" % (a, b, how), **quick)
    bad("function pointer of another type", """
int g(int);
void use() {
#ifdef BAD
function<int*(int)> f(&g);
#else
function<int(int)> f(&g);
#endif
(void)f; }
""", **quick)
    bad("member function of another class", """
struct X { int m(int) { return 0; } };
struct Y { };
void use() {
#ifdef BAD
function<int(Y&, int)> f(&X::m);
#else
function<int(X&, int)> f(&X::m);
#endif
(void)f; }
""", **quick)
    # everything else within the limits is accepted
    good("kinds of callable", """
#include <functional>
struct Final final { int v; int operator()(int x) { return x + v; } };
struct Amp { int operator()(int x) { return x; } Amp* operator&() = delete; };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) noexcept {} MoveOnly(MoveOnly const&) = delete; int operator()(int x) { return x; } };
struct NoAssign { int const c; int operator()(int x) const { return x + c; } };
struct Tmpl { template <typename T> T operator()(T x) const { return x; } };
struct Var { template <typename... T> int operator()(T&&...) { return 1; } };
struct LRef { int operator()(int x) & { return x; } };
struct Conv { operator long() const { return 1; } };
struct Virt { virtual ~Virt() {} virtual int operator()(int x) { return x; } };
struct Derived : Virt { int operator()(int x) override { return x + 1; } };
struct Expl { explicit Expl(int) noexcept {} Expl(Expl&&) = default; int operator()(int x) { return x; } };
struct ThrowCopy { ThrowCopy() {} ThrowCopy(ThrowCopy const&) {} ThrowCopy(ThrowCopy&&) noexcept {} int operator()(int x) { return x; } };
struct NewOp { void* operator new(std::size_t) = delete; int operator()(int x) { return x; } };
int fn(int x);
int fnne(int x) noexcept;
struct M { int d; int mf(int) { return 0; } int cf(int) const { return 0; } };
template <typename F> void w(F&& f) {
  function<int(int)> a(std::forward<F>(f));
  function<long(short), 64> b(std::move(a) ? nullptr : nullptr);
  (void)b;
}
void use() {
  int x = 1;
  function<int(int)> f{Final{1}};
  f = Amp(); f = MoveOnly(); f = NoAssign{2}; f = Tmpl(); f = Var(); f = LRef(); f = Virt(); f = Derived(); f = Expl(1); f = NewOp();
  f = ThrowCopy(); ThrowCopy tc; f = tc;
  f = fn; f = &fn; f = fnne; f = [x](int y) { return x + y; }; f = [x](int y) mutable { return x += y; }; f = [&x](int y) { return x + y; };
  Final fl{2}; f = std::ref(fl); f = nullptr;
  NoAssign na{3}; f = na; NoAssign const cna{3}; f = cna; function<int(int)> g(na), h(cna), i(fn), j(&fn), k(nullptr), l;
  function<long(int)> r1{Final{1}}; function<double(short)> r2{Final{1}}; function<void(int)> r3{Final{1}};
  function<Conv()> c1([] { return Conv(); }); function<long()> c2([] { return Conv(); });
  function<int(M&, int)> m1(&M::mf), m2(&M::cf); function<int(M const&, int)> m3(&M::cf); function<int(M*, int)> m4(&M::mf);
  function<int&(M&)> m5(&M::d); function<int(M const&)> m6(&M::d); m6 = &M::d; m1 = &M::mf;
  function<int(M const*, int) const> m7(&M::cf); m7 = &M::cf;
  function<void(MoveOnly)> v1([](MoveOnly) {}); function<void(MoveOnly)> v2([](MoveOnly&&) {}); function<MoveOnly()> v3([] { return MoveOnly(); });
  function<int(int) const> cf([x](int y) { return x + y; }); cf = fn; cf = NoAssign{1}; cf = Tmpl();
  function<void()> e1([] {}); function<void(), 1, 1> e2([] {}); function<void(int&, int const&, int&&)> e3([](int&, int const&, int&&) {});
  w(Final{1}); w(fn); w([](int y) { return y; });
}
""")
    good("callables of exactly the capacity and alignment", "\n".join(
        "struct alignas(%d) F%d_%d { char c[%d]; int operator()(int) const { return c[0]; } }; void use%d_%d() { F%d_%d x{}; function<int(int), %d, %d> f(x), g(std::move(x)); f = x; f = std::move(x); function<int(int) const, %d, %d> h(x); h = x; static_assert(sizeof(F%d_%d) == %d, \"\"); }"
        % (a, s, a, s, s, a, s, a, s, a, s, a, s, a, s) for a in (1, 2, 4, 8, 16, 64) for s in (a, 2 * a, 3 * a)))
    return P


def f05(c):
    P = []
    P.append(Prog("F05:traits", "move-only, nothrow movable", HEAD + "\n".join("""
static_assert(!std::is_copy_constructible<function<%s>>::value, "");
static_assert(!std::is_copy_assignable<function<%s>>::value, "");
static_assert(!std::is_constructible<function<%s>, function<%s>&>::value, "");
static_assert(!std::is_constructible<function<%s>, function<%s> const>::value, "");
static_assert(!std::is_assignable<function<%s>&, function<%s>&>::value, "");
static_assert(!std::is_assignable<function<%s>&, function<%s> const>::value, "");
static_assert(std::is_nothrow_move_constructible<function<%s>>::value, "");
static_assert(std::is_nothrow_move_assignable<function<%s>>::value, "");
static_assert(std::is_nothrow_default_constructible<function<%s>>::value, "");
static_assert(std::is_nothrow_constructible<function<%s>, std::nullptr_t>::value, "");
static_assert(std::is_nothrow_assignable<function<%s>&, std::nullptr_t>::value, "");
static_assert(std::is_nothrow_destructible<function<%s>>::value, "");
""".replace("%s", s) for s in ("void()", "void() const", "int(int)", "int&(long, char const*) const", "void(), 1, 1", "void() const, 64, 64", "int(int), 48, 16", "int(), 65", "void(int), 1000", "int(long) const, 4096, 256", "void(), 8, 1")),
                  where="include/embedded/function.h"))
    P.append(Prog("F05:callability", "calling through const and non-const references", HEAD + """
template <typename F, typename... A> struct can {
  template <typename G> static auto t(int) -> decltype((void)std::declval<G>()(std::declval<A>()...), std::true_type());
  template <typename G> static std::false_type t(...);
  static bool const value = decltype(t<F>(0))::value;
};
static_assert(can<function<void()>&>::value, "");
static_assert(!can<function<void()> const&>::value, "");
static_assert(!can<function<void()> const>::value, "");
static_assert(can<function<void() const>&>::value, "");
static_assert(can<function<void() const> const&>::value, "");
static_assert(can<function<void() const> const>::value, "");
static_assert(can<function<int(int&, long)>&, int&, int>::value, "");
static_assert(!can<function<int(int&, long)> const&, int&, int>::value, "");
static_assert(can<function<int(int&, long) const, 64, 32> const&, int&, int>::value, "");
static_assert(!can<function<int(int&, long), 64, 32> const&, int&, int>::value, "");
static_assert(!can<function<int(int&, long) const> const&, int, int>::value, "");
static_assert(!can<function<int(int&, long) const> const&, int&>::value, "");
static_assert(!can<function<int(int&, long) const> const&, int&, long, int>::value, "");
static_assert(std::is_same<decltype(std::declval<function<int&(int)>&>()(1)), int&>::value, "");
static_assert(std::is_same<decltype(std::declval<function<int const(int) const> const&>()(1)), int>::value, "");
static_assert(std::is_same<decltype(std::declval<function<int&&(int)>&>()(1)), int&&>::value, "");
static_assert(std::is_same<decltype(std::declval<function<void(int) const>&>()(1)), void>::value, "");
""", where="include/embedded/function.h"))
    P.append(Prog("F05:const callables", "a const signature takes exactly the const-callable ones", HEAD + """
struct N { void operator()() {} };
struct K { void operator()() const {} };
struct B { void operator()() {} void operator()() const {} };
struct D { void operator()() {} void operator()() const = delete; };
struct L { void operator()() & {} };
struct KL { void operator()() const& {} };
static_assert(!std::is_constructible<function<void() const>, N>::value, "");
static_assert(!std::is_constructible<function<void() const>, N&>::value, "");
static_assert(!std::is_constructible<function<void() const>, N const&>::value, "");
static_assert(!std::is_assignable<function<void() const>&, N>::value, "");
static_assert(!std::is_assignable<function<void() const>&, N const&>::value, "");
static_assert(!std::is_constructible<function<void() const>, D>::value, "");
static_assert(!std::is_constructible<function<void() const>, L>::value, "");
static_assert(std::is_constructible<function<void() const>, K>::value, "");
static_assert(std::is_constructible<function<void() const>, K const&>::value, "");
static_assert(std::is_constructible<function<void() const>, B>::value, "");
static_assert(std::is_constructible<function<void() const>, KL>::value, "");
static_assert(std::is_constructible<function<void() const>, void (*)()>::value, "");
static_assert(std::is_constructible<function<void()>, N>::value, "");
static_assert(std::is_constructible<function<void()>, N const&>::value, "");
static_assert(std::is_constructible<function<void()>, K>::value, "");
static_assert(std::is_constructible<function<void()>, B const&>::value, "");
static_assert(std::is_constructible<function<void()>, L>::value, "");
static_assert(std::is_constructible<function<void()>, D>::value, "");
static_assert(!std::is_constructible<function<int(int) const, 64>, N>::value, "");
void use() { function<void() const> f{K()}; f = K(); f = B(); function<void()> g{N()}; g = L(); f(); g(); function<void() const> const h{K()}; h(); }
""", where="include/embedded/function.h"))
    for nm, sig in (("non-const", "void()"), ("other signature", "int(int), 64, 16")):
        P.append(Prog("F05:rejected", "copying a wrapper (%s)" % nm, HEAD + """
#ifdef BAD
#define MOVE(x) x
#else
#define MOVE(x) std::move(x)
#endif
void use() { function<%s> a; function<%s> b(MOVE(a)); b = MOVE(a); (void)b; }
""" % (sig, sig), bad=True, where="include/embedded/function.h"))
    P.append(Prog("F05:rejected", "mutable lambda for a const signature", HEAD + """
#ifdef BAD
#define MUT mutable
#else
#define MUT
#endif
void use() { int i = 0; function<int() const> f([i]() MUT { return i; }); (void)f; function<int()> g([i]() mutable { return i++; }); (void)g; }
""", bad=True, where="include/embedded/function.h"))
    return P


CHECKS = {p: check for p in OTHER}
