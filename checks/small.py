"""L01 lock_guard, M01/M02 move_wrapper, T01 integer sequences, T02 type traits, X05/X06 math functions"""
import re

from engine.check import Job
from engine import witness
from engine.witness import Prog

CONFS = (("c++11", ("-std=c++11",)), ("c++17", ("-std=c++17",)), ("c++20, no exceptions", ("-std=c++20", "-fno-exceptions", "-fno-rtti")))
LONG = (("c++14, NDEBUG", ("-std=c++14", "-DNDEBUG")), ("c++17, no exceptions", ("-std=c++17", "-fno-exceptions")), ("c++20", ("-std=c++20",)))


def jobs(c, pat, own):
    out = []
    for n, fl in CONFS + (LONG if c.thorough else ()):
        p = "|".join(x for x in pat.split("|") if not ("throw" in x and "-fno-exceptions" in fl))
        if p:
            out.append(Job("small.cpp", fl, p, n, own, gcc_branch=False))
    return out


def l01(c):
    c.run_jobs(jobs(c, "lock|lock_throw", ("L01:",)))
    H = "#include <embedded/mutex.h>\n#include <utility>\n#include <type_traits>\nstruct M { void lock() {} void unlock() {} };\nusing G = embedded::lock_guard<M>;\n"
    w = "include/embedded/mutex.h"
    P = [Prog("L01:neither copied nor moved", "traits", H + """
static_assert(!std::is_copy_constructible<G>::value, "");
static_assert(!std::is_move_constructible<G>::value, "");
static_assert(!std::is_constructible<G, G&>::value, "");
static_assert(!std::is_constructible<G, G const>::value, "");
static_assert(!std::is_copy_assignable<G>::value, "");
static_assert(!std::is_move_assignable<G>::value, "");
static_assert(!std::is_assignable<G&, G&>::value, "");
static_assert(std::is_constructible<G, M&>::value, "");
static_assert(!std::is_default_constructible<G>::value, "");
""", where=w)]
    for nm, a, b in (("copy construction", "G h(g);", ""), ("move construction", "G h(std::move(g));", ""), ("copy assignment", "G h(m); h = g;", "G h(m);"),
                     ("move assignment", "G h(m); h = std::move(g);", "G h(m);"), ("guard of a temporary mutex", "G h{M()};", "")):
        P.append(Prog("L01:neither copied nor moved", nm, H + "void use() { M m; G g(m); (void)g;\n#ifdef BAD\n%s\n#else\n%s\n#endif\n}\n" % (a, b), bad=True, where=w))
    witness.run(c, P)
    c.minimum = {"L01:": 60}
    c.assumptions = ["the mutex's lock() and unlock() are arbitrary; lock() may throw"]
    c.explanation = ("Typestate/effect analysis: every path through scopes containing guards (normal, return, break, continue, exceptions from lock() or the body) is "
                     "interpreted over the compiled IR including the unwind edges; the ordered ledger of lock/unlock/body events must be lock, body, unlock per guard.")


MW = "#include <embedded/move_wrapper.h>\n#include <initializer_list>\n#include <type_traits>\n#include <utility>\nusing embedded::move_wrapper;\n"


def m01(c):
    c.run_jobs(jobs(c, "move_wrapper|move_throws", ("M01:",)))
    w = "include/embedded/move_wrapper.h"
    P = [Prog("M01:types", "const access through a const wrapper", MW + """
struct O { O() = default; O(O&&) = default; O(O const&) = delete; int i; };
#define T(X) \\
static_assert(std::is_same<decltype(*std::declval<move_wrapper<X>&>()), X&>::value, ""); \\
static_assert(std::is_same<decltype(*std::declval<move_wrapper<X> const&>()), X const&>::value, ""); \\
static_assert(std::is_same<decltype(std::declval<move_wrapper<X>&>().operator->()), X*>::value, ""); \\
static_assert(std::is_same<decltype(std::declval<move_wrapper<X> const&>().operator->()), X const*>::value, ""); \\
static_assert(std::is_constructible<move_wrapper<X>, X&&>::value, ""); \\
static_assert(!std::is_constructible<move_wrapper<X>, X&>::value, ""); \\
static_assert(!std::is_constructible<move_wrapper<X>, X const&>::value, ""); \\
static_assert(!std::is_convertible<X, move_wrapper<X>>::value, ""); \\
static_assert(std::is_copy_constructible<move_wrapper<X>>::value, ""); \\
static_assert(std::is_move_constructible<move_wrapper<X>>::value, ""); \\
static_assert(std::is_constructible<move_wrapper<X>, move_wrapper<X>&>::value, ""); \\
static_assert(std::is_constructible<move_wrapper<X>, move_wrapper<X> const&&>::value, "");
T(O) T(int) T(int*)
struct S { O o; int f() { return 1; } int g() const { return 2; } };
struct G { G() {} G(G&&) {} G(G const&) = delete; G(std::initializer_list<G>) = delete; };
void lists(move_wrapper<G>& a, move_wrapper<G> const& b) { move_wrapper<G> c(a), d(b), e(std::move(a)), f((G())); (void)c; (void)d; (void)e; (void)f; }
int use(move_wrapper<S>& a, move_wrapper<S> const& b) { return a->f() + b->g() + (*a).f() + (*b).g(); }
""", where=w)]
    for nm, a, b in (("writing through a const wrapper", "(*b).i = 1;", "(*a).i = 1;"), ("writing through -> of a const wrapper", "b->i = 1;", "a->i = 1;"),
                     ("construction from an lvalue", "O o; move_wrapper<O> x(o);", "O o; move_wrapper<O> x(std::move(o));")):
        P.append(Prog("M01:rejected", nm, MW + "struct O { O() {} O(O&&) = default; O(O const&) = default; int i; };\nvoid use(move_wrapper<O>& a, move_wrapper<O> const& b) {\n(void)a, (void)b;\n#ifdef BAD\n%s\n#else\n%s\n#endif\n}\n" % (a, b), bad=True, where=w))
    witness.run(c, P)
    c.minimum = {"M01:": 500}
    c.assumptions = ["T's move constructor is arbitrary"]
    c.explanation = ("Typestate/effect analysis of the compiled source with instrumented value types (copyable, move-only, with competing constructors): counts and addresses of "
                     "every construction and destruction for every kind of source (value, lvalue, const, temporary), chains and captures.")


def m02(c):
    c.run_jobs(jobs(c, "move_throws", ("M02:",)))
    w = "include/embedded/move_wrapper.h"
    kinds = [("nothrow move", "X(X&&) noexcept {} X(X const&) {}", True), ("throwing move", "X(X&&) noexcept(false) {} X(X const&) noexcept {}", False),
             ("defaulted nothrow", "X(X&&) = default;", True), ("copy only, throwing", "X(X const&) {}", False), ("copy only, nothrow", "X(X const&) noexcept {}", True),
             ("move-only throwing", "X(X&&) {} X(X const&) = delete;", False), ("move-only nothrow", "X(X&&) noexcept {} X(X const&) = delete;", True),
             ("trivial", "", True), ("member with throwing move", "struct M { M() {} M(M&&) {} } m; X(X&&) = default;", False)]
    code = MW
    for i, (nm, dec, nt) in enumerate(kinds):
        t = "true" if nt else "false"
        code += """namespace n%d { // %s
struct X { X() {} %s };
using W = move_wrapper<X>;
static_assert(std::is_nothrow_move_constructible<X>::value == %s, "");
static_assert(std::is_nothrow_constructible<W, X&&>::value == %s, "construction from the value");
static_assert(std::is_nothrow_constructible<W, W&&>::value == %s, "move");
static_assert(std::is_nothrow_constructible<W, W const&>::value == %s, "copy");
static_assert(std::is_nothrow_constructible<W, W&>::value == %s, "copy");
static_assert(std::is_nothrow_constructible<W, W const>::value == %s, "copy");
static_assert(noexcept(W(std::declval<X>())) == %s, "");
static_assert(noexcept(W(std::declval<W&>())) == %s, "");
}
""" % ((i, nm, dec) + (t,) * 8)
    code += "template <typename T> struct G { static_assert(std::is_nothrow_copy_constructible<move_wrapper<T>>::value == std::is_nothrow_move_constructible<T>::value, \"\"); static_assert(std::is_nothrow_constructible<move_wrapper<T>, T&&>::value == std::is_nothrow_move_constructible<T>::value, \"\"); };\ntemplate struct G<int>; template struct G<char const*>; template struct G<double>;\n"
    witness.run(c, [Prog("M02:noexcept", "noexcept exactly when the move is", code, where=w)])
    c.minimum = {"M02:": 80}
    c.assumptions = ["the listed kinds of value type represent all combinations of (non-)throwing move and copy constructors"]
    c.explanation = "static_asserts on the exception specifications for every combination of move/copy constructors, and abstract interpretation of the unwind edges of a throwing move."


def t01(c):
    w = "include/embedded/utility/integer_sequence.h"
    big = 400 if c.thorough else 130
    H = """#include <embedded/utility/integer_sequence.h>
#include <type_traits>
#include <cstddef>
using namespace embedded;
// which integer_sequence is it (itself or its base)?
template <typename T, T... I> integer_sequence<T, I...> as_seq(integer_sequence<T, I...> const&);
template <typename X> using seq_of = decltype(as_seq(X()));
template <typename S> struct chk;
template <typename T, T... I> struct chk<integer_sequence<T, I...>> {
  using type = T;
  static constexpr T val[sizeof...(I) + 1] = {I..., T(0)};
  static constexpr bool from(T b, std::size_t i) { return i >= sizeof...(I) || (val[i] == T(b + static_cast<T>(i)) && from(b, i + 1)); }
  static constexpr std::size_t size = sizeof...(I);
};
template <typename T, T... I> constexpr T chk<integer_sequence<T, I...>>::val[sizeof...(I) + 1];
template <typename X, typename T, long long B, std::size_t N> constexpr bool is() {
  return std::is_same<typename chk<seq_of<X>>::type, T>::value && chk<seq_of<X>>::size == N && chk<seq_of<X>>::from(static_cast<T>(B), 0)
    && std::is_same<typename X::value_type, T>::value && X::size() == N;
}
"""
    P = []
    lines = []
    ident = "T01:sequences"
    for t in ("int", "std::size_t", "unsigned char", "long", "short", "unsigned", "signed char"):
        for n in list(range(0, 20)) + [31, 32, 33, 64, 100, big - 3 if "char" not in t else 120]:
            lines.append('static_assert(is<make_integer_sequence<%s, %d>, %s, 0, %d>(), "");' % (t, n, t, n))
    for n in list(range(0, 24)) + [63, 64, 65, 127, 128, big]:
        lines.append('static_assert(is<make_index_sequence<%d>, std::size_t, 0, %d>(), "");' % (n, n))
    lines.append('static_assert(is<index_sequence_for<>, std::size_t, 0, 0>(), "");')
    for n in range(1, 24):
        lines.append('static_assert(is<index_sequence_for<%s>, std::size_t, 0, %d>(), "");' % (", ".join(["int", "void", "char&", "index_sequence<1>"][i % 4] for i in range(n)), n))
    P.append(Prog(ident, "make_integer_sequence", H + "\n".join(lines), where=w))
    lines = []
    for t, lo, hi in (("int", -6, 7), ("long", -3, 4), ("signed char", -4, 5), ("short", -2, 3), ("unsigned", 0, 6), ("std::size_t", 0, 6), ("unsigned char", 0, 5)):
        for b in range(lo, hi):
            for e in range(b, b + 10):
                lines.append('static_assert(is<make_integer_range<%s, %d, %d>, %s, %d, %d>(), "");' % (t, b, e, t, b, e - b))
    for t, b, e in (("int", -2147483647 - 1, -2147483647 + 4), ("int", 2147483640, 2147483647), ("long", -60, 60), ("unsigned", 4294967290, 4294967295), ("int", 1000000, 1000000 + big),
                    ("unsigned char", 250, 255), ("unsigned char", 0, 255), ("signed char", -128, 0), ("signed char", 100, 127), ("int", -big // 2, big // 2), ("short", 32760, 32767)):
        lines.append('static_assert(is<make_integer_range<%s, %s, %d>, %s, %dLL, %d>(), "");' % (t, str(b) if b != -2147483648 else "-2147483647-1", e, t, b, e - b))
    for b in range(0, 12):
        for e in list(range(b, b + 14)) + [b + big]:
            lines.append('static_assert(is<make_index_range<%d, %d>, std::size_t, %d, %d>(), "");' % (b, e, b, e - b))
    P.append(Prog(ident, "make_integer_range", H + "\n".join(lines), where=w))
    lines = ["static_assert(integer_sequence<int>::size() == 0, \"\");", "static_assert(integer_sequence<int, 3, 1, 2>::size() == 3, \"\");",
             "static_assert(std::is_same<integer_sequence<char, 1>::value_type, char>::value, \"\");", "static_assert(std::is_same<index_sequence<1, 2>, integer_sequence<std::size_t, 1, 2>>::value, \"\");",
             "static_assert(std::is_same<decltype(integer_sequence<int, 1>::size()), std::size_t>::value, \"\");"]
    lines.append("""template <typename... T, std::size_t... I> constexpr std::size_t sum(index_sequence<I...>) { return 0; }
template <std::size_t... I> std::integral_constant<std::size_t, sizeof...(I)> count(index_sequence<I...>);
template <int... I> std::integral_constant<std::size_t, sizeof...(I)> counti(integer_sequence<int, I...>);
static_assert(decltype(count(make_index_sequence<5>{}))::value == 5, "");
static_assert(decltype(count(index_sequence_for<int, int, char>{}))::value == 3, "");
static_assert(decltype(count(make_index_range<3, 9>{}))::value == 6, "");
static_assert(decltype(counti(make_integer_range<int, -3, 9>{}))::value == 12, "");
static_assert(decltype(counti(make_integer_sequence<int, 0>{}))::value == 0, "");""")
    P.append(Prog(ident, "members and deduction", H + "\n".join(lines), where=w))
    witness.run(c, P)
    c.minimum = {ident: 4000}
    c.assumptions = ["bounds up to the compilers' template recursion depth (checked here: ranges of up to %d elements)" % big]
    c.explanation = "Type-level evaluation: static_asserts compare every generated sequence with the required integers, value type and size, in all standards with both compilers."


T02_ROWS = []


def row(r, f, args, want, min_std=11):
    T02_ROWS.append((r, f, args, want, min_std))


TYPES = """
struct V0 { void operator()() {} };
struct V0c { void operator()() const {} };
struct I1 { int operator()(int) { return 0; } };
struct I1c { int operator()(int) const { return 0; } };
struct LV { int operator()() & { return 0; } };
struct RV { int operator()() && { return 0; } };
struct Both { int operator()(int) { return 0; } char* operator()(int) const { return nullptr; } };
struct RefArg { void operator()(int&) {} };
struct CRefArg { void operator()(int const&) {} };
struct RRefArg { void operator()(int&&) {} };
struct MO { MO() {} MO(MO&&) {} MO(MO const&) = delete; };
struct TakesMO { void operator()(MO) {} };
struct RetMO { MO operator()() { return MO(); } };
struct RetRef { int& operator()() { static int i; return i; } };
struct RetCRef { int const& operator()() { static int i = 0; return i; } };
struct RetPtr { int* operator()() { return nullptr; } };
struct Impl { Impl(int) {} };
struct Expl { explicit Expl(int) {} };
struct ConvTo { operator int() const { return 0; } };
struct RetConv { ConvTo operator()() { return ConvTo(); } };
struct Base {}; struct Derived : Base {}; struct Priv : private Base {};
struct RetD { Derived operator()() { return Derived(); } };
struct RetDP { Derived* operator()() { return nullptr; } };
struct RetBP { Base* operator()() { return nullptr; } };
struct RetPriv { Priv* operator()() { return nullptr; } };
struct Tmpl { template <typename T> T operator()(T t) { return t; } };
struct Vari { template <typename... T> int operator()(T&&...) { return 0; } };
struct Def { int operator()(int, int = 2) { return 0; } };
struct Over { int operator()(int) { return 0; } void operator()(char const*) {} };
struct Del { void operator()(int) = delete; void operator()(long) {} };
struct None {};
struct PrivCall { private: void operator()() {} };
struct Comma { struct R { template <typename T> friend int operator,(R, T&&) = delete; }; R operator()() { return R(); } };
struct Abs { virtual void f() = 0; virtual void operator()() = 0; };
enum E { e0 }; enum class EC { e0 };
struct RetE { E operator()() { return e0; } };
struct RetEC { EC operator()() { return EC::e0; } };
using FP = int (*)(int);
using FPV = void (*)(int&);
template <typename R> struct Qn { R operator()(); };
template <typename R> struct Qc { R operator()() const; };
template <typename R> struct Ql { R operator()() &; };
template <typename R> struct Qcl { R operator()() const&; };
template <typename R> struct Qr { R operator()() &&; };
template <typename R> struct Qcr { R operator()() const&&; };
struct Ar {};
template <typename P> struct By { int operator()(P); };
template <typename P> struct By2 { void operator()(int, P) const; };
"""
for r, f, a, v in (
    ("void", "V0", "", 1), ("void", "V0&", "", 1), ("void", "V0 const&", "", 0), ("void", "V0 const", "", 0), ("void", "V0c const&", "", 1), ("void", "V0c", "", 1), ("int", "V0", "", 0),
    ("void", "V0", "int", 0), ("int", "I1", "int", 1), ("int", "I1", "", 0), ("int", "I1", "int, int", 0), ("void", "I1", "int", 1), ("const void", "I1", "int", 1), ("volatile void", "I1", "int", 1),
    ("const volatile void", "V0", "", 1), ("long", "I1", "short", 1), ("double", "I1", "double", 1), ("char*", "I1", "int", 0), ("int", "I1 const&", "int", 0), ("int", "I1c const&", "int", 1),
    ("int", "I1", "int*", 0), ("int", "I1", "std::nullptr_t", 0), ("bool", "I1", "E", 1), ("int", "I1", "EC", 0), ("int", "LV&", "", 1), ("int", "LV", "", 0), ("int", "RV", "", 1), ("int", "RV&", "", 0),
    ("int", "Both&", "int", 1), ("char*", "Both&", "int", 0), ("char*", "Both const&", "int", 1), ("int", "Both const&", "int", 0), ("void", "RefArg", "int", 0), ("void", "RefArg", "int&", 1),
    ("void", "RefArg", "int const&", 0), ("void", "RefArg", "long&", 0), ("void", "CRefArg", "int", 1), ("void", "CRefArg", "int&", 1), ("void", "CRefArg", "long", 1), ("void", "RRefArg", "int", 1), ("void", "RRefArg", "int&", 0),
    ("void", "RRefArg", "int&&", 1), ("void", "RRefArg", "long&", 1), ("void", "TakesMO", "MO", 1), ("void", "TakesMO", "MO&", 0), ("void", "TakesMO", "MO const", 0), ("MO", "RetMO", "", 1), ("MO&", "RetMO", "", 0),
    ("int&", "RetRef", "", 1), ("int const&", "RetRef", "", 1), ("int", "RetRef", "", 1), ("int&&", "RetRef", "", 0), ("int&", "RetCRef", "", 0), ("int const&", "RetCRef", "", 1),
    ("long", "RetCRef", "", 1), ("int*", "RetPtr", "", 1), ("int const*", "RetPtr", "", 1), ("void*", "RetPtr", "", 1), ("char*", "RetPtr", "", 0), ("bool", "RetPtr", "", 1), ("Impl", "I1", "int", 1), ("Expl", "I1", "int", 0),
    ("int", "RetConv", "", 1), ("ConvTo", "RetConv", "", 1), ("int*", "RetConv", "", 0), ("Base", "RetD", "", 1), ("Derived", "RetD", "", 1), ("Base*", "RetDP", "", 1), ("Derived*", "RetBP", "", 0), ("Base*", "RetPriv", "", 0),
    ("Base&", "RetD", "", 0), ("int", "Tmpl", "int", 1), ("int", "Tmpl", "char*", 0), ("int", "Vari", "", 1), ("int", "Vari", "int, MO, char const*", 1), ("int", "Def", "int", 1), ("int", "Def", "int, int", 1), ("int", "Def", "", 0),
    ("int", "Over", "int", 1), ("int", "Over", "char const*", 0), ("void", "Over", "char const*", 1), ("void", "Over", "void*", 0), ("void", "Del", "int", 0), ("void", "Del", "long", 1), ("void", "None", "", 0), ("void", "PrivCall", "", 0),
    ("void", "Comma", "", 1), ("Comma::R", "Comma", "", 1), ("int", "Comma", "", 0), ("void", "Abs&", "", 1), ("int", "Abs&", "", 0), ("int", "RetE", "", 1), ("int", "RetEC", "", 0), ("EC", "RetEC", "", 1), ("E", "I1", "int", 0),
    ("int", "FP", "int", 1), ("int", "FP&", "char", 1), ("int", "FP", "char*", 0), ("void", "FP", "int", 1), ("void", "FPV", "int", 0), ("void", "FPV", "int&", 1), ("int", "int(&)(int)", "int", 1), ("int", "int(*const)(int)", "int", 1),
    ("int", "int", "int", 0), ("void", "int*", "", 0), ("int", "None", "None", 0), ("void", "V0*", "", 0),
):
    row(r, f, a, v)
# every qualification of the call operator, every kind of function object, every kind of result
_OBJ = {"%s": "r", "%s&": "l", "%s&&": "r", "%s const": "cr", "%s const&": "cl", "%s const&&": "cr"}
_CALL = {"Qn": ("l", "r"), "Qc": ("l", "r", "cl", "cr"), "Ql": ("l",), "Qcl": ("l", "r", "cl", "cr"), "Qr": ("r",), "Qcr": ("r", "cr")}
for q, cats in _CALL.items():
    for o, cat in _OBJ.items():
        for res in ("void", "int", "Base&"):
            for r in ("void", "const void", "volatile void", "const volatile void", "int", "long", "Base&", "Base const&", "char*"):
                fits = "void" in r or (res == "int" and r in ("int", "long")) or (res == "Base&" and r in ("Base&", "Base const&"))
                row(r, o % ("%s<%s>" % (q, res)), "", int(cat in cats and fits))
# every kind of argument for every kind of parameter
_PAR = {"Ar&": ("l",), "Ar const&": ("l", "r", "cl", "cr"), "Ar&&": ("r",), "Ar const&&": ("r", "cr"), "Ar": ("l", "r", "cl", "cr"), "Ar const": ("l", "r", "cl", "cr")}
for par, cats in _PAR.items():
    for o, cat in _OBJ.items():
        for r in ("void", "const void", "int", "short", "char*"):
            row(r, "By<%s>" % par, o % "Ar", int(cat in cats and r != "char*"))
            row(r, "By2<%s>&" % par, "int, " + o % "Ar", int(cat in cats and "void" in r))


def t02(c):
    w = "include/embedded/type_traits/"
    rows = "\n".join('static_assert(bool(embedded::is_invocable_r<%s>::value) == %s, "");' % (", ".join(x for x in (r, f, a) if x), "true" if v else "false") for r, f, a, v, _ in T02_ROWS)
    std = "\n".join('static_assert(std::is_invocable_r<%s>::value == %s, "expectation");' % (", ".join(x for x in (r, f, a) if x), "true" if v else "false") for r, f, a, v, _ in T02_ROWS)
    der = "static_assert(std::is_base_of<std::true_type, embedded::is_invocable_r<int, I1, int>>::value, \"\");\nstatic_assert(std::is_base_of<std::false_type, embedded::is_invocable_r<int, V0>>::value, \"\");\n"
    P = [Prog("T02:is_invocable_r", "is_invocable_r", "#include <embedded/type_traits/is_invocable.h>\n" + TYPES + rows + "\n" + der, where=w + "is_invocable.h"),
         Prog("T02:is_invocable_r", "is_invocable_r, own implementation against the standard's", "#include <type_traits>\n#include <utility>\n#undef __cpp_lib_is_invocable\n#include <embedded/type_traits/is_invocable.h>\n" + TYPES + rows + "\n" + std + "\n" + der,
              stds=("17", "20"), where=w + "is_invocable.h"),
         Prog("T02:is_invocable_r", "umbrella header", "#include <embedded/type_traits.h>\n" + TYPES + rows + "\nstatic_assert(embedded::conjunction<std::true_type>::value, \"\");\n", where=w + "is_invocable.h", stds=("11", "17"))]
    # conjunction: value, base class and short circuit
    H = """#include <embedded/type_traits/conjunction.h>
#include <type_traits>
using embedded::conjunction;
template <int N> struct K { static constexpr int value = N; static constexpr int tag = N + 100; };
struct Yes { static constexpr bool value = true; using me = Yes; };
struct No { static constexpr bool value = false; using me = No; };
template <typename T> struct Never { static_assert(sizeof(T) == 0, "must not be instantiated"); static constexpr bool value = T::value; };
struct ExplicitBool { struct B { constexpr explicit operator bool() const { return false; } }; static constexpr B value{}; };
"""
    lines = ['static_assert(conjunction<>::value, "");', 'static_assert(std::is_base_of<std::true_type, conjunction<>>::value, "");',
             'static_assert(!conjunction<std::false_type, Never<int>>::value, "");', 'static_assert(!conjunction<std::true_type, std::false_type, Never<int>, Never<long>>::value, "");',
             'static_assert(std::is_base_of<K<5>, conjunction<Yes, K<1>, K<5>>>::value, "");', 'static_assert(std::is_base_of<K<0>, conjunction<Yes, K<0>, K<5>>>::value, "");',
             'static_assert(conjunction<Yes, K<3>>::value == 3, "");', 'static_assert(conjunction<Yes, K<3>, K<7>>::tag == 107, "");', 'static_assert(conjunction<K<0>, K<7>>::tag == 100, "");',
             'static_assert(std::is_same<conjunction<No, Yes>::me, No>::value, "");', 'static_assert(std::is_same<conjunction<Yes>::me, Yes>::value, "");', 'static_assert(std::is_same<conjunction<Yes, No, Never<int>>::me, No>::value, "");',
             'static_assert(std::is_base_of<ExplicitBool, conjunction<Yes, ExplicitBool, Never<int>>>::value, "");']
    import itertools
    for n in range(1, 7):
        for vals in itertools.product((0, 1, 2), repeat=n) if n <= 4 else itertools.product((0, 3), repeat=n):
            exp = next((v for v in vals if v == 0), vals[-1])
            a = ", ".join("K<%d>" % v for v in vals)
            lines.append('static_assert(conjunction<%s>::value == %d && std::is_base_of<K<%d>, conjunction<%s>>::value, "");' % (a, exp, exp, a))
    P.append(Prog("T02:conjunction", "conjunction", H + "\n".join(lines), where=w + "conjunction.h"))
    same = []
    for n in range(1, 6):
        for vals in itertools.product((0, 2), repeat=n):
            a = ", ".join("K<%d>" % v for v in vals)
            same.append('static_assert(conjunction<%s>::value == std::conjunction<%s>::value && conjunction<%s>::tag == std::conjunction<%s>::tag, "");' % (a, a, a, a))
    P.append(Prog("T02:conjunction", "conjunction against std::conjunction", H + "\n".join(same), stds=("17", "20"), where=w + "conjunction.h"))
    T = """#include <embedded/typelist.h>
#include <type_traits>
#include <tuple>
using embedded::typelist;
template <typename... T> struct Tag {};
"""
    kinds = ["int", "void", "char&", "int const", "Tag<int>", "long", "int", "double*"]
    tl = ['static_assert(std::is_same<typelist<>::append<>, typelist<>>::value, "");', 'static_assert(std::is_same<typelist<>::to<Tag>, Tag<>>::value, "");', 'static_assert(std::is_same<typelist<int, char>::to<std::tuple>, std::tuple<int, char>>::value, "");']
    for n in range(0, 9):
        for m in range(0, 9):
            a, b = kinds[:n], [kinds[(3 * i + 1) % 8] for i in range(m)]
            tl.append('static_assert(std::is_same<typelist<%s>::append<%s>, typelist<%s>>::value, "");' % (", ".join(a), ", ".join(b), ", ".join(a + b)))
            tl.append('static_assert(std::is_same<typelist<%s>::append<%s>::to<Tag>, Tag<%s>>::value, "");' % (", ".join(a), ", ".join(b), ", ".join(a + b)))
            tl.append('static_assert(std::is_same<typelist<>::append<%s>::append<%s>, typelist<%s>>::value, "");' % (", ".join(a), ", ".join(b), ", ".join(a + b)))
    P.append(Prog("T02:typelist", "typelist", T + "\n".join(tl), where="include/embedded/typelist.h"))
    witness.run(c, P)
    c.minimum = {"T02:is_invocable_r": 1000, "T02:conjunction": 1000, "T02:typelist": 1000}
    c.assumptions = ["result types are types a function can return (not arrays or functions)", "the listed function objects, argument lists and result types",
                     "reference results bound to a temporary are left out: the standard libraries disagree about them"]
    c.explanation = ("Type-level evaluation: static_asserts over a matrix of function objects x argument lists x result types; expectations are themselves asserted against "
                     "std::is_invocable_r/std::conjunction, the library's own implementation is forced under C++17/20 as well.")


MATHFN = "acos acosh asin asinh atan atanh ceil cos cosh erf exp expm1 floor lgamma log log10 log1p log2 round sin sinh sqrt tan tanh tgamma trunc".split()
MATHFN2 = "atan2 copysign fmod pow".split()


def x05(c):
    from engine.ir import STUBS
    from fractions import Fraction
    w = "include/embedded/constexpr_math/functions.h"
    stub = ("-I" + STUBS,)
    jobs = [Job("mathfn.cpp", ("-std=c++" + s,), "functions|signs|minmax|minmax_real|pi", "compiler back end, c++" + s, ("X05:",), {"splitabs": True}) for s in ("11", "14", "17", "20")]
    jobs += [Job("mathfn.cpp", ("-std=c++" + s,) + stub, "functions|signs|signbit|minmax|minmax_real|pi", "gcem back end, c++" + s, ("X05:",), {"splitabs": True}, gcc_branch=False) for s in ("11", "14", "17", "20")]
    jobs += [Job("mathfn.cpp", ("-std=c++" + s, "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR") + stub, "functions|signs|signbit|minmax|minmax_real|pi", "gcem back end on request, c++" + s, ("X05:",), {"splitabs": True}) for s in ("11", "17")]
    c.run_jobs(jobs)
    H = "#include <type_traits>\n#include <embedded/constexpr_math.h>\nnamespace cm = embedded::cmath;\n"

    def lit(bits, suf):
        # pi to more digits than any type holds, rounded to nearest
        pi = Fraction(31415926535897932384626433832795028841971693993751058209749445923, 10 ** 64)
        return "(%d.0%s / %d.0%s)" % (round(pi * 2 ** (bits - 2)), suf, 2 ** (bits - 2), suf)

    # the digits of pi to more than the precision of the widest type
    pi = "".join('static_assert(cm::pi<%s>() == %s && std::is_same<decltype(cm::pi<%s>()), %s>::value && noexcept(cm::pi<%s>()), "");\n' % (t, l, t, t, t) for t, l in
                 (("float", lit(24, "f")), ("double", lit(53, "")), ("long double", lit(64, "L"))))
    types = ""
    for n in MATHFN:
        types += "".join('static_assert(std::is_same<decltype(cm::%s(std::declval<%s>())), %s>::value, "%s");\n' % (n, t, t, n) for t in ("float", "double", "long double"))
        types += 'static_assert(std::is_same<decltype(cm::%s(std::declval<int>())), double>::value, "%s");\n' % (n, n)
    for n in MATHFN2:
        types += "".join('static_assert(std::is_same<decltype(cm::%s(std::declval<%s>(), std::declval<%s>())), %s>::value, "%s");\n' % (n, t, t, t, n) for t in ("float", "double", "long double"))
    for t in ("float", "double", "long double", "int"):
        types += 'static_assert(std::is_same<decltype(cm::abs(std::declval<%s>())), %s>::value, "abs");\n' % (t, t)
        types += 'static_assert(std::is_same<typename std::decay<decltype(cm::min(std::declval<%s const&>(), std::declval<%s const&>()))>::type, %s>::value, "min");\n' % (t, t, t)
        types += 'static_assert(std::is_same<typename std::decay<decltype(cm::max(std::declval<%s const&>(), std::declval<%s const&>()))>::type, %s>::value, "max");\n' % (t, t, t)
        types += 'static_assert(std::is_same<decltype(cm::signbit(std::declval<%s>())), bool>::value, "signbit");\n' % t
    cst = "".join('static_assert(cm::min(%s, %s) == %s && cm::max(%s, %s) == %s, "");\n' % (a, b, lo, a, b, hi) for a, b, lo, hi in
                  (("1", "2", "1", "2"), ("2", "1", "1", "2"), ("-3", "-3", "-3", "-3"), ("1.5", "-0.5", "-0.5", "1.5"), ("-2.f", "4.f", "-2.f", "4.f"), ("7L", "-7L", "-7L", "7L")))
    sb = 'static_assert(cm::signbit(-1.0) && !cm::signbit(1.0) && cm::signbit(-2.f) && !cm::signbit(3.L), "");\n'
    ce = "".join("constexpr double c_%s = cm::%s(%s);\n" % (n, n, "1.5" if n == "acosh" else "0.5") for n in MATHFN if n not in ("lgamma",)) + "constexpr double c_abs = cm::abs(-1.5);\nstatic_assert(c_abs == 1.5 && c_sqrt * c_sqrt < 0.5 + 1e-12, \"\");\n"
    P = [Prog("X05:compile-time", "compiler back end", H + "#include <utility>\n" + pi + types + cst + sb + ce, compilers=("g++",), where=w),
         Prog("X05:names", "gcem back end", H + "#include <utility>\n" + pi + types, flags=("-I" + STUBS, "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR"), where=w),
         Prog("X05:names", "gcem back end offers lmgamma", H + "double u(double x) { return cm::lmgamma(x, 2); }\n", flags=("-I" + STUBS, "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR"), where=w),
         Prog("X05:names", "gcem is the back end of clang", H + pi + "double u(double x) { return cm::lmgamma(x, 2); }\n", flags=("-I" + STUBS,), compilers=("clang++",), where=w)]
    witness.run(c, P)
    c.minimum = {"X05:": 800}
    c.assumptions = ["gcem is represented by a stand-in with its documented names, signatures and meaning (the submodule is not available offline)"]
    c.explanation = ("Each name of both back ends is called on symbols of float, double and long double in the compiled IR; the call that is reached must be the C library function of "
                     "that name (equality of real expressions); min/max/abs/signbit are decided on symbolic arguments; result types, pi and compile-time use by static_asserts.")


OPS = "include/embedded/constexpr_math/vector.h"


def x06(c):
    from engine.ir import STUBS
    H = """#include <embedded/constexpr_math.h>
#include <embedded/constexpr_math/complex.h>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>
#include <embedded/constexpr_math/vector.h>
namespace cm = embedded::cmath;
"""
    CPX = H + """
template <typename T> struct all {
  using C = cm::complex<T>;
  static constexpr C zero() { return C(); }
  static constexpr C r() { return C(T(2)); }
  static constexpr C z() { return C(T(3), T(4)); }
  static constexpr C w() { return C(T(1), T(-1)); }
  S(zero().real() == 0 && zero().imag() == 0);
  S(r() == C(T(2), T(0)) && r().is_real() && !z().is_real());
  S(z().norm() == 25);
  S(z().conj() == C(T(3), T(-4)));
  S(-z() == C(T(-3), T(-4)));
  S(z() + w() == C(T(4), T(3)));
  S(z() - w() == C(T(2), T(5)));
  S(T(1) + z() == C(T(4), T(4)));
  S(T(1) - z() == C(T(-2), T(-4)));
  S(z() * w() == C(T(7), T(1)));
  S(T(2) * z() == C(T(6), T(8)));
  S(z() / w() == C(T(-0.5), T(3.5)));
  S(T(4) / w() == C(T(2), T(2)));
  S(z() / T(2) == C(T(1.5), T(2)));
};
template struct all<float>; template struct all<double>; template struct all<long double>;
"""
    FN = H + """
template <typename T> struct fun {
  using C = cm::complex<T>;
  using V = cm::vector<C, 2>;
  static constexpr C z() { return C(T(3), T(4)); }
  static constexpr C w() { return C(T(0), T(0)); }
  S(z().abs() > T(4.999) && z().abs() < T(5.001));
  S(z().distance(w()) > T(4.999) && z().distance(w()) < T(5.001));
  S(exp(w()).real() > T(0.999) && exp(w()).imag() < T(0.001));
  static constexpr V v() { return V{C(T(3), T(4)), C(T(0), T(0))}; }
  static constexpr cm::vector<T, 2> e() { return cm::vector<T, 2>{T(0), T(1)}; }
  S(abs(v())[0] > T(4.999));
  S(exp(v())[1].real() > T(0.999));
  S(exp(e())[0] > T(0.999) && exp(e())[1] > T(2.71));
};
template struct fun<float>; template struct fun<double>; template struct fun<long double>;
"""
    VEC = H + """
struct sq { constexpr int operator()(int i) const { return i * i; } };
struct dbl { constexpr double operator()(int i) const { return i + 0.5; } };
struct neg { template <typename T> constexpr T operator()(T v) const { return -v; } };
struct half { constexpr double operator()(int v) const { return v / 2.0; } };
struct sum { template <typename T> constexpr T operator()(T a, T b) const { return a + b; } };
using V = cm::vector<int, 4>;
using D = cm::vector<double, 3>;
constexpr V v{4, 1, 3, 2};
S(v.size() == 4 && V::size() == 4 && v[0] == 4 && v[3] == 2);
S(V::create(sq()) == (V{0, 1, 4, 9}));
S(V::full(7) == (V{7, 7, 7, 7}) && V::ones() == (V{1, 1, 1, 1}) && V::zeros() == (V{0, 0, 0, 0}));
S(!(V::ones() == V::zeros()));
S((D(cm::vector<int, 3>{1, 2, 3}) == D{1.0, 2.0, 3.0}));
S(v.transform(neg()) == (V{-4, -1, -3, -2}));
S((v.transform<double>(half()) == cm::vector<double, 4>{2.0, 0.5, 1.5, 1.0}));
S(v.reduce(sum(), 0) == 10 && v.reduce(sum()) == 11);
S((v.append(cm::vector<int, 2>{8, 9}) == cm::vector<int, 6>{4, 1, 3, 2, 8, 9}));
S((v.subvector<1, 2>() == cm::vector<int, 2>{1, 3}));
S((v.erase<1>() == cm::vector<int, 3>{4, 3, 2}));
S((v.erase<0, 2>() == cm::vector<int, 2>{3, 2}));
S(v.swap(0, 3) == (V{2, 1, 3, 4}));
S((v.swappop(2) == cm::vector<int, 3>{1, 4, 2}));
S((cm::vector<int, 0>::size() == 0));
S((v.append(cm::vector<int, 0>()) == v));
S((cm::make_vector<int>(sq(), embedded::make_index_sequence<4>()) == V{0, 1, 4, 9}));
S(-v == (V{-4, -1, -3, -2}));
S(2 * v == (V{8, 2, 6, 4}));
S(1 + v == (V{5, 2, 4, 3}));
S(12 / v == (V{3, 12, 4, 6}));
S(v / 1 == v);
S(prod(v) == 24);
constexpr D d{1.0, 2.0, -0.5};
S(2.0 * d == (D{2.0, 4.0, -1.0}) && 1.0 / d == (D{1.0, 0.5, -2.0}) && d / 2.0 == (D{0.5, 1.0, -0.25}) && prod(d) == -1.0 && -d == (D{-1.0, -2.0, 0.5}));
using C = cm::complex<double>;
using W = cm::vector<C, 2>;
constexpr W w{C(1.0, 2.0), C(-3.0)};
S((real(w) == cm::vector<double, 2>{1.0, -3.0}));
S((imag(w) == cm::vector<double, 2>{2.0, 0.0}));
S((norm(w) == cm::vector<double, 2>{5.0, 9.0}));
S(2.0 * w == (W{C(2.0, 4.0), C(-6.0)}));
S(prod(w) == C(-3.0, -6.0));
"""
    SEL = H + """
struct less { template <typename T> constexpr bool operator()(T const& a, T const& b) const { return a < b; } };
struct more { template <typename T> constexpr bool operator()(T const& a, T const& b) const { return b < a; } };
struct odd { constexpr bool operator()(int a) const { return a % 2 != 0; } };
struct pos { constexpr bool operator()(double a) const { return a > 0; } };
using V = cm::vector<int, 5>;
constexpr V v{4, 1, 3, 2, 5};
S(v.argmin(less()) == 1 && v.argmin(more()) == 4);
S(v.count(odd()) == 3);
S(v.sort(less()) == (V{1, 2, 3, 4, 5}));
S(v.sort(more()) == (V{5, 4, 3, 2, 1}));
constexpr cm::vector<double, 3> d{0.5, -1.0, 0.25};
S(d.argmin(less()) == 1 && d.count(pos()) == 2);
S((d.sort(less()) == cm::vector<double, 3>{-1.0, 0.25, 0.5}));
S((cm::vector<int, 1>{3}.sort(less()) == cm::vector<int, 1>{3}));
"""
    POL = H + """
using D2 = cm::vector<double, 2>;
using D3 = cm::vector<double, 3>;
constexpr D2 a{1.0, 2.0};
constexpr D3 b{3.0, -1.0, 4.0};
S((convolve_full(a, b) == cm::vector<double, 4>{3.0, 5.0, 2.0, 8.0}));
S((convolve_full(b, a) == cm::vector<double, 4>{3.0, 5.0, 2.0, 8.0}));
S((convolve_full(cm::vector<int, 1>{2}, cm::vector<int, 2>{3, 4}) == cm::vector<int, 2>{6, 8}));
S((poly(a) == D3{1.0, -3.0, 2.0}));
S((poly(cm::vector<float, 3>{1.f, -1.f, 2.f}) == cm::vector<float, 4>{1.f, -2.f, -1.f, 2.f}));
using C = cm::complex<double>;
S((poly(cm::vector<C, 2>{C(1.0, 2.0), C(1.0, -2.0)}) == cm::vector<C, 3>{C(1.0), C(-2.0), C(5.0)}));
"""
    G = ("-I" + STUBS, "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR")
    P = []
    CPX, FN, VEC, SEL, POL = (re.sub(r"\bS\((.*)\);$", r'static_assert((\1), "");', x, flags=re.M) for x in (CPX, FN, VEC, SEL, POL))
    for nm, code, w in (("complex numbers", CPX, "complex.h"), ("vectors", VEC, "vector.h"), ("selection and sorting", SEL, "vector.h"), ("convolution and polynomials", POL, "poly.h")):
        w = "include/embedded/constexpr_math/" + w
        P.append(Prog("X06:" + nm, "compiler back end", code, compilers=("g++",), where=w))
        P.append(Prog("X06:" + nm, "gcem back end", code, flags=G, where=w))
    P.append(Prog("X06:functions of complex numbers and vectors", "compiler back end", FN, compilers=("g++",), where="include/embedded/constexpr_math/complex.h"))
    witness.run(c, P)
    c.minimum = {"X06:complex": 120, "X06:vectors": 200, "X06:selection": 80, "X06:convolution": 60, "X06:functions": 20}
    c.assumptions = ["gcem's own functions are stand-ins that are no constant expressions; what depends on them is decided with the compiler's back end"]
    c.explanation = ("Every operation of the math types is demanded as a constant expression of known value by the type checkers of g++ and clang++; a compiler rejects undefined "
                     "behaviour and calls of functions that are not constexpr in a constant expression, so acceptance decides the obligation.")


CHECKS = {"X05": x05, "X06": x06, "L01": l01, "M01": m01, "M02": m02, "T01": t01, "T02": t02}
