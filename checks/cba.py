"""B01-B08: circular_buffer_adapter"""
from engine import witness
from engine.check import Job
from engine.witness import Prog

SRC = "cba.cpp"
FIN = ("-DSMALLCAP=4",)
STRUCT = ("ctor", "ctor_default", "attach", "move", "destroy", "observe")
LOOK = ("front_back", "index", "at", "raw_index")
REMOVE = ("clear", "pop_front", "pop_back", "pop_front_n", "pop_back_n")
ADD = ("push_back_copy", "push_back_move", "push_front_copy", "push_front_move", "emplace_back", "emplace_front", "push_own")
NONE = ("emplace_back_none", "emplace_front_none")
FORMS = tuple("emplace_%s_%s" % (w, f) for w in ("back", "front") for f in ("rvalue", "lvalue", "pair"))
ADD += NONE + FORMS
ITER = ("it_moves", "cit_moves", "it_steps", "cit_steps", "it_access", "cit_access", "order_ii", "order_cc", "order_ic", "order_ci",
        "convert", "reverse", "creverse", "raw_index")
BULK = ("copy_in_back", "copy_in_front", "copy_out_front", "copy_out_back", "copy_in", "copy_out", "copy_all")

CONF = {
    "int": (),
    "int, NDEBUG": ("-DNDEBUG",),
    "6-byte struct": ("-DELEM=Blob", "-DBLOB"),
    "double": ("-DELEM=double",),
    "unsigned char": ("-DELEM=unsigned char",),
    "class": ("-DNONTRIV",),
    "class, NDEBUG": ("-DNONTRIV", "-DNDEBUG"),
    "class, trivial destructor": ("-DNONTRIV", "-DTRIVDTOR"),
    "class, throwing": ("-DNONTRIV", "-DTHROWING"),
    "class, throwing, NDEBUG": ("-DNONTRIV", "-DTHROWING", "-DNDEBUG"),
    "const int": ("-DELEM=const int", "-DCONSTELEM"),
}
LONG = {
    "int, C++11": ("-std=c++11",),
    "int, C++20": ("-std=c++20",),
    "long double": ("-DELEM=long double",),
    "short": ("-DELEM=short", "-DNDEBUG"),
    "class, C++11": ("-DNONTRIV", "-std=c++11"),
}

PLAN = {
    "B01": (STRUCT + ("clear_default",) + LOOK + REMOVE + ADD, ("int", "int, NDEBUG", "6-byte struct", "class", "class, NDEBUG")),
    "B02": (STRUCT + LOOK + REMOVE + ADD + ITER + BULK, ("int", "int, NDEBUG", "double", "unsigned char", "class", "6-byte struct")),
    "B03": (STRUCT + LOOK + REMOVE + ADD, ("class", "class, NDEBUG", "class, trivial destructor")),
    "B04": (ADD, ("class, throwing", "class, throwing, NDEBUG")),
    "B05": (STRUCT + LOOK + REMOVE + ADD, ("int", "int, NDEBUG", "class", "6-byte struct", "const int")),
    "B06": (STRUCT + ITER, ("int", "int, NDEBUG", "class", "double", "const int")),
    "B07": (BULK, ("int", "int, NDEBUG", "6-byte struct", "unsigned char", "double")),
    "B08": (("at",), ("int", "int, NDEBUG", "class", "6-byte struct", "const int")),
}
MINIMUM = {"B01": 1000, "B02": 1000, "B03": 50, "B04": 20, "B05": 300, "B06": 300, "B07": 60, "B08": 8}


HEAD = r"""
#include <embedded/circular_buffer_adapter.h>
#include <type_traits>
#include <utility>
struct P { int x; };
using embedded::circular_buffer_adapter;
template <typename A, typename B> constexpr bool same() { return std::is_same<A, B>::value; }
template <typename T> T v();
"""
ITERS = HEAD + r"""
template <typename L, typename R> constexpr bool cmp() {
  return same<decltype(v<L const&>() == v<R const&>()), bool>() && same<decltype(v<L const&>() != v<R const&>()), bool>() && same<decltype(v<L const&>() < v<R const&>()), bool>() &&
         same<decltype(v<L const&>() > v<R const&>()), bool>() && same<decltype(v<L const&>() <= v<R const&>()), bool>() && same<decltype(v<L const&>() >= v<R const&>()), bool>();
}
template <typename T> struct chk {
  using A = circular_buffer_adapter<T>;
  using I = typename A::iterator;
  using C = typename A::const_iterator;
  using U = typename std::remove_const<T>::type;
  using TI = std::iterator_traits<I>;
  using TC = std::iterator_traits<C>;
  static_assert(std::is_base_of<std::random_access_iterator_tag, typename TI::iterator_category>::value, "category");
  static_assert(std::is_base_of<std::random_access_iterator_tag, typename TC::iterator_category>::value, "category");
  static_assert(same<typename TI::value_type, U>() && same<typename TC::value_type, U>(), "value_type");
  static_assert(same<typename TI::reference, T&>() && same<typename TC::reference, T const&>(), "reference");
  static_assert(same<typename TI::pointer, T*>() && same<typename TC::pointer, T const*>(), "pointer");
  static_assert(same<typename TI::difference_type, std::ptrdiff_t>() && same<typename TC::difference_type, std::ptrdiff_t>(), "difference_type");
  static_assert(same<decltype(*v<I&>()), T&>() && same<decltype(*v<I const&>()), T&>() && same<decltype(v<I const&>()[1]), T&>() && same<decltype(v<I const&>().operator->()), T*>(), "access");
  static_assert(same<decltype(*v<C&>()), T const&>() && same<decltype(*v<C const&>()), T const&>() && same<decltype(v<C const&>()[1]), T const&>() && same<decltype(v<C const&>().operator->()), T const*>(), "access");
  static_assert(same<decltype(++v<I&>()), I&>() && same<decltype(v<I&>()++), I>() && same<decltype(--v<I&>()), I&>() && same<decltype(v<I&>()--), I>(), "steps");
  static_assert(same<decltype(++v<C&>()), C&>() && same<decltype(v<C&>()++), C>() && same<decltype(--v<C&>()), C&>() && same<decltype(v<C&>()--), C>(), "steps");
  static_assert(same<decltype(v<I&>() += 1), I&>() && same<decltype(v<I&>() -= 1), I&>() && same<decltype(v<I const&>() + 1), I>() && same<decltype(v<I const&>() - 1), I>() && same<decltype(1 + v<I const&>()), I>(), "moves");
  static_assert(same<decltype(v<C&>() += 1), C&>() && same<decltype(v<C&>() -= 1), C&>() && same<decltype(v<C const&>() + 1), C>() && same<decltype(v<C const&>() - 1), C>() && same<decltype(1 + v<C const&>()), C>(), "moves");
  static_assert(same<decltype(v<I const&>() - v<I const&>()), std::ptrdiff_t>() && same<decltype(v<C const&>() - v<C const&>()), std::ptrdiff_t>(), "difference");
  static_assert(std::is_convertible<I, C>::value && !std::is_convertible<C, I>::value && !std::is_constructible<I, C>::value && !std::is_assignable<I&, C>::value && std::is_assignable<C&, I>::value, "conversion");
  static_assert(std::is_default_constructible<I>::value && std::is_default_constructible<C>::value && std::is_copy_constructible<I>::value && std::is_copy_constructible<C>::value && std::is_copy_assignable<I>::value && std::is_copy_assignable<C>::value, "values");
  static_assert(same<decltype(*v<A const&>().rbegin()), T&>() && same<decltype(*v<A const&>().rend()), T&>() && same<decltype(*v<A const&>().crbegin()), T const&>() && same<decltype(*v<A const&>().crend()), T const&>(), "reverse");
  static_assert(same<decltype(v<A&>().begin()), I>() && same<decltype(v<A&>().end()), I>() && same<decltype(v<A&>().cbegin()), C>() && same<decltype(v<A&>().cend()), C>() && same<decltype(v<A const&>().cbegin()), C>(), "ends");
  static_assert(same<decltype(v<I&>() == v<C&>()), bool>() && same<decltype(v<C&>() != v<I&>()), bool>() && same<decltype(v<I&>() < v<C&>()), bool>() && same<decltype(v<C&>() > v<I&>()), bool>() && same<decltype(v<I&>() <= v<C&>()), bool>() && same<decltype(v<C&>() >= v<I&>()), bool>(), "comparisons");
  static_assert(cmp<I, I>() && cmp<I, C>() && cmp<C, I>() && cmp<C, C>(), "comparisons of constant iterators");
};
template struct chk<int>;
template struct chk<int const>;
template struct chk<unsigned char>;
template struct chk<P>;
template struct chk<P const>;
template struct chk<double>;
"""
NOWRITE = [(n, HEAD + """
template <typename A> void f(A& a, typename A::const_iterator i, typename A::const_reverse_iterator r) { (void)a; (void)i; (void)r;
#ifdef BAD
  %s;
#endif
}
void use(circular_buffer_adapter<P>& a) { f(a, a.cbegin(), a.crbegin()); }
""" % e) for n, e in (("*cbegin", "*a.cbegin() = P()"), ("->", "i->x = 1"), ("[]", "i[0] = P()"), ("*crbegin", "*r = P()"), ("r->", "r->x = 1"), ("back to mutable", "typename A::iterator m = i; (void)m"),
                     ("post-increment", "*i++ = P()"), ("sum", "*(i + 1) = P()"))]
ADAPTER = HEAD + r"""
template <typename T> struct chk {
  using A = circular_buffer_adapter<T>;
  using U = typename std::remove_const<T>::type;
  static_assert(same<typename A::value_type, U>() && same<typename A::reference, T&>() && same<typename A::const_reference, U const&>() && same<typename A::pointer, T*>() && same<typename A::const_pointer, U const*>(), "members");
  static_assert(same<typename A::size_type, std::size_t>() && same<typename A::difference_type, std::ptrdiff_t>(), "members");
  static_assert(same<decltype(v<A&>().front()), T&>() && same<decltype(v<A&>().back()), T&>() && same<decltype(v<A&>()[0]), T&>() && same<decltype(v<A&>().at(0)), T&>(), "access");
  static_assert(same<decltype(v<A const&>().size()), std::size_t>() && same<decltype(v<A const&>().capacity()), std::size_t>() && same<decltype(v<A const&>().remaining()), std::size_t>(), "sizes");
  static_assert(same<decltype(v<A const&>().empty()), bool>() && same<decltype(v<A const&>().full()), bool>(), "states");
  static_assert(!std::is_copy_constructible<A>::value && !std::is_copy_assignable<A>::value && std::is_move_constructible<A>::value && std::is_move_assignable<A>::value, "one owner");
};
template struct chk<int>;
template struct chk<int const>;
template struct chk<P>;
template struct chk<double>;
static_assert(same<decltype(v<circular_buffer_adapter<P>&>().emplace_back()), P&>() && same<decltype(v<circular_buffer_adapter<P>&>().emplace_front()), P&>(), "emplace");
"""


def chunks(names, n):
    return [names[i::n] for i in range(n)]


def check(c):
    names, confs = PLAN[c.pid]
    confs = list(confs)
    table = dict(CONF)
    if c.thorough:
        confs = list(CONF)
        if c.pid not in ("B03", "B04"):
            table.update(LONG)
            confs += list(LONG)
        if c.pid == "B04":
            confs = [x for x in confs if "throwing" in x]
        if c.pid == "B03":
            confs = [x for x in confs if x.startswith("class") and "throwing" not in x]
        if c.pid == "B07":
            confs = [x for x in confs if "class" not in x and "const" not in x]
    jobs = []
    for conf in confs:
        fl = table[conf]
        ns = list(dict.fromkeys(names))
        for ch in chunks(ns, 3 if len(ns) > 6 else 1):
            skip = set()
            if "-DCONSTELEM" in fl:
                skip = set(ADD) | set(BULK) | set(REMOVE) | {"order_ic", "order_ci"}
            if "-DNDEBUG" not in fl:
                skip |= {"clear_default"}  # whether assertions accept an adapter without memory is left open
            if "-DNONTRIV" in fl:
                skip |= set(BULK)
            else:
                skip |= set(FORMS)
            if "-DBLOB" in fl:
                skip |= set(NONE)
            if "-DTHROWING" in fl:
                skip |= {"push_own"}
            ch = [x for x in ch if x not in skip]
            if ch:
                jobs.append(Job(SRC, fl, "|".join(ch), conf, (c.pid + ":",), fallback=FIN))
    c.run_jobs(jobs)
    if c.pid == "B06":
        witness.run(c, [Prog("B06:types", "what the iterators are", ITERS, where="include/embedded/detail/circular_buffer_adapter.h")] +
                    [Prog("B06:const", "no writing through a const iterator: " + n, t, bad=True, stds=("11", "17"), where="include/embedded/detail/circular_buffer_adapter.h") for n, t in NOWRITE])
    if c.pid == "B01":
        witness.run(c, [Prog("B01:types", "what the adapter is", ADAPTER, where="include/embedded/circular_buffer_adapter.h")])
    c.minimum = {c.pid + ":": MINIMUM[c.pid]}
    if c.pid == "B02":
        c.minimum["mem:bounds"] = 20000
    if c.pid in ("B03",):
        c.minimum = {"B03:effects": 50}
    c.assumptions = ["capacity * sizeof(T) < PTRDIFF_MAX / 32", "element types: " + "; ".join(confs),
                     "distinct buffers do not overlap", "callers respect the documented preconditions (asserts)"]
    c.explanation = (
        "Relational abstract interpretation (affine expressions over convex polyhedra, disjunctive, loops summarised by affine "
        "acceleration) of the adapter's compiled source from an arbitrary canonical state (capacity C, first slot f < C, size n <= C and "
        "content all unconstrained symbols). Every operation is shown to return to a canonical state - the object is identical to a freshly "
        "constructed adapter with the values raw_index(begin()) and size() - so the obligations hold for every history by induction.")


CHECKS = {p: check for p in PLAN}
