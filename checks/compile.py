"""C01: the configuration matrix, decided by the two front ends"""
import concurrent.futures as cf
import os
import re
import subprocess
import tempfile

from engine import ir
from engine.ir import INC, STUBS, VERIF

S32 = ["-m32", "-nostdinc++", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
       "-idirafter", "/usr/include/x86_64-linux-gnu", "-idirafter", "/usr/include", "-I" + VERIF + "/stubs32"]
THIRD = ["-I" + VERIF + "/stubs3p"]
STDS = ("11", "14", "17", "20")
VARIANTS = {
    "default": [],
    "no exceptions, no RTTI": ["-fno-exceptions", "-fno-rtti"],
    "no exceptions": ["-fno-exceptions"],
    "no RTTI": ["-fno-rtti"],
    "NDEBUG": ["-DNDEBUG"],
    "NDEBUG, no exceptions, no RTTI": ["-DNDEBUG", "-fno-exceptions", "-fno-rtti"],
    "32-bit": S32,
    "32-bit, no exceptions, no RTTI, NDEBUG": S32 + ["-fno-exceptions", "-fno-rtti", "-DNDEBUG"],
}
# backend of the math layer for g++: its own, or gcem as for other compilers
GCEM = ["-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR", "-I" + STUBS]
GNU = "gnu++"

# what a program that includes one header only does with it
USE = {
    "circular_buffer_adapter.h": "struct E { E(); E(E const&); ~E(); int i; };\nvoid f(int* p, unsigned char* q, E* e, E const& x) { embedded::circular_buffer_adapter<int> c(p, 4); c.push_back(1); c.emplace_front(2); c.copy_in_back(p, 1); c.pop_front(1); (void)c.at(0); embedded::circular_buffer_adapter<E> d(e, 4); d.push_back(x); d.emplace_back(); d.emplace_front(x); d.pop_back(); d.clear(); for (auto& y : d) (void)y; (void)(d.begin() - d.end()); (void)d.rbegin(); (void)q; }",
    "function.h": "struct X { int m(int); };\nvoid f() { embedded::function<int(int)> a, b([](int x) { return x; }); a = static_cast<embedded::function<int(int)>&&>(b); a(1); a = nullptr; embedded::function<int(X&, int)> m(&X::m); (void)static_cast<bool>(m); }",
    "move_wrapper.h": "void f(int i) { embedded::move_wrapper<int> w(static_cast<int&&>(i)); embedded::move_wrapper<int> v(w); (void)*v; }",
    "mutex.h": "struct M { void lock(); void unlock(); };\nvoid f(M& m) { embedded::lock_guard<M> g(m); }",
    "varint.h": "#include <vector>\nvoid f(unsigned char* b, unsigned char* e) { unsigned u = 0; int i = 0; embedded::varint::encode(u, b, e); embedded::varint::encode(i, b); embedded::varint::decode(i, b, e); (void)embedded::varint::size(u); std::vector<unsigned char> v; embedded::varint::encode(5L, std::back_inserter(v)); }",
    "typelist.h": "template <typename...> struct T {};\nusing X = embedded::typelist<int>::append<char>::to<T>;\nX x;",
    "type_traits.h": "#include <functional>\nint f(int);\nstatic_assert(embedded::is_invocable_r<int, decltype(f)&, int>::value && embedded::conjunction<>::value, \"\");",
    "type_traits/conjunction.h": "static_assert(!embedded::conjunction<std::true_type, std::false_type>::value, \"\");",
    "type_traits/is_invocable.h": "int f(int);\nstatic_assert(embedded::is_invocable_r<long, decltype(f)&, int>::value && !embedded::is_invocable_r<int*, decltype(f)&, int>::value, \"\");",
    "utility/integer_sequence.h": "static_assert(embedded::make_index_sequence<3>::size() == 3 && embedded::make_index_range<3, 8>::size() == 5, \"\");",
    "config.h": "#if LIBEMB_HAS_EXCEPTIONS + LIBEMB_HAS_RTTI > 2\n#error\n#endif",
    "preprocessor.h": "char const* x = LIBEMB_STRINGIFY(LIBEMB_CONCAT(a, b)); int LIBEMB_UNIQUE_NAME(v), LIBEMB_UNIQUE_NAME(v);",
    "constexpr_math.h": "using namespace embedded::cmath;\ntypedef complex<double> C;\nvoid f(C z) { (void)poly(vector<C, 2>{z, z.conj()}); (void)exp(vector<C, 1>{z}); (void)exp(vector<double, 1>{1.0}); (void)abs(vector<C, 1>{z}); (void)pi<double>(); (void)cos(1.0); }",
    "constexpr_math/complex.h": "using namespace embedded::cmath;\nvoid f(complex<double> z) { (void)(exp(z) / z * 2.0 == z.conj()); (void)z.abs(); (void)(-z + z - z); }".replace("* 2.0 ", ""),
    "constexpr_math/vector.h": "using namespace embedded::cmath;\nstruct P { constexpr bool operator()(double a, double b) const { return a < b; } };\nvoid f(vector<double, 3> v) { (void)exp(v); (void)prod(v); (void)(2.0 * v / 3.0 == -v); (void)v.sort(P()); (void)v.append(v); (void)v.swap(0, 1); (void)v.erase<1>(); }",
    "constexpr_math/convolve.h": "using namespace embedded::cmath;\nvoid f(vector<double, 3> v) { (void)convolve_full(v, v); }",
    "constexpr_math/poly.h": "using namespace embedded::cmath;\nvoid f(vector<double, 3> v) { (void)poly(v); }",
    "constexpr_math/functions.h": "double f(double x) { using namespace embedded; return cmath::sin(x) + cmath::pow(x, 2.0) + cmath::min(x, 1.0) + cmath::max(x, 2.0) + cmath::abs(x) + cmath::sqrt(x); }",
    "constexpr_math/constants.h": "#if __cplusplus >= 201402L\nstatic_assert(embedded::cmath::pi<double>() > 3 && embedded::cmath::pi<float>() > 3 && embedded::cmath::pi<long double>() > 3, \"\");\n#else\ndouble p() { return embedded::cmath::pi<double>() + embedded::cmath::pi<float>() + embedded::cmath::pi<long double>(); }\n#endif",
    "signal/filter.h": "struct D {}; void f() { embedded::signal::iirfilter<double> const i(1000.0); (void)i; }",
    "signal/butterworth.h": "void f() { (void)embedded::signal::butterworth<3>().spec<double>().zpk(); }",
    "signal/chebyshev.h": "void f() { (void)embedded::signal::chebyshev1<3>(1.0).spec<double>().zpk(); (void)embedded::signal::chebyshev2<3>(20.0).spec<double>().zpk(); }",
    "signal/bessel.h": "void f() { (void)embedded::signal::bessel<3>().spec<double>().zpk(); }",
    "signal/poly.h": "void f(embedded::signal::poly_instance<float, 3>& i) { (void)i(1.0f); }",
    "signal/sos.h": "void f(embedded::signal::sos_instance<float, 3>& i) { (void)i(1.0f); }",
    "signal/debug_filter_coefs.h": "typedef embedded::signal::detail::zpk_value<1, 1, double> Z;\nusing namespace embedded;\nstatic const signal::sos_design<float, 1> d(Z(cmath::vector<cmath::complex<double>, 1>{cmath::complex<double>(-1)}, cmath::vector<cmath::complex<double>, 1>{cmath::complex<double>(0.5)}, 2.0), signal::sos_gain::first_section);\nstatic const signal::poly_design<double, 1> e(Z(cmath::vector<cmath::complex<double>, 1>{cmath::complex<double>(-1)}, cmath::vector<cmath::complex<double>, 1>{cmath::complex<double>(0.5)}, 2.0));\nLIBEMB_DEBUG_FILTER_COEFS(d);\nLIBEMB_DEBUG_FILTER_COEFS_NAME(e, \"name\");",
    "variant.h": "embedded::variant<int, char> v;",
    "ostream_ops.h": "#include <array>\nvoid f(std::ostream& o, embedded::cmath::vector<embedded::cmath::complex<double>, 2> const& v, embedded::signal::sos_section<double> const& s, embedded::signal::detail::zpk_value<1, 1, double> const& z, fpm::fixed_16_16 x, embedded::cmath::vector<fpm::fixed_16_16, 1> const& w) { using namespace std; o << v << s << z << x << w << std::array<int, 2>{{1, 2}}; }",
}
NEEDS_EXC = ()


def headers():
    out = []
    base = os.path.join(INC, "embedded")
    for d, _, fs in os.walk(base):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), base)
            if f.endswith((".h", ".hpp")) and "detail/" not in r:
                out.append(r)
    return sorted(out)


def compile_(cxx, std, flags, src, out, inc=INC):
    m32 = "-m32" in flags
    cmd = [cxx, "-std=" + std, "-O0", "-I" + inc] + list(flags) + ["-w"] * 0
    cmd += (["-S"] if m32 else ["-c"]) + [src, "-o", out]
    r = ir.compiler(cmd)
    return r.returncode, r.stdout, cmd


NOTHING = re.compile(r"(?<=[;{}])(\s*)(?:\(void\)\s*0|static_cast<void>\(0\)|\(\(void\)\s*0\))\s*;")


def without_nothing(d):
    """A copy of the headers without the statements that do nothing: they make
    no difference, other than that C++11 does not admit them in a constexpr
    function.  None if there are none."""
    inc, found = os.path.join(d, "include"), False
    for r, _, fs in os.walk(INC):
        t = os.path.join(inc, os.path.relpath(r, INC))
        os.makedirs(t, exist_ok=True)
        for f in fs:
            with open(os.path.join(r, f), errors="surrogateescape") as h:
                s = h.read()
            n = NOTHING.sub(r"\1", s)
            found = found or n != s
            with open(os.path.join(t, f), "w", errors="surrogateescape") as h:
                h.write(n)
    return inc if found else None


def errors(txt, n=3):
    ls = [l[:260] for l in txt.splitlines() if re.search(r"\berror\b", l)]
    return " | ".join(ls[:n]) or txt[:300]


def undefined(obj):
    r = subprocess.run(["nm", "-uC", obj], stdout=subprocess.PIPE, text=True)
    return [l.split(None, 1)[1] for l in r.stdout.splitlines() if "embedded::" in l and l.split(None, 1)[0] in ("U", "w")]


def c01(c):
    tasks = []
    # clang knows only the gcem back end; g++ has both
    def base(cxx):
        # clang takes C++14's constant expressions in C++11 as an extension, g++ as a function that is not constexpr
        return ["-pedantic-errors"] + (["-I" + STUBS, "-Wno-c++14-extensions"] if cxx == "clang++" else []) + THIRD
    names = list(VARIANTS)
    everything = os.path.join(VERIF, "drivers", "all.cpp")
    for ci, cxx in enumerate(("g++", "clang++")):
        for si, std in enumerate(STDS):
            for vi, v in enumerate(names):
                fl = base(cxx) + VARIANTS[v]
                # quick: every pair of (standard, variant) with one compiler, the ends with both
                pick = c.thorough or (vi + si + ci) % 2 == 0 or v in ("default", "32-bit, no exceptions, no RTTI, NDEBUG")
                if pick:
                    tasks.append(("whole interface", cxx, "c++" + std, v, fl + (["-DWITH_DEBUG"] if (si + vi) % 2 == 0 or c.thorough else []), everything))
                    if cxx == "g++" and (c.thorough or v in ("default", "32-bit")) and (c.thorough or std in ("11", "20")):
                        tasks.append(("whole interface, gcem", cxx, "c++" + std, v, fl + GCEM, everything))
            tasks.append(("whole interface", cxx, GNU + std, "GNU extensions", base(cxx)[1:], everything)) if c.thorough or std == "17" else None
            if cxx == "clang++" and (c.thorough or std == "11"):
                tasks.append(("whole interface, ARM", cxx, "c++" + std, "32-bit ARM", base(cxx) + [x for x in S32 if x != "-m32"] + ["--target=armv7-linux-gnueabihf", "-fsyntax-only"], everything))
    hs = headers()
    with tempfile.TemporaryDirectory(prefix="verif-c01") as d:
        for h in hs:
            src = os.path.join(d, re.sub(r"\W", "_", h) + ".cpp")
            with open(src, "w") as f:
                f.write("#include <embedded/%s>\n#include <embedded/%s>\n%s\n" % (h, h, USE.get(h, "")))
            for ci, cxx in enumerate(("g++", "clang++")):
                for si, std in enumerate(STDS):
                    for vi, v in enumerate(("default", "NDEBUG, no exceptions, no RTTI", "32-bit")):
                        if c.thorough or vi == 0 or (vi + si + ci) % 2 == 0:
                            tasks.append((h, cxx, "c++" + std, v, base(cxx) + VARIANTS[v], src))

        bare = without_nothing(d)

        def one(a):
            n, t = a
            out = os.path.join(d, "o%d.o" % n)
            rc, txt, cmd = compile_(t[1], t[2], t[4], t[5], out)
            if rc and bare and t[2].endswith("11"):
                rc, txt, cmd = compile_(t[1], t[2], t[4], t[5], out, bare)
            und = undefined(out) if rc == 0 and os.path.exists(out) and "-m32" not in t[4] and "--target" not in " ".join(t[4]) else []
            try:
                os.unlink(out)
            except OSError:
                pass
            return rc, txt, und, cmd

        # the long ones first
        tasks.sort(key=lambda t: not t[0].startswith("whole"))
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, enumerate(tasks)))
    for t, (rc, txt, und, cmd) in zip(tasks, res):
        what, cxx, std, v = t[:4]
        c.count("translation_units")
        ident = "C01:interface" if what.startswith("whole") else "C01:header"
        where = "include/embedded/" + what if ident == "C01:header" else what
        if rc and re.search(r"internal compiler error|unable to execute|No space left|cannot execute", txt):
            c.broken.append("%s: %s" % (" ".join(cmd), txt[:300]))
        elif rc:
            c.violation(ident, where, "%s -std=%s (%s): %s" % (cxx, std, v, errors(txt)), " ".join(cmd))
        elif und:
            c.violation("C01:definition", where, "%s -std=%s (%s): used but not defined: %s" % (cxx, std, v, ", ".join(und[:4])), " ".join(cmd))
        else:
            c.ok(ident)
            c.ok("C01:definition")
    missing = [h for h in USE if h not in hs]
    if missing:
        c.violation("C01:header", "include/embedded/" + missing[0], "public header is gone")
    c.samples = ["%s: %s -std=%s (%s)" % t[:4] for t in tasks[:: max(1, len(tasks) // 12)]]
    c.minimum = {"C01:interface": 30, "C01:header": 150}
    c.explanation = "Front ends of g++ 13 and clang 18 over (a) one translation unit that instantiates and uses the whole public interface, (b) one per public header with a use of it; object symbols inspected for library entities used but not defined."
    c.assumptions = ["32-bit: x86 and ARM data models with the host's C library headers; gcem, mpark variant and fpm are stand-in headers (the submodules are empty here)"]


CHECKS = {"C01": c01}
